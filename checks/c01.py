"""C01: what was stored is what get delivers."""
import os
from mc.core import family
from mc.gen import gen, sha
from mc import big, warc, hist

LEVEL = 'model_checking'
ASSUMPTIONS = ['contents come from a fixed alphabet of byte patterns (incompressible, constant, half-compressible, text, gzip, archive look-alike, mixed); '
               'sizes, silo.max_size, the cuts of the input and the operation histories are enumerated exhaustively within the stated bounds',
               'zlib and the kernel behave as documented']


def fetch(w, a, rid, content, what, m):
    """get in one way delivers content"""
    if m == '-o':
        r = a.get(rid, '-o', a.dir + '/out')
        try:
            with open(a.dir + '/out', 'rb') as f:
                got = f.read()
        except OSError:
            got = None
    else:
        r = a.get(rid, *([m] if m else []))
        got = r.out
    w.count('transitions')
    if not r.ok():
        w.bad(f'get{m}-fails', f'{what}: get {m} {rid} ends with {r.status()}: {r.err[-300:]!r}')
        return
    if m == '-z':
        try:
            got, n = warc.gunzip_all(r.out)
        except warc.Bad as e:
            w.bad('get-z-bad', f'{what}: get -z {rid} delivers no gzip stream: {e}')
            return
        if n != 1:
            w.bad('get-z-members', f'{what}: get -z {rid} delivers {n} gzip streams')
    if got != content:
        w.bad(f'get{m}-differs', f'{what}: get {m} {rid} delivers {len(got) if got is not None else None} bytes that are not the {len(content)} stored')


def one(w, a, spec, modes, what, **kw):
    c = gen(spec)
    r = a.store(c, **kw)
    w.count('transitions')
    if not r.ok():
        w.bad('store-fails', f'{what}: store {spec} ends with {r.status()}: {r.err[-300:]!r}')
        return
    rid = r.out.decode('latin-1').strip()
    for m in modes:
        fetch(w, a, rid, c, what, m)
    n = sum(1 for f in a.snap().files if f.endswith('.gz'))
    w.seen('states', (spec, a.kw.get('max_size')))
    w.seen('segment_counts', n)
    return rid


def spec_of(kind, n, v=''):
    return f'z{n}' if kind == 'z' else f'{kind}{n}.{v}'


@family
def c01_sizes(w, case):
    """Fresh archive, one object; every size in a range"""
    a = w.arch('c01', max_size=case['max'])
    for n in range(case['lo'], case['hi'], case.get('step', 1)):
        w.case = dict(case, lo=n, hi=n + 1)
        a.reset()
        s = spec_of(case['kind'], n)
        one(w, a, s, case.get('modes', ('', '-z')), f'{s} in silos of {case["max"]}')
    w.sample(f'{s} with silo.max_size={case["max"]}: stored, then fetched as is and with -z')


@family
def c01_max(w, case):
    """One object; every silo size in a range"""
    for n in range(case['lo'], case['hi']):
        w.case = dict(case, lo=n, hi=n + 1)
        a = w.arch('c01m')
        a.configure(max_size=str(n))
        one(w, a, case['spec'], case.get('modes', ('', '-z')), f'{case["spec"]} in silos of {n}')


@family
def c01_append(w, case):
    """A silo with one object, then a second one of every size: appended when it fits"""
    a = w.arch('c01', max_size=case['max'])
    a.must_store(gen(case['first']))
    base = a.snap()
    for n in range(case['lo'], case['hi']):
        w.case = dict(case, lo=n, hi=n + 1)
        a.restore(base)
        s = spec_of(case['kind'], n, 'x')
        one(w, a, s, ('', '-z'), f'{case["first"]} then {s} in silos of {case["max"]}')
        fetch(w, a, 'file://ex/' + sha(gen(case['first']))[:32], gen(case['first']), f'after {case["first"]} then {s}', '')


@family
def c01_capacity(w, case):
    """How much of this kind of content the first segment of a large object takes"""
    a = w.arch('c01', max_size=case['max'])
    one(w, a, spec_of(case['kind'], case['n']), ('', '-z'), f'{case["kind"]}{case["n"]} in silos of {case["max"]}')
    v = warc.View(a.snap(), a)
    bodies = sorted((rec.get('WARC-Segment-Number') or '1', len(rec.body)) for l in v.silos.values() for rec in l if rec.type != 'warcinfo')
    return [b for _, b in bodies]


@family
def c01_cuts(w, case):
    """The input arrives in pieces: reads end early at every combination of places"""
    a = w.arch('c01', max_size=case['max'])
    c = gen(case['spec'])
    ref = None
    if 'cuts' not in case:
        R = a.run([a.proc('store', stdin=c)], trace=2)
        return [s.op for s in R.trace if s.sc == 'read' and s.p1.startswith('/memfd:in')]
    r = a.store(c, faults=[(op, 'short', n) for op, n in case['cuts']])
    w.count('transitions')
    w.seen('states', (case['spec'], case['max'], tuple(case['cuts'])))
    if not r.ok():
        w.bad('store-fails', f'{case}: store ends with {r.status()}: {r.err[-300:]!r}')
        return
    rid = r.out.decode('latin-1').strip()
    for m in ('', '-z'):
        fetch(w, a, rid, c, f'{case}', m)


def h_state(w, h, wd, a):
    hist.check_gets(w, wd, a, ('', '-z') if len(wd.path) % 2 else ('', '-q'))


H = hist.make('c01h', confs=({'max_size': '4k'}, {'max_size': '9k'}), step=hist.step_ack, state=h_state)
ALPHA = [['store', 'r100.a'], ['store', 'r1500.b'], ['store', 'r7000.d'], ['store', 'h5000.e'], ['storef', 'x00'],
         ['meta', 'r100.a', 'r60.m'], ['meta', 'r7000.d', 'r4000.n'], ['hk'], ['run', 'reindex'], ['conf', 1], ['conf', 0],
         ['ro', 0], ['rm', '_.cache'], ['run', 'mksilo', '3']]


def alphabet(wd, d):
    out = []
    for op in ALPHA:
        if op[0] == 'conf' and op[1] == wd.conf:
            continue
        if op[0] == 'meta' and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        out.append(op)
    return out


def ranges(kind, mx, lo, hi, per=100, **kw):
    step = kw.get('step', 1)
    return [dict(kind=kind, max=mx, lo=i, hi=min(i + per * step, hi), **kw) for i in range(lo, hi, per * step)]


def check(ctx):
    ctx.beside(c01_huge, [dict(sizes=[2**32 + 5], store=1), dict(sizes=[2**32 + 5], opts=[['-z']]), dict(sizes=[2**32 + 5], raw=1, opts=[[]]), dict(sizes=[2**32 + 5], raw=1, opts=[['-z']])])
    ctx.bound('an object of 2^32 + 5 zeros: stored and got; and got plain and as gzip from archives made for it, one of them with a gzip member of more than 2^32 bytes')
    cases = []
    for k, q, t in (('r', 7000, 40000), ('h', 5000, 40000), ('w', 1500, 20000), ('m', 6000, 60000)):
        cases += ranges(k, '4k', 1, ctx.n(q, t))
        ctx.bound(f'every size 1..{ctx.n(q, t)} of {k} content in silos of 4k')
    cases += ranges('z', '4k', 1, ctx.n(600, 5000))
    cases += ranges('z', '4k', 2000000, ctx.n(2000400, 2004000), per=20)
    for lo, hi, kind in ctx.n([(60000, 60300, 'r')], [(60000, 70000, 'r'), (30000, 40000, 'h'), (30000, 40000, 'g')]):
        cases += ranges(kind, '15k', lo, hi)
    ctx.explore(c01_sizes, cases)
    uris = [6, 100, 200, *range(300, 420, ctx.n(20, 1)), 430]
    ctx.explore(c01_heads, [dict(bits=b, uri=[u], mime=m) for b in (64, 256) for u in uris for m in ([10, 100, 200, 300], [400, 500, 511, 512])])
    ctx.bound(f'headers with URIs from 22 to 494 characters and MIME types from 10 to 512, in one record and in segments')
    # large buffers: around the points where a segment is full
    cap = []
    for mx in ctx.n(['130k', '141k', '300k', '1.1m'], ['128k', '130k', '135k', '140k', '141k', '200k', '256k', '300k', '400k', '1m', '1.1m', '2.1m']):
        for k in ctx.n('rh', 'rhtm'):
            n = int(float(mx[:-1]) * (1024 if mx[-1] == 'k' else 1 << 20)) * (2 if k == 'r' else 5)
            cap.append(dict(kind=k, max=mx, n=n))
    cases = []
    for case, segs in sorted(ctx.explore(c01_capacity, cap), key=lambda x: str(x[0])):
        if not segs:
            continue
        first = segs[0]
        d = ctx.n(20 if first < 400000 else 6, 400 if first < 400000 else 100)
        cases += ranges(case['kind'], case['max'], max(1, first - d), first + d, per=10)
        if len(segs) > 1:
            two = first + segs[1]
            cases += ranges(case['kind'], case['max'], two - d // 2, two + d // 2, per=10)
        # and coarsely in between, where the flush mode changes on the way
        cases += ranges(case['kind'], case['max'], 1000, two if len(segs) > 1 else first, per=6, step=ctx.n(50021, 3001))
    ctx.explore(c01_sizes, cases)
    ctx.bound('in silos of 128k to 2.1M: sizes around one and two full segments, and in steps in between')
    ctx.explore(c01_max, [dict(spec=s, lo=i, hi=i + 50) for s in ctx.n(['r6000.q', 'h9000.q'], ['r6000.q', 'h9000.q', 'z500000', 'm20000.q', 'g20000.q'])
                          for i in range(1400, ctx.n(2600, 9000), 50)])
    ctx.bound('every silo.max_size from 1400 bytes up')
    far = sorted({(1 << b) + d for b in ctx.n((16, 24, 31, 32), range(12, 33)) for d in (-1, 0, 1)} | {5 << 30, (1 << 32) + 12345678})
    ctx.explore(c01_far, [dict(at=[x]) for x in far if x > 5000] + [dict(at=[100000, 1 << 24, 1 << 30, (1 << 31) - 100, (1 << 31) + 200000, (1 << 32) - 100000, (1 << 32) + 1000000, 5 << 30])])
    ctx.bound(f'objects at {len(far)} offsets up to 5 GB in a silo')
    big = ctx.n([('60m', 'r5000000.q'), ('60m', 'r17000000.q'), ('7m', 'r15000000.q')],
                [('60m', 'r5000000.q'), ('60m', 'r17000000.q'), ('60m', 'h40000000.q'), ('7m', 'r15000000.q'), ('18m', 'r40000000.q'), ('300m', 'r140000000.q')])
    ctx.explore(c01_big, [dict(max=m, spec=s) for m, s in big])
    ctx.bound('objects of ' + ', '.join(f'{s} with silos of {m}' for m, s in big))
    ctx.explore(c01_append, [dict(first=f, kind=k, max='4k', lo=i, hi=i + 100) for f in ctx.n(['r100.a', 'r1200.a'], ['r100.a', 'r600.a', 'r1200.a', 'h3000.a', 'r2700.a'])
                             for k in ctx.n('r', 'rhz') for i in range(1, 3200, 100)])
    # chunking
    cuts = []
    for spec, mx, top in ctx.n([('r9000.q', '4k', 9000), ('h150000.q', '15k', 131072)],
                               [('r9000.q', '4k', 9000), ('h150000.q', '15k', 131072), ('r300000.q', '200k', 131072), ('z300000', '4k', 131072)]):
        reads = dict((c['spec'], r) for c, r in ctx.explore(c01_cuts, [dict(spec=spec, max=mx)]))[spec]
        if not reads:
            ctx.bound(f'input of {spec} not cut: no reads of it are seen')
            continue
        first = reads[0]
        ns = sorted({1, 2, 3, 51, 52, 53, 100, 1000, 1441, 1442, 2881, 2882, 2883, 4000, 5764, 8999} if top < 10000
                    else {1, 2, 1000, 7000, 13999, 14000, 65535, 65536, 131071})
        if not ctx.quick:
            ns = sorted(set(ns) | set(range(1, top, 97 if top < 10000 else 1999)))
        for n1 in ns:
            cuts.append(dict(spec=spec, max=mx, cuts=[(first, n1)]))
        # a cut read is followed by reads whose place in the run is found by running
        two = []
        for n1 in ns[:ctx.n(16, 16)]:
            for n2 in ns[:16]:
                two.append(dict(spec=spec, max=mx, pair=[n1, n2]))
        ctx.explore(c01_cut2, two)
    ctx.explore(c01_cuts, cuts)
    ctx.bound('input cut at every one, and every two, of the listed places')
    H.bfs(ctx, alphabet, ctx.n(3, 5), limit=ctx.n(4000, 60000))


@family
def c01_far(w, case):
    """objects far into a silo: before them is a hole that no operation on them looks at"""
    a = w.arch('c01f', max_size='6g')
    a.reset()
    ref = a.must_store(gen('r100.a')).out.decode().strip()
    p = a.silo + '/0/00000000.warc.gz'
    a.srv.big = True
    objs = []
    try:
        for i, at in enumerate(case['at']):
            if os.stat(p).st_size > at:
                w.bad('order', f'{case}: the silo is already {os.stat(p).st_size} bytes')
                return
            os.truncate(p, at)
            what = f'at offset {at} of a silo'
            for c, meta in ((gen(f'r500.{i}'), 0), (gen(f'h90000.{i}'), 0), (gen(f't300.{i}'), 1)):
                r = a.meta(ref, c) if meta else a.store(c)
                w.count('transitions')
                if not r.ok():
                    w.bad('store-fails', f'{what}: store ends with {r.status()}: {r.err[-300:]!r}')
                    return
                objs.append((r.out.decode('latin-1').strip(), c, what))
            if i & 1:
                a.must('housekeeping')
            w.seen('states', ('far', at))
        for hk in (0, 1):
            for rid, c, what in objs:
                for m in ('', '-z', '-o'):
                    fetch(w, a, rid, c, what + ', housekept' * hk, m)
            if not hk:
                a.must('housekeeping')
    finally:
        a.srv.big = False
        a.reset()
    w.count('traces')


@family
def c01_big(w, case):
    """silo members whose compressed size takes more than 22, 24, ... bits"""
    a = w.arch('c01b', max_size=case['max'])
    a.reset()
    a.srv.big = True
    try:
        rids = []
        for s in ('r100.a', case['spec'], 'r100.b'):
            r = a.store(gen(s))
            w.count('transitions')
            if not r.ok():
                w.bad('store-fails', f'{case}: store of {s} ends with {r.status()}: {r.err[-300:]!r}')
                return
            rids.append((r.out.decode('latin-1').strip(), gen(s)))
        for hk in (0, 1):
            for rid, c in rids:
                for m in ('', '-z'):
                    fetch(w, a, rid, c, str(case) + ', housekept' * hk, m)
            if not hk:
                a.must('housekeeping')
        w.seen('states', ('big', str(case)))
    finally:
        a.srv.big = False
        a.reset()
    w.count('traces')


@family
def c01_heads(w, case):
    """objects with headers of every size: long URIs, long MIME types, segments"""
    a = w.arch('c01e', max_size='8k')
    for n in case['uri']:
        for m in case['mime']:
            w.case = dict(case, uri=[n], mime=[m])
            a.configure(max_size='8k', id_bits=case['bits'], prefix='x://' + 'p' * (n - 5) + '/')
            mime = 'text/' + 'x' * (m - 5)
            with open(a.confpath) as f:
                t = f.read()
            with open(a.confpath, 'w') as f:
                f.write(t.replace('\ttext/plain\n', '\ttext/plain\n\t' + mime + '\n'))
            a.reset()
            what = f'prefix of {n} characters, {case["bits"]} bit IDs, MIME type of {m}'
            rids = []
            for s, ref in (('r300.a', 0), ('r30000.b', 0), ('r100.c', 1), ('r31000.d', 1)):
                r = a.meta(rids[0][0], gen(s), mime=mime) if ref else a.store(gen(s), '-m', mime)
                w.count('transitions')
                if not r.ok():
                    w.bad('store-fails', f'{what}: store of {s} ends with {r.status()}: {r.err[-300:]!r}')
                    return
                rids.append((r.out.decode('latin-1').strip(), gen(s)))
            for rid, c in rids:
                for o in ('', '-z', '-o'):
                    fetch(w, a, rid, c, what, o)
            w.seen('states', what)
    w.count('traces')


def huge(w, a, rid, n, what, opts):
    for o in opts:
        r = big.stream(a, ['get', *o, a.prefix + rid], gunzip='-z' in o)
        w.count('transitions')
        if r.rc != 0 or r.n != n or not r.zeros:
            w.bad('huge', f'{what}: get {o} ends with {r.rc}, {r.n} of {n} bytes, {"all zeros" if r.zeros else "not all zeros"}: {r.err[-300:]!r}')


@family
def c01_huge(w, case):
    """objects of more than 4 GB"""
    a = w.arch('c01g', max_size='20m')
    a.reset()
    n = sum(case['sizes'])
    try:
        if case.get('store'):
            r = big.stream(a, ['store'], stdin=n, keep=1000)
            w.count('transitions')
            rid = big.sha_zeros(n)[:a.id_len]
            if r.rc != 0 or r.head.decode('latin-1') != a.prefix + rid + '\n':
                w.bad('huge-store', f'{case}: store ends with {r.rc}, {r.head!r}: {r.err[-300:]!r}')
                return
            recs = [h for h, _ in big.records(a) if h.get('warc-type') == 'resource']
            got = [(h.get('content-length'), h.get('warc-block-digest')) for h in recs]
            if got != [(str(n), 'sha256:' + big.sha_zeros(n))]:
                w.bad('huge-header', f'{case}: the record says {got}')
            huge(w, a, rid, n, str(case), ((), ))
        else:
            rid = big.archive(w, a, gen('z500'), case['sizes'], raw=case.get('raw'))
            huge(w, a, rid, n, str(case), case['opts'])
        w.seen('states', ('huge', str(case)))
    finally:
        a.reset()
    w.count('traces')


@family
def c01_cut2(w, case):
    a = w.arch('c01', max_size=case['max'])
    c = gen(case['spec'])
    n1, n2 = case['pair']
    faults = []
    for n in (n1, n2):
        a.reset()
        R = a.run([a.proc('store', stdin=c, faults=faults)], trace=2)
        reads = [s.op for s in R.trace if s.sc == 'read' and s.p1.startswith('/memfd:in') and s.op > (faults[-1][0] if faults else -1)]
        if not reads:
            return
        faults.append((reads[0], 'short', n))
    a.reset()
    r = a.store(c, faults=faults)
    w.count('transitions')
    w.seen('states', (case['spec'], case['max'], n1, n2))
    if not r.ok():
        w.bad('store-fails', f'{case}: store ends with {r.status()}: {r.err[-300:]!r}')
        return
    rid = r.out.decode('latin-1').strip()
    for m in ('', '-z'):
        fetch(w, a, rid, c, f'{case}', m)
