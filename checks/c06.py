"""C06: large objects are split and reassembled correctly."""
import itertools, os, zlib
from mc.core import family
from mc.gen import gen, sha
from mc import big, chain, warc, hist

LEVEL = 'model_checking'
ASSUMPTIONS = ['contents come from a fixed alphabet; sizes, silo sizes and histories are enumerated exhaustively within the stated bounds',
               'an object is held to fit in one silo if its bytes, 1/500 of them and 1300 more are within silo.max_size, and not to fit if what zlib makes of it at level 9 is not']


def parse_get_header(b):
    """the header get prints -> dict"""
    t = b.decode('latin-1')
    i = t.find('WARC/1.1\r\n')
    j = t.find('\r\n\r\n', i)
    if i < 0 or j < 0:
        return None
    h = {}
    for l in t[i:j].split('\r\n')[1:]:
        n, s, v = l.partition(': ')
        h[n.lower()] = v
    return h


def structure(w, what, v, content, typ, mx):
    """the records of one object"""
    os_ = [o for l in v.objs.values() for o in l if o.content == content and o.type == typ]
    if len(os_) != 1:
        w.bad('object-count', f'{what}: {len(os_)} complete objects with this content in the silos')
        return None
    o = os_[0]
    n = len(o.segs)
    if len({r.silo for r in o.segs}) != n:
        w.bad('same-silo', f'{what}: two segments in one silo')
    if n > 1:
        for i, r in enumerate(o.segs):
            if r.type != (typ if i == 0 else 'continuation'):
                w.bad('segment-type', f'{what}: segment {i + 1} is {r.type}')
            if r.get('WARC-Segment-Number') != str(i + 1):
                w.bad('segment-number', f'{what}: segment {i + 1} has number {r.get("WARC-Segment-Number")}')
            if (r.get('WARC-Segment-Total-Length') is not None) != (i == n - 1):
                w.bad('total-length', f'{what}: WARC-Segment-Total-Length {r.get("WARC-Segment-Total-Length")} on segment {i + 1} of {n}')
            if (r.get('WARC-Payload-Digest') is not None) != (i == 0):
                w.bad('payload-digest', f'{what}: WARC-Payload-Digest {r.get("WARC-Payload-Digest")} on segment {i + 1} of {n}')
            if (r.get('WARC-Segment-Origin-ID') is not None) != (i > 0):
                w.bad('origin', f'{what}: WARC-Segment-Origin-ID {r.get("WARC-Segment-Origin-ID")} on segment {i + 1} of {n}')
            if not r.body:
                w.bad('empty-segment', f'{what}: segment {i + 1} is empty')
        if len(content) + len(content) // 500 + 1300 <= mx:
            w.bad('split-needlessly', f'{what}: {n} segments for {len(content)} bytes in silos of {mx}')
    w.seen('segment_counts', n)
    return o


def fetch(w, a, what, rid, content, mime, typ):
    full = a.prefix + rid
    r = a.get(full)
    if not r.ok() or r.out != content:
        w.bad('get', f'{what}: get {rid}: {r.status()}, {len(r.out)} bytes, {r.err[-200:]!r}')
        return
    h = parse_get_header(r.err)
    if h is None:
        w.bad('get-header', f'{what}: get {rid} prints no header')
        return
    for k, x in (('content-length', str(len(content))), ('warc-block-digest', 'sha256:' + sha(content)), ('warc-record-id', f'<{full}>'), ('content-type', mime), ('warc-type', typ)):
        if h.get(k) != x:
            w.bad('get-' + k, f'{what}: get {rid} prints {k}: {h.get(k)}, not {x}')
    r = a.get(full, '-z', '-q')
    try:
        got, n = warc.gunzip_all(r.out)
    except warc.Bad as e:
        w.bad('get-z', f'{what}: get -z {rid}: {r.status()}: {e}')
        return
    if not r.ok() or got != content or n != 1:
        w.bad('get-z', f'{what}: get -z {rid}: {r.status()}, {len(got)} bytes in {n} streams')
    if r.err:
        w.bad('get-q', f'{what}: get -z -q {rid} prints {r.err[:200]!r}')


def nonobjects(w, a, what, v, objs):
    """segments and warcinfo records are not objects"""
    ids = sorted({r.rid for l in v.silos.values() for r in l if r.type in ('warcinfo', 'continuation')} - set(objs))
    for x in ids if len(ids) < 6 else ids[:3] + ids[-3:]:
        for m in ('-q', '-z'):
            r = a.get(a.prefix + x, m)
            w.count('transitions')
            if r.ok() or r.out or r.kind != 'exit':
                w.bad('segment-delivered', f'{what}: get {m} {x}, which is no object: {r.status()}, {len(r.out)} bytes {r.err[-200:]!r}')


@family
def c06_stitch(w, case):
    """get -z of objects in segments of every length around the size of the read buffer"""
    a = w.arch('c06s')
    for mx in range(case['lo'], case['hi'], case['step']):
        w.case = dict(case, lo=mx, hi=mx + 1)
        a.configure(max_size=str(mx))
        a.reset()
        s = f'{case["kind"]}{case["n"]}.x'
        c = gen(s)
        r = a.store(c)
        w.count('transitions')
        what = f'{s} in silos of {mx}'
        w.seen('states', what)
        if not r.ok():
            w.bad('store-fails', f'{what}: {r.status()} {r.err[-300:]!r}')
            continue
        fetch(w, a, what, hist.res_id(c, a.id_len), c, 'application/octet-stream', 'resource')
        v = warc.View(a.snap(), a)
        for o in v.objs.get(hist.res_id(c, a.id_len), ()):
            for g in o.segs:
                w.seen('mod128k', g.blen % 131072)
    w.sample(what)


@family
def c06_tail(w, case):
    """segments exactly as many bytes longer than the read buffers as the trailer has, aimed at by a trial"""
    a = w.arch('c06t')
    k, j = case['k'], case['seg']
    n, mx = case['n'], case['max']
    want = k * 131072

    def lengths(n, mx):
        a.configure(max_size=str(mx))
        a.reset()
        c = gen(f'r{n}.x')
        r = a.store(c)
        w.count('transitions')
        w.seen('states', (n, mx))
        if not r.ok():
            w.bad('store-fails', f'r{n}.x in silos of {mx}: {r.status()} {r.err[-300:]!r}')
            return c, None
        o = warc.View(a.snap(), a).objs.get(hist.res_id(c, a.id_len), ())
        return c, [g.blen for x in o for g in x.segs]
    c, l = lengths(n, mx)
    if not l or len(l) < 2:
        return
    off = want - l[j]
    for t in range(-1, 15):
        if abs(off) > 20000:
            break
        for _ in range(3):  # the header lines grow with the numbers in them
            m = (n + off + t, mx) if j == -1 else (n, mx + off + t)
            w.case = dict(case)
            c, l = lengths(*m)
            if not l or l[j] == want + t:
                break
            off += want + t - l[j]
        if not l or abs(off) > 20000:
            break
        w.seen('tails', (k, j, l[j] - want))
        fetch(w, a, f'r{m[0]}.x in silos of {m[1]}', hist.res_id(c, a.id_len), c, 'application/octet-stream', 'resource')
    w.sample(f'r{m[0]}.x in silos of {m[1]}: segments of {l}')


@family
def c06_runs(w, case):
    """incompressible data followed by (or between) long runs: segments whose lengths have very different numbers of digits"""
    a = w.arch('c06r')
    mx = case['max']
    a.configure(max_size=str(mx))
    for p in case['pre']:
        for z in case['runs']:
            w.case = dict(case, pre=[p], runs=[z])
            a.reset()
            s = {'rz': f'r{p}.x+z{z}', 'zr': f'z{z}+r{p}.x', 'rzr': f'r{p}.x+z{z}+r{p}.y'}[case['order']] if p else f'z{z}'
            c = gen(s)
            what = f'{s} in silos of {mx}'
            r = a.store(c)
            w.count('transitions')
            w.seen('states', what)
            if not r.ok():
                w.bad('store-fails', f'{what}: {r.status()} {r.err[-300:]!r}')
                continue
            v = warc.View(a.snap(), a)
            if v.problems or v.orphans:
                w.bad('records', f'{what}: {v.problems[:1]} {len(v.orphans)} orphans')
                continue
            o = structure(w, what, v, c, 'resource', mx)
            if o is not None:
                fetch(w, a, what, o.rid, c, 'application/octet-stream', 'resource')
    w.sample(what)


@family
def c06_sizes(w, case):
    a = w.arch('c06')
    a.configure(max_size=case['max'], id_bits=case.get('bits', 128))
    mx = hist.max_bytes(case['max'])
    a.reset()
    base = a.snap()
    if case.get('first'):
        a.must_store(gen(case['first']))
        base = a.snap()
    for n in range(case['lo'], case['hi'], case.get('step', 1)):
        w.case = dict(case, lo=n, hi=n + 1)
        a.restore(base)
        s = f'{case["kind"]}{n}' + ('' if case['kind'] == 'z' else '.x')
        c = gen(s)
        what = f'{s} in silos of {case["max"]}' + (f' after {case["first"]}' if case.get('first') else '')
        if case.get('meta'):
            r = a.meta(a.prefix + hist.res_id(gen(case['first']), a.id_len), c)
            typ, mime = 'metadata', 'text/plain'
        else:
            r = a.store(c)
            typ, mime = 'resource', 'application/octet-stream'
        w.count('transitions')
        w.seen('states', (case['max'], case.get('bits'), case.get('first'), case.get('meta'), s))
        if not r.ok():
            w.bad('store-fails', f'{what}: {r.status()} {r.err[-300:]!r}')
            continue
        v = warc.View(a.snap(), a)
        if v.problems or v.orphans:
            w.bad('records', f'{what}: {v.problems[:1]} {len(v.orphans)} orphans')
            continue
        o = structure(w, what, v, c, typ, mx)
        if o is None:
            continue
        if len(o.segs) == 1 and len(zlib.compress(c, 9)) > mx:
            w.bad('not-split', f'{what}: one record')
        fetch(w, a, what, o.rid, c, mime, typ)
        if len(o.segs) > 1:
            nonobjects(w, a, what, v, v.objs)
            if case.get('reread'):
                a.must('housekeeping')
                fetch(w, a, what + ', after housekeeping', o.rid, c, mime, typ)
    w.sample(what)


def segments(w, a, mx, specs):
    """bodies of the segments of each of these, stored alone in silos of this size"""
    out = []
    for s in specs:
        a.configure(max_size=mx)
        a.reset()
        a.must_store(gen(s))
        v = warc.View(a.snap(), a)
        out.append([g.body for g in v.objs[hist.res_id(gen(s), a.id_len)][0].segs])
    return out


@family
def c06_twosize(w, case):
    """segments of one object stored as objects, themselves in segments, with another silo.max_size; in every order"""
    a = w.arch('c06t')
    segs = segments(w, a, case['max'], [case['spec']])[0]
    whole = gen(case['spec'])
    todo = [('whole', whole, case['max'])] + [(f'segment {i + 1}', b, case['small']) for i, b in enumerate(segs[:case['n']])]
    what = f'{case}'
    a.reset()
    done = []
    for j, i in enumerate(case['perm']):
        name, c, mx = todo[i]
        a.configure(max_size=mx)
        r = a.store(c)
        w.count('transitions')
        if not r.ok():
            w.bad('store-fails', f'{what}: {name}: {r.status()} {r.err[-300:]!r}')
            return
        if case['hk'] >> j & 1:
            a.must('housekeeping')
        done.append((name, c))
        w.seen('states', (case['spec'], tuple(case['perm'][:j + 1]), case['hk'] & (2 << j) - 1, case['small']))
        for name, c in done:
            fetch(w, a, f'{what}: {name} after {j + 1} steps', hist.res_id(c, a.id_len), c, 'application/octet-stream', 'resource')
    v = warc.View(a.snap(), a)
    nonobjects(w, a, what, v, v.objs)
    w.count('traces')


@family
def c06_sameid(w, case):
    """metadata in segments whose IDs agree in many digits, and which share segments at different places"""
    a = w.arch('c06i', max_size='4k')
    s1, s2, s3 = (len(x) for x in segments(w, a, '4k', ['r8000.a'])[0])
    A, B, S, T = (gen(f'r{s2 - 40}.{x}') for x in 'abcd')       # each fills a silo, nearly: the headers of metadata are longer
    a.configure(max_size='4k')
    ids = [('ab' * 16)[:case['digits']] + sha(b'%d' % i)[:32 - case['digits']] for i in range(2)]
    a.reset()
    ref = a.must_store(gen('r300.ref')).out.decode().strip()
    for no in range(3):
        p = a.silo + '/' + warc.silo_path(no)
        if os.path.exists(p):
            os.chmod(p, 0o440)
    base = a.snap()

    def put(rid, c):
        r = a.meta(ref, c, '-i', rid)
        w.count('transitions')
        if not r.ok():
            w.bad('store-fails', f'{case}: {r.status()} {r.err[-300:]!r}')
            return None
        for b, _, fs in os.walk(a.silo):
            for f in fs:
                if f.endswith('.gz'):
                    os.chmod(os.path.join(b, f), 0o440)
        v = warc.View(a.snap(), a, dups_ok=True)
        return [g.body for g in v.objs[rid][0].segs] if rid in v.objs else []
    # where the second segment of a long one begins and ends
    g = put(ids[0], A + B + S + T)
    if not g or len(g) < 4:
        w.bad('segments', f'{case}: {g and [len(x) for x in g]}')
        return
    a.restore(base)
    n1, n2 = len(g[0]), len(g[1])
    one, two, three = gen(f'r{n1}.1'), gen(f'r{n1 + n2}.2'), gen(f'r{n1 + n2}.3')
    X = gen(f'r{n2}.X')
    pairs = {'tail': (one + X[:n2 - 200], two + X[:n2 - 200]), 'middle': (one + X + gen('r500.t'), two + X + gen('r500.u')), 'samepos': (one + X + gen('r700.t'), gen(f'r{n1}.4') + X + gen('r700.u')), 'samelast': (one + X, gen(f'r{n1}.4') + X + gen('r700.u')), 'lastmid': (one + X, two + X + gen('r900.v'))}
    cs = pairs[case['pair']]
    objs = list(zip(ids, cs))
    if case['swap']:
        objs.reverse()
    shared = set()
    for j, (rid, c) in enumerate(objs):
        g = put(rid, c)
        if not g:
            w.bad('segments', f'{case}: {rid} is not there in segments')
            return
        shared = shared & set(g) if j else set(g)
        if case['hk'] >> j & 1:
            a.must('housekeeping')
        for rid, c in objs[:j + 1]:
            fetch(w, a, f'{case}: {rid} after {j + 1} steps', rid, c, 'text/plain', 'metadata')
    w.seen('states', str(case))
    w.count('traces')
    return len(shared)


def step(w, h, w0, op, r, w1):
    hist.step_ack(w, h, w0, op, r, w1)


def state(w, h, wd, a):
    v = warc.View(wd.snap, a)
    what = f'after {wd.path}'
    if v.problems or v.orphans:
        w.bad('records', f'{what}: {v.problems[:1]} {len(v.orphans)} orphan segments')
        return
    for rid, o in wd.objs.items():
        s = structure(w, what, v, o['content'], o['type'], hist.max_bytes(h.confs[wd.conf]['max_size']))
        if s is not None:
            fetch(w, a, what, rid, o['content'], s.mime, o['type'])
    nonobjects(w, a, what, v, wd.objs)


H = hist.make('c06h', confs=({'max_size': '4k'},), step=step, state=state)


class _A:
    prefix, id_len, kw = 'file://ex/', 32, {}


ALPHA = [['store', 'r7000.d'], ['store', 'r9000.d'], ['store', 'r2882.d'], ['store', 'r3500.f'], ['store', 'r100.a'], ['meta', 'r7000.d', 'r7000.d'], ['meta', 'r7000.d', 'r4000.n'], ['hk'], ['run', 'mksilo', '1']]


def alphabet(wd, d):
    out = [['store', s] for s in hist.collisions(wd, _A)]
    for op in ALPHA:
        if op[0] == 'meta' and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'run' and '0/00000001.warc.gz' in wd.snap.files:
            continue
        out.append(op)
    return out


def zalphabet(wd, d):
    return [['store', 'z12000000']] if d == 0 else [['hk']] + [['store', s] for s in hist.collisions(wd, _A)[::9][:8] + ['[0:231000]z12000000']]


Z = hist.make('c06z', confs=({'max_size': '4k'},), step=step, state=state)


def rng(lo, hi, per=40, **kw):
    st = kw.get('step', 1)
    return [dict(lo=i, hi=min(i + per * st, hi), **kw) for i in range(lo, hi, per * st)]


@family
def c06_chain(w, case):
    """objects in very many segments"""
    a = w.arch('c06n', max_size=str(chain.MAX))
    s = chain.make(w, a, case['n'], case['first'])
    c = gen(s)
    what = f'{s} in silos of {chain.MAX}' + (f' from {case["first"]} on' if case['first'] else '')
    r = a.store(c)
    w.count('transitions')
    w.seen('states', (what, case['n']))
    if not r.ok():
        w.bad('store-fails', f'{what}: {r.status()} {r.err[-300:]!r}')
        return
    v = warc.View(a.snap(), a)
    if v.problems or v.orphans:
        w.bad('records', f'{what}: {v.problems[:1]} {len(v.orphans)} orphans')
        return
    o = structure(w, what, v, c, 'resource', chain.MAX)
    if o is None:
        return
    for i in (0, 1):
        fetch(w, a, what + ', housekept' * i, o.rid, c, 'application/octet-stream', 'resource')
        nonobjects(w, a, what, v, v.objs)
        a.must('housekeeping')
    w.count('traces')
    return len(o.segs)


@family
def c06_huge(w, case):
    """segments which together are of more than 4 GB"""
    a = w.arch('c06g', max_size='4k')
    a.reset()
    n = sum(case['sizes'])
    try:
        rid = big.archive(w, a, gen(case['spec']), case['sizes'], raw=case['raw'])
        r = big.stream(a, ['get', *case['opt'], a.prefix + rid], gunzip=bool(case['opt']))
        w.count('transitions')
        if r.rc != 0 or r.n != n or not r.zeros:
            w.bad('huge', f'{case}: get ends with {r.rc}, {r.n} of {n} bytes, {"all" if r.zeros else "not all"} zeros: {r.err[-300:]!r}')
        w.seen('states', ('huge', str(case)))
    finally:
        a.reset()
    w.count('traces')


def check(ctx):
    ctx.beside(c06_huge, [dict(spec='r7000.d', sizes=z, opt=o, raw=r) for z, o, r in (([2**31 + 5, 2**31 + 7, 11], [], 0), ([17, 2**32 + 7, 11], ['-z'], 1))])
    ctx.bound('three segments of 2^31 + 5, 2^31 + 7 and 11 zeros, got plain, and of 17, 2^32 + 7 and 11 in uncompressed gzip, got as gzip')
    cases = []
    cases += rng(1, ctx.n(3200, 30000), kind='r', max='4k', reread=1)
    cases += rng(5700, ctx.n(5860, 5860), kind='r', max='4k')
    cases += rng(8500, ctx.n(8700, 8700), kind='r', max='4k')
    cases += rng(4600, ctx.n(5600, 30000), kind='h', max='4k')
    cases += rng(1, 30000, per=10, kind='m', max='4k', step=ctx.n(53, 5))
    cases += rng(1, 1500000, per=3, kind='z', max='4k', step=ctx.n(30011, 3001))
    cases += rng(1, 60000, per=5, kind='t', max='4k', step=ctx.n(307, 31))
    cases += rng(2300, 3300, kind='r', max='4k', first='r300.a', meta=1, step=ctx.n(3, 1))
    cases += rng(2000, 6000, kind='r', max='6k', bits=256, step=ctx.n(7, 1))
    cases += rng(13500, 14400, kind='r', max='15k', step=ctx.n(5, 1))
    for mx, lo, hi, st in (('130k', 131000, 134000, 41), ('140k', 140500, 143500, 31), ('300k', 300000, 308000, 211), ('1.1m', 1150000, 1156000, 977)):
        cases += rng(lo, hi, per=3, kind='r', max=mx, step=ctx.n(st, max(1, st // 20)))
    ctx.explore(c06_sizes, cases)
    # compressed segments a few bytes longer than 1, 2 or 3 times the 128k read buffer; first and last segments
    stitch = []
    for k in range(1, ctx.n(3, 6)):
        stitch += [dict(lo=i, hi=i + 60, step=ctx.n(6, 1), kind='r', n=k * 131072 + 170000) for i in range(k * 131072 + 400, k * 131072 + 1600, 60)]
    for k in (1, 2):
        stitch += [dict(lo=200000 + i, hi=200000 + i + 60, step=ctx.n(6, 1), kind='r', n=k * 131072 + 200000 - 600) for i in range(0, 600, 60)]
    ctx.explore(c06_stitch, stitch)
    tails = [dict(k=k, seg=j, n=k * 300000 + 20000, max=k * 131072 + 1000) for k in ctx.n((1, 2), (1, 2, 3, 4, 5)) for j in (0, 1)]
    tails += [dict(k=k, seg=-1, n=k * 262144, max=k * 131072 + 4000) for k in ctx.n((1,), (1, 2, 3))]
    if not ctx.quick:
        tails += [dict(k=129, seg=j, n=129 * 262144 - 100000 * (j == 0), max=129 * 131072 + 4000) for j in (0,)]
    ctx.explore(c06_tail, tails)
    two = []
    for spec, mx, small, n in (('r9000.d', '4k', '3k', 2), ('r9000.d', '4k', '2k', 3), ('r7000.e', '3k', '1500', 2)):
        for perm in itertools.permutations(range(n + 1)):
            two += [dict(spec=spec, max=mx, small=small, n=n, perm=list(perm), hk=hk) for hk in range(1 << n + 1)]
    ctx.explore(c06_twosize, two)
    same = [dict(digits=d, pair=p, swap=s, hk=hk) for d in (0, 7, 8, 16, 23, 24, 31) for p in ('tail', 'middle', 'samepos', 'samelast', 'lastmid') for s in (0, 1) for hk in range(4)]
    n = [n for _, n in ctx.explore(c06_sameid, same)]
    ctx.bound(f'{len(two)} orders of storing an object and its segments, those in segments of their own; {len(same)} pairs of metadata with shared segments and IDs that agree in up to 31 digits ({sum(map(bool, n))} of them do share one)')
    runs = []
    near = [n for k in range(4, 8) for n in (10 ** k - 20000, 10 ** k - 100, 10 ** k + 100, 2 * 10 ** k, 5 * 10 ** k) if 0 < n <= ctx.n(3000000, 20000000)]
    for mx in ctx.n((1600, 3000, 9999, 12000, 16000), (1500, 1600, 2000, 3000, 6000, 9999, 10000, 12000, 16000, 30000)):
        for pre in range(mx // 4, mx * 5 // 2, max(100, mx // ctx.n(8, 40))):
            for order in ('rz', 'zr', 'rzr'):
                runs.append(dict(max=mx, order=order, pre=[pre], runs=near if order == 'rz' else near[::3]))
    for mx in (50000, 98000, 99999):
        runs += [dict(max=mx, order='rz', pre=[pre], runs=[10000000 - pre // 2, 11000000]) for pre in range(mx * 3 // 4, mx * 9 // 4, mx // ctx.n(4, 16))]
        runs += [dict(max=mx, order='rz', pre=[0], runs=[n]) for n in ctx.n((115000000,) if mx == 98000 else (), (98000000, 101000000, 105000000, 115000000, 150000000))]
    ctx.explore(c06_runs, runs)
    ctx.bound('runs of equal bytes crossing each power of ten up to %d, before and after incompressible stretches of every multiple of max_size/%d' % (max(near), ctx.n(8, 40)))
    ctx.bound('get -z for silo sizes in steps of %d over windows where the segments pass multiples of 128 KiB' % ctx.n(6, 1))
    ctx.bound('every size around one, two and three segments in silos of 4k; other contents, silo and ID sizes in steps')
    got = ctx.explore(c06_chain, chain.cases(ctx))
    ctx.bound(f'objects in {len({n for _, n in got})} numbers of segments up to {max([n or 0 for _, n in got] + [0])}')
    H.bfs(ctx, alphabet, ctx.n(3, 5), limit=ctx.n(3000, 30000))
    Z.bfs(ctx, zalphabet, ctx.n(2, 3))
