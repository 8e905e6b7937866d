"""C04: silos are always well-formed WARC 1.1 files."""
import calendar, datetime, re
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist

LEVEL = 'model_checking'
ASSUMPTIONS = ['contents come from a fixed alphabet; sizes, silo sizes, sequences and histories are enumerated exhaustively within the stated bounds',
               'the reader of WARC and gzip in mc/warc.py (Python zlib and hashlib) is right']


def look(w, a, what, mx=None):
    """everything under silo.directory is as it should be after an operation that completed"""
    s = a.snap()
    v = warc.View(s, a, max_size=mx or hist.max_bytes(a.kw.get('max_size', '15k')))
    for p in v.problems[:2]:
        w.bad('silo:' + re.sub(r'[0-9@]+', '', p)[:40].strip().replace(' ', '-'), f'{what}: {p}')
    for l in v.silos.values():
        for r in l:
            if r.version != 'WARC/1.1':
                w.bad('version', f'{what}: silo {r.silo} @{r.off}: a {r.version} record')
    if v.orphans:
        r = v.orphans[0]
        w.bad('orphan', f'{what}: silo {r.silo} @{r.off} holds a segment of an object that is not complete')
    for f in s.files:
        if f.endswith('.hold') or f.startswith('index.tmp') or f not in ('_.cache', 'index.appendix', 'index.sorted', 'index.housekeep') and not f.endswith('.gz'):
            w.bad('stray', f'{what}: {f} is left behind')
    try:
        have = warc.index_set(s)
    except warc.Bad as e:
        w.bad('index', f'{what}: {e}')
    w.count('transitions')
    return v


def store(w, a, spec, what, meta=None, **kw):
    r = a.meta(meta, gen(spec)) if meta else a.store(gen(spec), **kw)
    if not r.ok():
        w.bad('store-fails', f'{what}: store {spec} ends with {r.status()}: {r.err[-300:]!r}')
    return r


@family
def c04_sizes(w, case):
    a = w.arch('c04', max_size=case['max'])
    ref = None
    if case.get('first'):
        a.must_store(gen(case['first']))
        ref = a.prefix + hist.res_id(gen(case['first'])) if case.get('meta') else None
    base = a.snap()
    for n in range(case['lo'], case['hi'], case.get('step', 1)):
        w.case = dict(case, lo=n, hi=n + 1)
        a.restore(base)
        s = f'{case["kind"]}{n}' + ('' if case['kind'] == 'z' else '.x')
        what = f'{case.get("first", "nothing")}, then {"metadata " if ref else ""}{s} in silos of {case["max"]}'
        store(w, a, s, what, ref)
        v = look(w, a, what)
        w.seen('states', (case['max'], case.get('first'), bool(ref), s))
        c = gen(s)
        n_ = sum(1 for l in v.objs.values() for o in l if o.content == c)
        if n_ != 1:
            w.bad('object-count', f'{what}: {n_} complete records of it in the silos')
    w.sample(what)


@family
def c04_fill(w, case):
    """The same size again and again: fills silos to the brim"""
    a = w.arch('c04f', max_size=case['max'])
    for n in range(case['lo'], case['hi'], case.get('step', 1)):
        w.case = dict(case, lo=n, hi=n + 1)
        a.reset()
        for i in range(case['times']):
            what = f'{i + 1} times {case["kind"]}{n} in silos of {case["max"]}'
            store(w, a, f'{case["kind"]}{n}.{i}', what)
        v = look(w, a, what)
        w.seen('states', (case['max'], case['kind'], n))
        if sum(len(l) for l in v.objs.values()) != case['times'] and not v.problems:
            if len({gen(f'{case["kind"]}{n}.{i}') for i in range(case['times'])}) == case['times']:
                w.bad('object-count', f'{what}: {sum(len(l) for l in v.objs.values())} objects in the silos')


@family
def c04_max(w, case):
    a = w.arch('c04m')
    for n in range(case['lo'], case['hi']):
        w.case = dict(case, lo=n, hi=n + 1)
        a.configure(max_size=str(n), prefix=case.get('prefix', 'file://ex/'), id_bits=case.get('bits', 128))
        a.reset()
        for s in case['specs']:
            what = f'{s} in silos of {n} bytes'
            store(w, a, s, what)
        look(w, a, what, n)
        w.seen('states', (case['specs'], n))


@family
def c04_date(w, case):
    """WARC-Date is the time of writing, in UTC, wherever the archive is"""
    a = w.arch('c04t', max_size='4k')
    for t in case['times']:
        for tz in case['tz']:
            w.case = dict(case, times=[t], tz=[tz])
            env = [f'MC_TIME={t}', f'TZ={tz}']
            a.reset()
            what = f'at {t} s, TZ={tz}'
            for op in (['store'], ['store', '-t', 'metadata', '-m', 'text/plain', '-r', a.prefix + hist.res_id(gen('r5000.x'))], ['mksilo', '7']):
                r = a.op(*op, stdin=gen('r5000.x'), env=env)
                if not r.ok():
                    w.bad('date-fails', f'{what}: {op} ends with {r.status()}: {r.err[-300:]!r}')
            v = look(w, a, what)
            want = (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y-%m-%dT%H:%M:%SZ')
            got = {rec.get('WARC-Date') for l in v.silos.values() for rec in l}
            w.seen('states', (t, tz))
            if got != {want}:
                w.bad('date', f'{what}: WARC-Date {sorted(got)}, the time is {want}')
                return
    w.count('traces')


@family
def c04_mime(w, case):
    """Headers of every length"""
    a = w.arch('c04h')
    for k in range(case['lo'], case['hi']):
        w.case = dict(case, lo=k, hi=k + 1)
        m = 'a/' + 'b' * k
        a.configure(max_size='6k', prefix=case['prefix'], id_bits=case['bits'],
                    extra='warcinfo.body2:\n\tx:\ty\n\n')
        with open(a.confpath) as f:
            t = f.read()
        with open(a.confpath, 'w') as f:
            f.write(t.replace('text/plain', m))
        a.reset()
        what = f'MIME type of {k + 2} characters, {case["bits"]} bit IDs, prefix of {len(case["prefix"])}'
        for s in ('r500.a', 'r9000.b', 'r600.c'):
            store(w, a, s, what) if s == 'r500.a' else None
            r = a.store(gen(s), '-m', m)
            if not r.ok():
                w.bad('store-fails', f'{what}: store {s} ends with {r.status()}: {r.err[-300:]!r}')
        v = look(w, a, what, 6144)
        w.seen('states', (case['bits'], len(case['prefix']), k))
        for l in v.silos.values():
            for rec in l:
                if rec.type == 'resource' and rec.body not in (gen('r500.a'),) and rec.get('Content-Type') != m:
                    w.bad('content-type', f'{what}: Content-Type {rec.get("Content-Type")}')


def step(w, h, w0, op, r, w1):
    hist.step_ack(w, h, w0, op, r, w1)
    a = h.arch(w, w1.conf)
    a.restore(w1.snap)
    v = look(w, a, f'after {w1.path}', max(hist.max_bytes(c['max_size']) for c in h.confs))
    # a silo over the limit now in force may not have grown
    for rel, (m, g, d) in w1.snap.files.items():
        if rel.endswith('.gz') and len(d) > hist.max_bytes(a.kw['max_size']) and (rel not in w0.snap.files or len(d) > len(w0.snap.files[rel][2])):
            w.bad('over-max', f'after {w1.path}: {rel} grew to {len(d)} bytes with silo.max_size {a.kw["max_size"]}')
    if r is not None and op[0] == 'run' and op[1] == 'mksilo':
        no = int(op[2])
        was = warc.silo_path(no) in w0.snap.files
        if r.ok() == was:
            w.bad('mksilo', f'after {w0.path}: mksilo {no} ends with {r.status()}')
        if r.ok() and (no not in v.silos or len(v.silos[no]) != 1):
            w.bad('mksilo', f'after {w1.path}: silo {no} is not there or not empty')
    if op[0] == 'conf' or v.problems:
        return
    have = sorted((o.rid, o.type, sha(o.content)) for l in v.objs.values() for o in l)
    want = sorted((k, o['type'], sha(o['content'])) for k, o in w1.objs.items())
    if have != want:
        w.bad('objects', f'after {w1.path}: the silos hold {len(have)} objects, {len(want)} were stored')
    # what a record says of itself
    for l in v.objs.values():
        for o in l:
            if o.mime not in ('application/octet-stream', 'text/plain'):
                w.bad('content-type', f'after {w1.path}: {o.rid} has Content-Type {o.mime}')
            if o.type == 'metadata' and o.ref != w1.objs[o.rid]['ref']:
                w.bad('refers-to', f'after {w1.path}: {o.rid} refers to {o.ref}, not {w1.objs[o.rid]["ref"]}')
    if warc.index_set(w1.snap) != v.expected_index():
        x, y = warc.index_set(w1.snap), v.expected_index()
        w.bad('index-entries', f'after {w1.path}: index lacks {sorted(y - x)[:2]}, has too much {sorted(x - y)[:2]}')


H = hist.make('c04h', confs=({'max_size': '4k'}, {'max_size': '9k'}), step=step)
ALPHA = [['store', 'r100.a'], ['store', 'r1400.b'], ['store', 'r2700.c'], ['store', 'r7000.d'], ['store', 'h5000.e'],
         ['meta', 'r100.a', 'r60.m'], ['meta', 'r7000.d', 'r4000.n'], ['hk'], ['conf', 1], ['conf', 0], ['run', 'mksilo', '1'], ['run', 'mksilo', '0'], ['ro', 0], ['rm', '_.cache']]


def alphabet(wd, d):
    out = []
    for op in ALPHA:
        if op[0] == 'conf' and (op[1] == wd.conf or wd.path and wd.path[-1][0] == 'conf'):
            continue
        if op[0] == 'meta' and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'rm' and op[1] not in wd.snap.files or op[0] == 'ro' and warc.silo_path(op[1]) not in wd.snap.files:
            continue
        out.append(op)
    return out


def rng(lo, hi, per=60, **kw):
    st = kw.get('step', 1)
    return [dict(lo=i, hi=min(i + per * st, hi), **kw) for i in range(lo, hi, per * st)]


def check(ctx):
    cases = []
    for k, q, t in (('r', 6200, 30000), ('h', 3000, 30000), ('w', 600, 10000), ('m', 3000, 40000)):
        cases += rng(1, ctx.n(q, t), kind=k, max='4k')
    cases += rng(1, 3200, kind='r', max='4k', first='r100.a')
    cases += rng(1, 3200, kind='r', max='4k', first='r700.a', meta=1)
    cases += rng(5600, 5900, kind='r', max='4k', first='r700.a', meta=1)
    cases += rng(20000, ctx.n(30000, 60000), per=8, kind='r', max='20k', first='r5000.a', step=ctx.n(61, 7))
    cases += rng(100000, ctx.n(140000, 500000), per=4, kind='r', max='140k', first='r5000.a', step=ctx.n(997, 97))
    for k, mx, lo, hi in (('r', '130k', 130000, 420000), ('h', '130k', 200000, 800000), ('r', '141k', 270000, 450000), ('r', '300k', 290000, 1000000), ('t', '1100k', 500000, 9000000)):
        cases += rng(lo, hi, per=4, kind=k, max=mx, first='r100.a', step=(hi - lo) // ctx.n(24, 400))
    cases += rng(1000, 2000000, per=4, kind='z', max='4k', step=ctx.n(100003, 5003))
    ctx.explore(c04_sizes, cases)
    ctx.bound('fresh, appended and metadata: every size 1..3000 and more in silos of 4k; sizes up to 2 MB in steps')
    cases = []
    for k in 'rh':
        cases += rng(1, 2900, per=12, kind=k, max='4k', times=ctx.n(5, 12), step=ctx.n(5, 1))
    cases += rng(1, 700, per=4, kind='r', max='9k', times=ctx.n(16, 30), step=ctx.n(23, 5))
    ctx.explore(c04_fill, cases)
    ctx.bound('silos filled with objects of one size, for many sizes')
    ctx.explore(c04_max, [dict(lo=i, hi=i + 20, specs=sp) for sp in (['r6000.q', 'r200.x', 'r250.y'], ['z300000'], ['h300.a', 'h9000.q', 'h301.c']) for i in range(1400, ctx.n(2000, 9000), 20)]
                + [dict(lo=i, hi=i + 20, specs=['r6000.q', 'r200.x', 'h9000.y'], bits=256, prefix='file://' + 'p' * 60 + '/') for i in range(2200, ctx.n(2500, 6000), 20)])
    ctx.bound('every silo.max_size from 1400 bytes up')
    day = 86400
    times = {calendar.timegm((y, m, d, 0, 0, 0)) + x for y in ctx.n((1970, 1999, 2000, 2024, 2026, 2100, 2999), (*range(1970, 2110), 2399, 2400, 9998)) for m, d in ((1, 1), (1, 3), (1, 4), (3, 1), (7, 1), (12, 29), (12, 31)) for x in ctx.n((-1, 0), (-1, 0, 1, 43200))}
    times |= {(1 << b) + d for b in (30, 31, 32, 33) for d in (-1, 0, 1)}
    times = sorted(t for t in times if t > 0)
    tzs = ['UTC', 'Asia/Kolkata', 'EST5EDT', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'XXX+11:30']
    ctx.explore(c04_date, [dict(times=times[i:i + 4], tz=tzs) for i in range(0, len(times), 4)])
    ctx.bound(f'{len(times)} times from 1970 on, in {len(tzs)} time zones')
    ctx.explore(c04_mime, [dict(lo=i, hi=i + 10, bits=b, prefix=p) for b in (64, 128, 256) for p in ('file://ex/', 'file://' + 'x' * 200 + '/') for i in range(1, ctx.n(121, 400), 10)])
    ctx.bound('headers of every length')
    H.bfs(ctx, alphabet, ctx.n(5, 7), limit=ctx.n(6000, 60000))
