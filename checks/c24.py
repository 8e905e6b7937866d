"""C24: byid, get and info tell what is in the archive."""
import itertools, json, os
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: in every archive reached by breadth-first search over operation histories byid is asked for every prefix of every ID and its neighbours, and get and info run with every combination of options; the answers are judged against an independent reader of the silos and the index'
NOTE = 'Every archive of depth 3 (4) over stores of every kind, metadata, housekeeping, reindex and mksilo, for several ID lengths; every fragment length of every ID in several spellings; every combination of get\'s options; more than 255 entries; every operation with -j. Long headers (prefix, MIME type) around the buffers in between.'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories are enumerated exhaustively to the stated depth', 'the order of byid\'s lines is not specified; byid of an entry whose silo is missing or damaged is a matter of C15']


def lines(r):
    return ['WARC/1.1'] + [f'{n}: {r.hdr[n.lower()]}' for n in r.names]


def entries(snap, v):
    """index entries with the line byid owes for each"""
    at = {(r.silo, r.off): r for l in v.silos.values() for r in l}
    return [(k, f'id {at[s, o].rid} wt {at[s, o].type}') for l in warc.read_index(snap).values() for k, f, s, o, c in l]


def fragments(v, a):
    ids = sorted({r.rid for l in v.silos.values() for r in l})
    near = set()
    for i in ids:
        for l in (1, 2, 3, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, a.id_len):
            p = i[:l]
            near.add(p)
            near.add('%0*x' % (len(p), (int(p, 16) + 1) % 16 ** len(p)))
    return ids, [''] + sorted(near)


def ask(w, a, ents, args, opts, what):
    want = sorted(l for x in args for k, l in ents if k.startswith(frag(a, x)))
    r = a.op('byid', *opts, *args)
    w.count('transitions')
    got = sorted(r.out.decode('latin-1').splitlines())
    if got != want:
        w.bad('byid', f'{what}: byid {args} prints {got[:6]}… ({len(got)} lines), not {want[:6]}… ({len(want)})')
    code = 0 if '-e' in opts else min(len(want), 255)
    if (r.kind, r.code) != ('exit', code):
        w.bad('byid-status', f'{what}: byid {list(opts)} {args} finds {len(want)} entries and ends with {r.status()} {r.err[-200:]!r}')


def frag(a, x):
    return (x[len(a.prefix):] if x.lower().startswith(a.prefix.lower()) else x).lower()[:24]


def show(w, a, rid, o, what, combos):
    """get with options"""
    hdr = lines(o.segs[0])
    if len(o.segs) > 1:
        f, l = o.segs[0], o.segs[-1]
        new = {'Content-Length': l.get('WARC-Segment-Total-Length'), 'WARC-Block-Digest': f.get('WARC-Payload-Digest')}
        hdr = [f'{x.split(": ")[0]}: {new[x.split(": ")[0]]}' if x.split(': ')[0] in new else x for x in hdr]
    for opts, of in combos:
        out = a.dir + '/out'
        if os.path.exists(out):
            os.unlink(out)
        r = a.op('get', *opts, *(['-o', out] if of else []), a.prefix + rid)
        w.count('transitions')
        t = f'{what}: get {" ".join(opts)}{" -o file" if of else ""} {rid} ({o.type}, {len(o.content)} bytes, {len(o.segs)} segments)'
        if not r.ok():
            w.bad('get-fails', f'{t} ends with {r.status()} {r.err[-200:]!r}')
            continue
        on = {x: sum(y.count(x) for y in opts) % 2 for x in 'nqz'}
        heads, body = (r.err, r.out)
        if of:
            heads = r.out
            try:
                with open(out, 'rb') as f:
                    body = f.read()
            except OSError:
                w.bad('get-file', f'{t}: no file')
                continue
            if r.err:
                w.bad('get-noise', f'{t}: stderr has {r.err[-200:]!r}')
        if on['q']:
            if heads:
                w.bad('get-headers', f'{t}: prints headers {heads[:200]!r}')
        else:
            got = heads.decode('latin-1').replace('\r\n', '\n')
            want = [x for x in hdr if not x.startswith('Content-Length-GZIP')]
            g = [x for x in got.split('\n') if x and not x.startswith('Content-Length-GZIP')]
            if sorted(g) != sorted(want) or g[:1] != want[:1]:
                w.bad('get-headers', f'{t}: prints headers {sorted(set(g) - set(want))} and lacks {sorted(set(want) - set(g))}')
        if on['n']:
            if body:
                w.bad('get-body', f'{t}: delivers {len(body)} bytes')
            continue
        if on['z']:
            try:
                body, n = warc.gunzip_all(body)
            except warc.Bad as e:
                w.bad('get-body', f'{t}: {e}')
                continue
        if body != o.content:
            w.bad('get-body', f'{t}: delivers {len(body)} bytes, not those stored')


FEW = [([], 0), (['-n'], 0), (['-n'], 1), (['-q'], 0), ([], 1), (['-q', '-z'], 1)]
ALL = [([*x], of) for n in range(4) for x in itertools.combinations(['-n', '-q', '-z'], n) for of in (0, 1)] + [(['-n', '-n'], 0), (['-nqz'], 1), (['-q', '-q'], 0), (['-z', '-q', '-z'], 0), (['-nn', '-qq'], 1)]


def state(w, h, wd, a):
    what = f'after {wd.path}'
    v = warc.View(wd.snap, a)
    if v.problems:
        w.bad('silos', f'{what}: {v.problems[:2]}')
        return
    ents = entries(wd.snap, v)
    ids, near = fragments(v, a)
    for x in near:
        ask(w, a, ents, [x], (), what)
    for i in ids[:4]:
        for x in (a.prefix + i[:9], a.prefix + i, i.upper(), a.prefix.upper() + i[:3].upper()):
            ask(w, a, ents, [x], ('-e',), what)
    ask(w, a, ents, [i[:5] for i in ids] * 2, (), what)
    ask(w, a, ents, [a.prefix], ('-e',), what)
    ask(w, a, ents, [], (), what)
    for bad in ('xyz', ids[0][:5] + 'g' if ids else 'g', a.prefix + '/', 'http://ex/' + (ids[0] if ids else ''), ' ' + (ids[0] if ids else '')):
        r = a.op('byid', bad)
        if (r.kind, r.code) != ('exit', 1) or r.out or not r.err:
            w.bad('byid-invalid', f'{what}: byid {bad!r} ends with {r.status()} {r.out[-200:]!r}')
    for rid, l in v.objs.items():
        show(w, a, rid, l[0], what, FEW)
    if a.snap().canon() != wd.snap.canon():
        w.bad('changed', f'{what}: byid or get have changed the archive')


H = hist.make('c24h', confs=({'max_size': '4k'}, {'max_size': '14k'}), state=state)
N2 = sha(b'n2')[:32]
ALPHA = [['store', 'r100.a'], ['store', 'r6000.d'], ['store', 'r9000.e'], ['store', 'z50000'], ['storef', 'r1', '-m', 'text/plain'], ['meta', 'r100.a', 'r60.m'], ['meta', 'r6000.d', 'r6000.t'], ['metai', 'r100.a', 'r3500.f', N2],
         ['hk'], ['run', 'mksilo', '3'], ['run', 'reindex'], ['conf', 1]]


def alphabet(wd, d):
    for op in ALPHA:
        if op[0] in ('meta', 'metai') and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'conf' and wd.conf == op[1] or op[0] == 'hk' and 'index.appendix' not in wd.snap.files:
            continue
        yield op


@family
def c24_opts(w, case):
    """every combination of get's options on every kind of object; headers of every length"""
    kw = dict(case.get('conf', {}))
    a = w.arch('c24o', max_size=case.get('max', '4k'), **kw)
    with open(a.confpath) as f:
        t = f.read()
    with open(a.confpath, 'w') as f:
        f.write(t.replace('resource.mime-types:\n', 'resource.mime-types:\n' + ''.join(f'\t{m}\n' for _, m in case['list'] if 'xxx' in m)))
    for s, m in case['list']:
        r = a.store(gen(s), *(['-m', m] if m else []))
        if not r.ok():
            w.bad('store-fails', f'x{len(m)}: {r.status()} {r.err[-200:]!r}')
            return
        if case.get('meta'):
            r = a.meta(r.out.decode().strip(), gen(case['meta'] + s[1:]), mime='application/json' if m else 'text/plain')
            if not r.ok():
                w.bad('store-fails', f'{case}: {r}')
                return
    snap = a.snap()
    v = warc.View(snap, a)
    if v.problems:
        w.bad('silos', f'{case}: {v.problems[:2]}')
        return
    for rid, l in sorted(v.objs.items()):
        show(w, a, rid, l[0], f'{case}', ALL if case.get('all') else FEW[:3])
        w.seen('states', str((case, rid)))
    ents = entries(snap, v)
    for x in fragments(v, a)[1]:
        ask(w, a, ents, [x], (), str(case))
    w.count('traces')


@family
def c24_many(w, case):
    """numbers of entries around the limit of an exit status"""
    a = w.arch('c24m', max_size='100m')
    n, done = case['n'], 0
    for i in range(n - 1):
        a.must_store(b'%d' % i)
    if case['hk']:
        a.must('housekeeping')
    snap = a.snap()
    v = warc.View(snap, a)
    ents = entries(snap, v)
    if len(ents) != n:
        w.bad('entries', f'{case}: {len(ents)} entries of {n} records')
    for args in ([''], ['', ''], ['', 'f'], list('0123456789abcdef'), [a.prefix], ['%02x' % i for i in range(256)]):
        for o in ((), ('-e',)):
            ask(w, a, ents, args, o, str(case))
            w.seen('states', str((case, args[:2], len(args), o)))
    w.count('traces')


OPS = ['audit', 'byid', 'cgi', 'dumpindex', 'filter', 'get', 'housekeeping', 'info', 'mksilo', 'rebuild', 'reindex', 'stevedore', 'store', 'stow', 'nonsense']


@family
def c24_info(w, case):
    """info in every configuration, and -j with every operation"""
    a = w.arch('c24i', max_size='4k', id_bits=case['bits'])
    rid = a.must_store(gen('r300.a')).out.decode().strip()
    a.must_store(gen('r5000.b'))
    base = a.snap()
    n = case['bits'] // 4
    r = a.op('info')
    if not r.ok() or r.out != b'id_size: %d\n' % n or r.err:
        w.bad('info', f'{case}: info ends with {r.status()} and prints {r.out!r} {r.err!r}')
    for g in (['-j'], ['-j', '-j']):
        for op in OPS:
            for args in ([], [rid], ['-h']):
                r = jrun(a, g, op, args)
                w.count('transitions')
                w.seen('states', str((case, g, op, len(args), args[:1] == ['-h'])))
                what = f'{case}: {" ".join(g)} {op} {args}'
                if op == 'info' and not args:
                    try:
                        ok = r.ok() and json.loads(r.out) == ['AardWARC', 'info', '1', {'id_size': n}] and not r.err
                    except ValueError:
                        ok = False
                    if not ok:
                        w.bad('info-json', f'{what}: {r.status()} and {r.out!r} {r.err!r}')
                elif r.ok() or r.kind != 'exit':
                    w.bad('json-accepted', f'{what}: {r.status()}')
                elif r.out or not r.err:
                    w.bad('json-output', f'{what}: {r.status()}, {r.out[-200:]!r} {r.err[-200:]!r}')
                elif op not in ('info', 'nonsense') and b'JSON' not in r.err:
                    w.bad('json-message', f'{what}: {r.status()}, {r.err[-200:]!r}')
                if a.snap().canon() != base.canon():
                    w.bad('json-changed', f'{what}: has changed the archive')
                    a.restore(base)
    w.count('traces')


def jrun(a, g, op, args):
    p = a.proc(op, *args, stdin=b'x\n')
    p.args = [*p.args[:1], *[x.encode() for x in g], *p.args[1:]]
    return a.run([p])[0]


def check(ctx):
    q = ctx.quick
    H.bfs(ctx, alphabet, ctx.n(3, 4), limit=ctx.n(3000, 20000))
    MIX = [('r1', ''), ('r300.a', 'text/plain'), ('z9000', ''), ('r3000.c', ''), ('r5000.b', ''), ('r9999.d', 'application/x-mtree'), ('w300', '')]
    cases = []
    for c in ({}, {'id_bits': 64}, {'id_bits': 96}, {'id_bits': 100}, {'id_bits': 160}, {'id_bits': 256}, {'prefix': 'http://Ex.Ample/a?b=/'}):
        for m in ('4k', '14k', '100m'):
            for meta in ('', 't', '[0:5000]r30000.'):
                if c.get('id_bits', 0) > 160 and m == '4k':
                    continue
                cases.append({'list': MIX, 'conf': c, 'max': m, 'all': 1, 'meta': '' if meta.startswith('[') else meta})
    seen, out = set(), []
    for c in cases:
        if str(c) not in seen:
            seen.add(str(c))
            out.append(c)
    ctx.explore(c24_opts, out)
    # headers of every length that store accepts
    lens = range(1, 505, ctx.n(7, 1))
    ctx.explore(c24_opts, [{'list': [('r40.' + str(i), 'text/xxx' + 'x' * n) for i, n in enumerate(lens[j:j + 40])], 'max': '100m', 'conf': {'prefix': 'file://' + 'p' * p + '/', 'id_bits': b}} for j in range(0, len(lens), 40) for p, b in ((2, 128), (190, 256))])
    ctx.bound(f'{len(out)} configurations with every combination of options; {len(lens)} lengths of the header')
    ctx.explore(c24_many, [{'n': n, 'hk': hk} for n in ((2, 254, 255, 256, 257, 258, 300) if q else (*range(250, 262), 510, 511, 512, 513, 1024)) for hk in (0, 1)])
    ctx.explore(c24_info, [{'bits': b} for b in ((64, 96, 128, 160, 256) if q else range(64, 257, 4))])
