"""C02: object IDs depend on the content alone."""
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist

LEVEL = 'model_checking'
ASSUMPTIONS = ['contents come from a fixed alphabet of byte patterns; sizes, ID lengths, prefixes and the other circumstances are enumerated exhaustively within the stated bounds',
               'SHA-256 of the oracle (Python hashlib) is right']

PREFIXES = ['file://ex/', 'https://aardwarc.example/archive/of/things/', 'a/', 'HTTP://Example.COM/X/', 'x://' + 'p' * 300 + '/']


def stored_id(a, content, typ, ref=None):
    """(rid, record id as written) of the one object with this content, or a problem"""
    v = warc.View(a.snap(), a)
    if v.problems:
        return None, v.problems[0]
    f = [o for l in v.objs.values() for o in l if o.content == content and o.type == typ and o.ref == ref]
    if len(f) != 1:
        return None, f'{len(f)} such objects in the silos'
    return f[0].rid, None


def put(w, a, spec, what, ref=None, opts=(), prep='', **kw):
    """store; printed and recorded ID must be the function of the content"""
    c = gen(spec)
    if ref is None:
        r = a.store(c, *opts, **kw)
        want = hist.res_id(c, a.id_len)
        rr = None
    else:
        r = a.meta(ref, c, *opts, **kw)
        uri = ref if ref.lower().startswith(a.prefix.lower()) else a.prefix + ref
        rr = '<' + uri + '>'
        want = hist.meta_id(rr, c, a.id_len)
    w.count('transitions')
    w.seen('states', (spec, a.kw, ref, opts, what))
    if not r.ok():
        w.bad('store-fails', f'{what}: store {spec} ends with {r.status()}: {r.err[-300:]!r}')
        return None
    if r.out != (a.prefix + want + '\n').encode():
        w.bad('wrong-id' if ref is None else 'wrong-meta-id', f'{what}: store {spec} {opts} printed {r.out!r}, not {want}')
        return None
    rid, why = stored_id(a, c, 'resource' if ref is None else 'metadata', rr)
    if rid != want:
        w.bad('wrong-record-id', f'{what}: the record of {spec} has ID {rid} ({why}), not {want}')
    return want


@family
def c02_bits(w, case):
    """One ID length and prefix: resources and metadata of several sizes"""
    a = w.arch('c02')
    a.configure(id_bits=case['bits'], prefix=case['prefix'], max_size=case['max'])
    for s in case['specs']:
        a.reset()
        what = f'{case["bits"]} bit IDs, prefix {case["prefix"][:40]}, silos of {case["max"]}'
        rid = put(w, a, s, what)
        if rid is None:
            continue
        full = a.prefix + rid
        for i, ref in enumerate((rid, full, rid.upper(), full.upper()[:len(a.prefix)] + rid)):
            put(w, a, f'r{40 + i}.m', what + f', ref {i}', ref=ref)
        if case.get('segmeta'):
            put(w, a, case['segmeta'], what, ref=full)
        # metadata about metadata
        mid = hist.meta_id('<' + full + '>', gen('r41.m'), a.id_len)
        put(w, a, 'r50.mm', what + ', ref metadata', ref=a.prefix + mid)
    w.sample(what)


@family
def c02_sizes(w, case):
    """Every size in a range"""
    a = w.arch('c02s', max_size=case['max'])
    for n in range(case['lo'], case['hi']):
        w.case = dict(case, lo=n, hi=n + 1)
        a.reset()
        s = f'{case["kind"]}{n}' + ('' if case['kind'] == 'z' else '.')
        if case.get('meta'):
            a.must_store(gen('r10.a'))
            put(w, a, s, f'silos of {case["max"]}', ref=a.prefix + hist.res_id(gen('r10.a')))
        else:
            put(w, a, s, f'silos of {case["max"]}')


@family
def c02_circ(w, case):
    """The same contents in other circumstances"""
    a = w.arch('c02c')
    for mx in case['max']:
        a.configure(max_size=mx, sort_size='4k')
        for pre in case['pre']:
            a.reset()
            for p in pre:
                if p == 'hk':
                    a.must('housekeeping')
                else:
                    a.must_store(gen(p))
            base = a.snap()
            for s in case['specs']:
                for mime in ('application/octet-stream', 'text/plain', 'TEXT/Plain'):
                    for t in case['times']:
                        a.restore(base)
                        put(w, a, s, f'{mx}, after {pre}, {mime}, time {t}', opts=('-m', mime), env=[f'MC_TIME={t}'])
            # forced ID: recorded as given
            a.restore(base)
            rid = hist.res_id(gen('r10.a'))
            a.must_store(gen('r10.a'))
            for s in ('r30.f', 'r7000.f'):
                for forced in ('f' * 32, '0123456789abcdef' * 2, '0' * 31 + '1'):
                    for form in (forced, a.prefix + forced):
                        a.restore(base)
                        a.must_store(gen('r10.a'))
                        r = a.meta(a.prefix + rid, gen(s), '-i', form)
                        w.count('transitions')
                        if not r.ok() or r.out != (a.prefix + forced + '\n').encode():
                            w.bad('forced-id', f'{mx} {pre}: store -i {form}: {r.status()} {r.out!r} {r.err[-200:]!r}')
                            continue
                        got, why = stored_id(a, gen(s), 'metadata', '<' + a.prefix + rid + '>')
                        if got != forced:
                            w.bad('forced-id-record', f'{mx} {pre}: store -i {form}: the record has ID {got} ({why})')


@family
def c02_cuts(w, case):
    """The pieces in which the input arrives"""
    a = w.arch('c02k', max_size=case['max'])
    c = gen(case['spec'])
    for n1, n2 in case['pairs']:
        w.case = dict(case, pairs=[[n1, n2]])
        a.reset()
        faults = []
        for n in (n1, n2):
            if n:
                R = a.run([a.proc('store', stdin=c, faults=faults)], trace=2)
                reads = [s.op for s in R.trace if s.sc == 'read' and s.p1.startswith('/memfd:in') and s.op > (faults[-1][0] if faults else -1)]
                a.reset()
                if reads:
                    faults.append((reads[0], 'short', n))
        put(w, a, case['spec'], f'silos of {case["max"]}, input in pieces of {n1}, {n2}', faults=faults)
        if case['spec'][1:].startswith('9'):
            a.must_store(gen('r10.a'))
            put(w, a, case['spec'], f'metadata, silos of {case["max"]}', ref=a.prefix + hist.res_id(gen('r10.a')))


def s_step(w, h, w0, op, r, w1):
    hist.step_ack(w, h, w0, op, r, w1)
    a = h.arch(w, w1.conf)
    v = warc.View(w1.snap, a)
    have = {(o.rid, o.type, o.content) for l in v.objs.values() for o in l}
    want = {(k, o['type'], o['content']) for k, o in w1.objs.items()}
    for x in sorted(have - want)[:1]:
        w.bad('record-id', f'after {w1.path}: the silos hold {x[1]} {x[0]} of {len(x[2])} bytes, nothing was stored under that ID')


H = hist.make('c02h', confs=({'max_size': '4k'},), step=s_step)
ALPHA = [['store', 'r100.a'], ['store', 'r7000.d'], ['store', 'h9000.e'], ['meta', 'r100.a', 'r60.m'], ['meta', 'r7000.d', 'r4000.n'], ['meta', 'r7000.d', 'r60.m'],
         ['meta', 'r100.a', 'r7000.d'], ['hk'], ['storef', 'r2882.p']]


def alphabet(wd, d):
    return [op for op in ALPHA if op[0] != 'meta' or hist.res_id(gen(op[1])) in wd.objs]


def check(ctx):
    cases = []
    for bits in range(64, 257, 4):
        for i, p in enumerate(PREFIXES):
            if 1:
                cases.append(dict(bits=bits, prefix=p, max='6k', specs=['x61', 'r64.a', 'h7000.b', 'r9000.c'] + ([] if ctx.quick else ['r55.', 'r5000.', 'r30000.', 'z400000']), segmeta='r8000.sm'))
    cases.append(dict(bits=None, prefix='file://ex/', max='6k', specs=['x61', 'r9000.c'], segmeta='r8000.sm'))
    cases += [dict(bits=b, prefix='file://' + 'p' * (n - 8) + '/', max='12k', specs=['x61', 'r30000.c'], segmeta='r28000.sm') for b in (64, 128, 256) for n in ctx.n((120, 200, 300, 400, 450, 500), range(100, 501, 10))]
    ctx.explore(c02_bits, cases)
    ctx.bound('every ID length 64..256 bits in steps of 4; 5 prefixes, and up to 500 characters long; resources, metadata and metadata about metadata, segmented and not, every form of -r')
    cases = []
    for k, lo, hi, mx in ctx.n([('r', 1, 3000, '4k'), ('r', 5740, 5780, '4k'), ('h', 1, 300, '4k'), ('h', 4500, 6000, '4k'), ('r', 13000, 14500, '15k'), ('r', 131060, 131085, '15k'), ('z', 131070, 131075, '200k')],
                               [('r', 1, 9000, '4k'), ('h', 1, 9000, '4k'), ('r', 131000, 131200, '15k'), ('r', 262100, 262200, '200k'), ('z', 131000, 131200, '200k'), ('w', 1, 3000, '4k')]):
        for meta in (0, 1):
            for i in range(lo, hi, 20):
                cases.append(dict(kind=k, lo=i, hi=min(hi, i + 20), max=mx, meta=meta))
    for k, mx, lo, hi in (('r', '130k', 100000, 420000), ('h', '130k', 200000, 800000), ('r', '300k', 290000, 1000000), ('t', '1100k', 500000, 9000000)):
        for meta in (0, 1):
            for n in range(lo, hi, (hi - lo) // ctx.n(12, 200)):
                cases.append(dict(kind=k, lo=n, hi=n + 1, max=mx, meta=meta))
    ctx.explore(c02_sizes, cases)
    ctx.bound('every size in ranges around hash blocks, segment capacities and the input buffer')
    ctx.explore(c02_circ, [dict(max=[mx], pre=[p], specs=['x00', 'r2882.', 'r9000.c', 'h40000.q'], times=[0, 1700000000, 4102444799])
                           for mx in ('3k', '4k', '15k', '200k', '2m', '3.5g') for p in ([], ['r100.p'], ['r2000.p', 'r9000.p', 'hk'], ['r100.p', 'hk', 'r101.p'])])
    ctx.bound('6 silo sizes x 4 preceding states x MIME types x dates; forced IDs')
    ns = [0, 1, 3, 51, 52, 53, 63, 64, 65, 1441, 2881, 2882, 2883, 5763, 5764, 5765]
    ctx.explore(c02_cuts, [dict(spec=s, max=mx, pairs=[[x, y] for y in ns]) for s, mx in ctx.n([('r9000.q', '4k')], [('r9000.q', '4k'), ('r200000.q', '15k'), ('h150000.q', '200k')]) for x in ns])
    ctx.bound('input cut at every two of the listed places')
    H.bfs(ctx, alphabet, ctx.n(4, 6), limit=ctx.n(3000, 30000))
