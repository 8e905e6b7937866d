"""C03: storing the same object again changes nothing."""
import os
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist, run

LEVEL = 'model_checking'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories, configurations and index arrangements are enumerated exhaustively within the stated bounds',
               'metadata whose forced (-i) ID is already in the archive counts as already stored']


def step(w, h, w0, op, r, w1):
    """one store: duplicate or new"""
    a = h.arch(w, w0.conf)
    e = h.expect(a, w0, op)
    if e is None:
        if r is not None and not r.ok() and op[0] in ('hk', 'run'):
            w.bad('op-fails', f'after {w0.path}: {op} ends with {r.status()}: {r.err[-300:]!r}')
        return
    hist.step_ack(w, h, w0, op, r, w1)
    f0, f1 = hist.archive_files(w0.snap), hist.archive_files(w1.snap)
    if e[0] in w0.objs:
        if {k: (v[0], v[2]) for k, v in f0.items()} != {k: (v[0], v[2]) for k, v in f1.items()}:
            d = sorted(k for k in set(f0) | set(f1) if k not in f0 or k not in f1 or f0[k][2] != f1[k][2] or f0[k][0] != f1[k][0])
            w.bad('duplicate-changes', f'after {w0.path}: {op} stores an object that is already there and changes {d}')
        return
    v0, o0 = hist.objset(w0, a)
    v1, o1 = hist.objset(w1, a)
    if v1.problems or v1.orphans:
        w.bad('after-store', f'after {w1.path}: {v1.problems[:1]} {len(v1.orphans)} orphan segments')
        return
    want = sorted(o0 + [(e[0], e[1], sha(e[2]), e[3] or '')])
    if o1 != want:
        gone = [x for x in o0 if x not in o1]
        new = [x for x in o1 if o1.count(x) > o0.count(x)]
        w.bad('new-object', f'after {w0.path}: {op} leaves {len(o1)} objects where {len(want)} were expected; new: {new[:3]} gone: {gone[:3]}')
    left = [k for k in f1 if k.endswith('.hold') and k not in f0]
    if left:
        w.bad('hold-left', f'after {w1.path}: {left}')


def state(w, h, wd, a):
    """in every state: store everything again, in every way"""
    base = wd.snap
    for rid, o in wd.objs.items():
        for form in range(3):
            a.restore(base)
            if o['type'] == 'resource':
                if form == 0:
                    r = a.store(o['content'])
                elif form == 1:
                    r = a.store(o['content'], '-m', 'text/plain', env=['MC_TIME=1800000000'])
                else:
                    with open(a.dir + '/in', 'wb') as f:
                        f.write(o['content'])
                    r = a.op('store', '-t', 'RESOURCE', a.dir + '/in')
            else:
                if rid != hist.meta_id(o['ref'], o['content'], a.id_len):
                    r = a.meta(o['ref'][1:-1], o['content'], '-i', rid.upper() if form else rid)
                    if form == 2:
                        continue
                elif form == 0:
                    r = a.meta(o['ref'][1:-1], o['content'])
                elif form == 1:
                    r = a.meta(o['ref'][1 + len(a.prefix):-1], o['content'], mime='application/json')
                else:
                    continue
            w.count('transitions')
            if not r.ok() or r.out.lower() != (a.prefix + rid + '\n').lower().encode():
                w.bad('again-fails', f'after {wd.path}: storing {o["type"]} {rid} again: {r.status()} {r.out!r} {r.err[-200:]!r}')
                continue
            s = a.snap()
            if hist.archive_files(s).keys() != hist.archive_files(base).keys() or any(s.files[k][2] != base.files[k][2] or s.files[k][0] != base.files[k][0] for k in hist.archive_files(s)):
                w.bad('again-changes', f'after {wd.path}: storing {o["type"]} {rid} again changes the archive')


H = hist.make('c03h', confs=({'max_size': '4k'}, {'max_size': '15k'}), step=step, state=state)
ALPHA = [['store', 'r100.a'], ['store', 'r2700.b'], ['store', 'r7000.d'], ['meta', 'r100.a', 'r60.m'], ['meta', 'r7000.d', 'r4000.n'],
         ['hk'], ['mv', 'index.appendix', 'index.housekeep'], ['conf', 1], ['conf', 0], ['run', 'mksilo', '1']]


def alphabet(wd, d):
    out = []
    for op in ALPHA:
        if op[0] == 'conf' and (op[1] == wd.conf or wd.path and wd.path[-1][0] == 'conf'):
            continue
        if op[0] == 'meta' and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'mv' and (op[1] not in wd.snap.files or op[2] in wd.snap.files):
            continue
        if op[0] == 'run' and '0/00000001.warc.gz' in wd.snap.files:
            continue
        out.append(op)
    return out


# objects whose content is that of a segment or a warcinfo record
G = hist.make('c03g', confs=({'max_size': '4k'},), step=step, state=state)
FORCED = ['ab' * 12 + '00000001', 'ab' * 12 + '00000002', 'AB' * 12 + '00000003']


# an object with many segments, of which some are identical
Z = hist.make('c03z', confs=({'max_size': '4k'},), step=step, state=state)


class _A:      # enough of an archive for hist.collisions()
    prefix, id_len, kw = 'file://ex/', 32, {}


def galphabet(wd, d):
    if d == 0:
        return [['store', 'r7000.d'], ['store', 'r100.a'], ['store', 'r9000.e']]
    out = [['store', s] for s in hist.collisions(wd, _A)]
    out += [['hk'], ['store', 'r7000.d'], ['store', 'r12000.d']]
    for f in FORCED:
        if hist.res_id(gen('r100.a')) in wd.objs:
            out.append(['metai', 'r100.a', 'r50.' + f[-1], f.lower()])
    return out


@family
def c03_lens(w, case):
    """IDs of every length that agree in all but the last digit"""
    a = w.arch('c03l')
    a.configure(id_bits=case['bits'], max_size='4k')
    a.must_store(gen('r100.a'))
    ref = a.prefix + hist.res_id(gen('r100.a'), a.id_len)
    n = a.id_len
    ids = ['7' * (n - 1) + d for d in '0123'] + ['7' * (n - 2) + 'f' + d for d in '89'] + ['6' + '7' * (n - 1)]
    seen = {}
    for i, x in enumerate(ids * 2):
        if i == case.get('hk'):
            a.must('housekeeping')
        before = a.snap()
        r = a.meta(ref, gen(f'r{50 + i}.m'), '-i', x)
        w.count('transitions')
        w.seen('states', (case, i))
        if not r.ok() or r.out != (a.prefix + x + '\n').encode():
            w.bad('forced', f'{case}: storing {x} ({i}th): {r.status()} {r.out!r} {r.err[-200:]!r}')
            return
        after = a.snap()
        if x in seen:
            if hist.archive_files(after).keys() != hist.archive_files(before).keys() or any(after.files[k][2] != before.files[k][2] for k in hist.archive_files(after)):
                w.bad('forced-again', f'{case}: storing {x} again changes the archive')
        else:
            seen[x] = gen(f'r{50 + i}.m')
        for y, c in seen.items():
            g = a.get(a.prefix + y)
            if not g.ok() or g.out != c:
                w.bad('forced-get', f'{case}: after storing {ids[:i + 1]}, get {y}: {g.status()} {len(g.out)} bytes {g.err[-200:]!r}')
                return


def check(ctx):
    H.bfs(ctx, alphabet, ctx.n(5, 7), limit=ctx.n(6000, 40000))
    G.bfs(ctx, galphabet, ctx.n(4, 5), limit=ctx.n(4000, 30000))
    Z.bfs(ctx, ctx.n([['store', 'z12000000'], ['hk']], [['store', 'z12000000'], ['store', 'z11000000'], ['hk']]), ctx.n(2, 4))
    ctx.explore(c03_lens, [dict(bits=b, hk=k) for b in range(64, 257, 4) for k in (None, 3, 7, 9)])
    ctx.bound('every ID length: IDs that differ in the last digits only, stored twice each')
