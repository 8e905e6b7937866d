"""C11: housekeeping can be killed or fail at any point without loss."""
from mc.core import family
from mc.gen import gen, sha
from mc import core, warc, hist, faults

LEVEL = 'fault_enumeration'
RULE = 'housekeeping killed before each system call that changes something and inside each write, or one of its system calls failing in every way in mc/faults.py (pairs of faults: kill or fail again on what that leaves); distinct: archives left behind'
TECHNIQUE = 'crash-point and fault enumeration: the real program is stopped at every system call of housekeeping, in a tree of such faults, and lookup and recovery are run from every distinct archive that results'
ASSUMPTIONS = ['kill, not power loss: what system calls did before the kill stays done', 'calls fail without having had an effect, except short transfers']
KEYS = ['00' * 12, '00' * 11 + '01', '7f' + 'ff' * 11, '80' + '00' * 11, 'ff' * 12, 'ff' * 11 + 'fe', '12' * 12, 'c0' * 12, '40' * 12, '3f' + 'ff' * 11]


def apx(keys, flags=warc.F_RESOURCE):
    """entries for silo 7, which is not there: only dumpindex looks at them"""
    return b''.join(warc.enc_rec(k, flags, 7, 64 * (i + 1)) for i, k in enumerate(keys)).hex()


BASES = {
    'first': [['store', 'r300.a'], ['store', 'r7000.d']],
    'sorted': [['store', 'r300.a'], ['store', 'r7000.d'], ['hk'], ['store', 't500.b'], ['store', 'r200.e']],
    'left': [['store', 'r300.a'], ['hk'], ['store', 't500.b'], ['mv', 'index.appendix', 'index.housekeep'], ['store', 'r100.c']],
    'leftonly': [['store', 'r300.a'], ['hk'], ['store', 't500.b'], ['mv', 'index.appendix', 'index.housekeep']],
    'leftfirst': [['store', 'r300.a'], ['mv', 'index.appendix', 'index.housekeep'], ['store', 'r100.c']],
    'edges': [['store', 'r300.a'], ['hk'], ['put', 'index.appendix', apx(KEYS)], ['hk'], ['store', 't500.b']],
    'edges2': [['store', 'r300.a'], ['hk'], ['put', 'index.appendix', apx(KEYS)], ['mv', 'index.appendix', 'index.housekeep'], ['store', 'r100.c']],
    'many': [['store', 'r300.a'], ['hk'], ['put', 'index.appendix', apx(['%024x' % (i * 0x0123456789abcdef012345 % 2**96) for i in range(300)])]],
    'nothing': [['store', 'r300.a'], ['hk']],
    'bare': [],
}
CONFS = ({'max_size': '4k'}, {'max_size': '4k', 'sort_size': '4k'})
H = hist.make('c11h', confs=CONFS)


def base_world(w, case):
    wd = hist.World(conf=case['conf'])
    for op in BASES[case['base']]:
        wd, r = H.apply(w, wd, op)
    return wd


def run(w, case, wd, fs, trace=1):
    a = H.arch(w, case['conf'])
    a.restore(wd.snap)
    r = a.run([a.proc('housekeeping', faults=[tuple(f) for f in fs])], trace=trace)
    return a, r, hist.World(a.snap(), wd.objs, wd.conf, wd.path)


def reached(w, case, last=True):
    if '_w' in case:
        return case['_w']
    wd = base_world(w, case)
    for f in case['faults'] if last else case['faults'][:-1]:
        _, _, wd = run(w, case, wd, [f])
    return wd


@family
def c11_plan(w, case):
    wd = reached(w, case)
    snap = wd.snap
    if 'index.hold' in snap.files:     # the operator removes it
        del snap.files['index.hold']
    a, r, n = run(w, case, wd, [], trace=2)
    if not r[0].ok():
        w.bad('fails', f'{case["base"]}: housekeeping ends with {r[0].status()} {r[0].err[-300:]!r}')
    out = [list(f) for f in faults.crashes(r.trace, snap, a.silo)]
    if case.get('errs', 1):
        out += [list(f) for f in faults.errors(r.trace, snap, a.silo)]
    return out


@family
def c11_fault(w, case):
    wd = case['_from'] if '_from' in case else reached(w, case, False)
    wd.snap.files.pop('index.hold', None)
    a, r, n = run(w, case, wd, [case['faults'][-1]])
    w.count('evaluations')
    if r.end != 'ok':
        w.bad('hang', f'{case}: {r.end}')
    return n


def look(w, a, what, wd, want, extra=()):
    r = a.op('dumpindex')
    got = parse_dump(r.out)
    if not r.ok() or not want <= got:
        w.bad('lost', f'{what}: dumpindex ends with {r.status()} {r.err[-200:]!r}, lacks {sorted(want - got)[:3]}')
    if got - want:
        w.bad('invented', f'{what}: dumpindex shows {sorted(got - want)[:3]}')
    for e in list(want)[:: max(1, len(want) // 12)] if len(want) > 40 else want:
        r = a.op('dumpindex', e[0])
        if e not in parse_dump(r.out):
            w.bad('lost-key', f'{what}: dumpindex {e[0]} ends with {r.status()} {r.out!r} {r.err[-200:]!r}')
    for rid, o in wd.objs.items():
        r = a.get(a.prefix + rid, '-q')
        if not r.ok() or r.out != o['content']:
            w.bad('get', f'{what}: get {rid}: {r.status()} {r.err[-200:]!r}')


def parse_dump(b):
    """(key, flags, silo, offset, continuation) of each line of dumpindex"""
    out = set()
    for l in b.decode('latin-1').splitlines():
        f = l.split()
        if len(f) >= 5:
            out.add((f[0], int(f[1], 16), int(f[2], 16 if f[2].startswith('0x') else 10), int(f[3], 16 if f[3].startswith('0x') else 10), f[4]))
    return out


@family
def c11_recover(w, case):
    wd = reached(w, case)
    a = H.arch(w, case['conf'])
    a.restore(wd.snap)
    w.seen('distinct', wd.key())
    what = f'{case["base"]} (sort_size {CONFS[case["conf"]].get("sort_size", "default")}) then housekeeping with {case["faults"]}'
    want = warc.index_set(base_world(w, case).snap) if '_want' not in case else case['_want']
    a.restore(wd.snap)
    look(w, a, what, wd, want)
    # stores work
    for spec in ('r444.z', 'r300.a'):
        c = gen(spec)
        rid = hist.res_id(c)
        r = a.store(c)
        if not r.ok() or r.out != (a.prefix + rid + '\n').encode():
            w.bad('store-after', f'{what}: store {spec}: {r.status()} {r.err[-300:]!r}')
            return
        wd = hist.World(None, dict(wd.objs), wd.conf)
        wd.objs[rid] = hist.O(type='resource', spec=spec, ref=None)
    s = a.snap()
    add = warc.index_set(s) - want
    keys = {e[0] for e in add}
    ok = {warc.key24(x) for x in wd.objs} | {warc.key24(r.rid) for l in warc.View(s, a).silos.values() for r in l}
    if not keys <= ok:
        w.bad('invented', f'{what}: the store adds entries for {sorted(keys - ok)[:3]}')
    want = want | add
    look(w, a, what + ', stores', wd, want)
    if 'index.hold' in s.files:
        __import__('os').unlink(a.silo + '/index.hold')
    r = a.op('housekeeping')
    if not r.ok():
        w.bad('hk-again', f'{what}: housekeeping again ends with {r.status()} {r.err[-300:]!r}')
    s = a.snap()
    for n in ('index.hold', 'index.housekeep', 'index.appendix'):
        if n in s.files:
            w.bad('hk-incomplete', f'{what}: housekeeping again ({r.err[-200:]!r}) leaves {n}')
    try:
        idx = warc.read_index(s)
    except warc.Bad as e:
        w.bad('sorted', f'{what}: housekeeping again: {e}')
        return
    got = set(idx.get('index.sorted', ()))
    if got != want:
        w.bad('hk-result', f'{what}: housekeeping again loses {sorted(want - got)[:3]}, adds {sorted(got - want)[:3]}')
    if len(got) != len(idx.get('index.sorted', ())):
        w.bad('hk-result', f'{what}: housekeeping again leaves double entries')
    look(w, a, what + ', housekeeping again', wd, want)
    w.sample(what)


def level(ctx, nodes, seen, wants, errs):
    nodes = [dict(n, errs=errs) for n in nodes]
    byk = {core.case_json(n): n for n in nodes}
    tasks = []
    for c, fs in sorted(ctx.explore(c11_plan, nodes), key=lambda x: core.case_json(x[0])):
        n = byk[core.case_json(c)]
        tasks += [{'base': n['base'], 'conf': n['conf'], 'faults': n['faults'] + [f], '_from': n['_w']} for f in fs or []]
    out = []
    for c, wd in sorted(ctx.explore(c11_fault, tasks, chunk=8), key=lambda x: core.case_json(x[0])):
        if wd is None:
            continue
        k = (wd.key(), c['conf'])
        if k not in seen:
            seen.add(k)
            out.append(dict(c, _w=wd, _want=wants[c['base'], c['conf']]))
    return out


def check(ctx):
    w = core.Worker()
    nodes, wants = [], {}
    try:
        for b in BASES:
            for c in (0, 1):
                wd = base_world(w, {'base': b, 'conf': c})
                wants[b, c] = warc.index_set(wd.snap)
                nodes.append({'base': b, 'conf': c, 'faults': [], '_w': wd})
    finally:
        w.close()
    seen = set()
    one = level(ctx, nodes, seen, wants, 1)
    ctx.explore(c11_recover, one, chunk=2)
    two = level(ctx, one if not ctx.quick else [c for c in one if c['base'] in ('sorted', 'left', 'edges2') and c['faults'][-1][1] == 'crash'], seen, wants, 1)
    ctx.explore(c11_recover, two, chunk=2)
    ctx.bound(f'{len(nodes)} archives, {len(one)} distinct archives after one fault, {len(two)} more after two')
    if not ctx.quick:
        three = level(ctx, [c for c in two if c['faults'][-1][1] in ('crash', 'err')], seen, wants, 0)
        ctx.explore(c11_recover, three, chunk=2)
        ctx.bound(f'{len(three)} more after three')
