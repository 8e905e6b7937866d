"""C07: a store killed at any point leaves a usable archive."""
from mc.core import family
from mc.gen import gen, sha
from mc import core, warc, hist, faults
from mc.states import BASES

LEVEL = 'fault_enumeration'
RULE = 'every place at which a kill leaves a different archive: before each system call that changes something, and between the pages (for hold files also inside the pages) of each write; applied to the first store, and to a second store on what the first kill left'
TECHNIQUE = 'crash-point enumeration: the real program is killed at every system call and inside every write of a store, in a tree of such kills, and recovery is run from every distinct archive that results'
ASSUMPTIONS = ['a killed write() of at most one page of a file is all or nothing; longer ones stop at a page boundary of the file',
               'kill, not power loss: what system calls did before the kill stays done']
H = hist.make('c07h', confs=({'max_size': '4k'}, {'max_size': '15k'}))


def arch(w, conf):
    return H.arch(w, conf)


def base_world(w, case):
    wd = hist.World(conf=case['conf'])
    for op in BASES[case['base']]:
        wd, _ = H.apply(w, wd, op)
    return wd


def kill_world(w, wd, a, op, f):
    """run op from wd, killed as f says -> (result, world after)"""
    a.restore(wd.snap)
    r = a.run([H.proc(a, op, faults=[f] if f else [])], trace=2 if f is None else 1)
    n = hist.World(a.snap(), dict(wd.objs), wd.conf, wd.path + [[op, f]])
    e = H.expect(a, wd, op)
    full = (a.prefix + e[0] + '\n').encode()
    if r[0].out == full:            # it said so before it was killed
        n.objs.setdefault(e[0], hist.O(type=e[1], spec=op[2] if op[0].startswith('meta') else op[1], ref=e[3]))
    return r, n, e


def chain(w, case):
    """the world before the last kill of the case"""
    wd = base_world(w, case)
    for op, f in case['kills'][:-1]:
        a = arch(w, case['conf'])
        _, wd, _ = kill_world(w, wd, a, op, tuple(f))
    return wd


def reached(w, case):
    wd = case.get('_w')
    if wd is None:
        wd = base_world(w, case)
        for op, f in case['kills']:
            a = arch(w, case['conf'])
            _, wd, _ = kill_world(w, wd, a, op, tuple(f))
    return wd


@family
def c07_plan(w, case):
    """the places where op can be killed"""
    wd = reached(w, case)
    a = arch(w, case['conf'])
    r, n, e = kill_world(w, wd, a, case['op'], None)
    if not r[0].ok():
        w.bad('store-fails', f'{case["base"]} {case["kills"]}: {case["op"]} ends with {r[0].status()}: {r[0].err[-300:]!r}')
        return []
    return [list(f) for f in faults.crashes(r.trace, wd.snap, a.silo, torn=case['torn'])]


@family
def c07_kill(w, case):
    """one kill; returns the archive it leaves"""
    wd = case.get('_from')
    if wd is None:
        wd = chain(w, case)
    a = arch(w, case['conf'])
    op, f = case['kills'][-1]
    r, n, e = kill_world(w, wd, a, op, tuple(f))
    w.count('evaluations')
    if r.end != 'ok':
        w.bad('kill-run', f'{case}: {r.end}')
    return n


def ended(r):
    return r.kind == 'exit'


def try_get(w, a, what, rid, content, must):
    """delivered right, or (unless it must be there) not found"""
    for m in ('-q', '-z'):
        r = a.get(a.prefix + rid, m)
        if r.ok():
            try:
                got = warc.gunzip_all(r.out)[0] if m == '-z' else r.out
            except warc.Bad as e:
                got = b'%r' % e
            if got != content:
                w.bad('get-wrong', f'{what}: get {m} {rid} delivers {len(got)} wrong bytes, the object has {len(content)}')
        elif must:
            w.bad('get-lost', f'{what}: get {m} {rid} ends with {r.status()} {r.err[-200:]!r}')
        elif not ended(r) or r.out:
            w.bad('get-partial', f'{what}: get {m} {rid} ends with {r.status()} after {len(r.out)} bytes of output')
    return r.ok()


def gets(w, a, what, objs):
    for rid, o in objs.items():
        try_get(w, a, what, rid, o['content'], True)


def do(w, a, what, key, *args, **kw):
    r = a.op(*args, **kw)
    if not r.ok():
        w.bad(key, f'{what}: {args} ends with {r.status()} {r.err[-300:]!r} {r.out[-200:]!r}')
    return r


@family
def c07_recover(w, case):
    wd = reached(w, case)
    a = arch(w, case['conf'])
    op, f = case['kills'][-1]
    e = H.expect(a, wd, op)
    a.restore(wd.snap)
    w.seen('distinct', wd.key())
    what = f'{case["base"]} ({H.confs[case["conf"]]["max_size"]}) then kills {case["kills"]}'
    v = warc.View(wd.snap, a)
    torn = [p for p in v.problems if not p.startswith('unexpected file')]
    gets(w, a, what, wd.objs)
    try_get(w, a, what, e[0], e[2], e[0] in wd.objs)
    objs = dict(wd.objs)

    def again(op, label):
        e = H.expect(a, wd, op)
        r = a.run([H.proc(a, op)])[0]
        if not r.ok() or r.out != (a.prefix + e[0] + '\n').encode():
            w.bad('store-after', f'{what}: {label} {op} ends with {r.status()} {r.out!r} {r.err[-300:]!r}')
            return
        objs.setdefault(e[0], hist.O(type=e[1], spec=op[2] if op[0].startswith('meta') else op[1], ref=e[3]))
        gets(w, a, f'{what}, {label} {op}', objs)
    again(case['first'], 'first')
    again(case['second'], 'then')
    do(w, a, what, 'hk-after', 'housekeeping')
    gets(w, a, what + ', housekeeping', objs)
    # every other operation
    s2 = a.snap()
    v2 = warc.View(s2, a)
    holds = [n for n in s2.files if n.endswith('.hold')]
    for n in holds:
        if n not in wd.snap.files:
            w.bad('hold-left', f'{what}: completed stores leave {n}')
    for p in v2.problems:
        if p not in v.problems:
            w.bad('silo', f'{what}: {p} after completed stores')
    for no, rs in v.silos.items():
        old, new = wd.snap.files[warc.silo_path(no)][2], s2.files.get(warc.silo_path(no), (0, 0, b''))[2]
        if not new.startswith(old):
            w.bad('silo-changed', f'{what}: silo {no} lost bytes')
    r = do(w, a, what, 'dumpindex-after', 'dumpindex')
    seen = r.out.decode('latin-1').replace('|', '')
    for rid in objs:
        if rid[:24] not in seen:
            w.bad('dumpindex-lost', f'{what}: dumpindex does not list {rid}')
    r = do(w, a, what, 'filter-after', 'filter', stdin=''.join(x + '\n' for x in objs).encode())
    if r.out:
        w.bad('filter-lost', f'{what}: filter thinks {r.out!r} are missing')
    for rid in objs:
        r = a.op('byid', rid)
        if r.kind != 'exit' or rid.encode() not in r.out:
            w.bad('byid-after', f'{what}: byid {rid} ends with {r.status()} {r.out[-200:]!r}')
    r = a.op('audit')
    if not torn and not r.ok():
        w.bad('audit-after', f'{what}: audit ends with {r.status()} {(r.out + r.err)[-300:]!r}')
    if not torn and not v.orphans and (b'ERROR' in r.out or b'ERROR' in r.err):
        w.bad('audit-error', f'{what}: audit reports {(r.out + r.err)[-300:]!r}')
    for n in list(s2.files):
        if n.startswith('index.'):
            del s2.files[n]
    a.restore(s2)
    r = a.op('reindex')
    if not torn and not r.ok():
        w.bad('reindex-after', f'{what}: reindex ends with {r.status()} {(r.out + r.err)[-300:]!r}')
    if not torn:
        gets(w, a, what + ', reindex', objs)
        try_get(w, a, what + ', reindex', e[0], e[2], e[0] in objs)
    w.sample(f'{what}: recovered')


@family
def c07_resize(w, case):
    """the store is repeated with silos of another size, before or after a reindex"""
    wd = reached(w, case)
    conf = 1 - case['conf']
    a = arch(w, conf)
    op, f = case['kills'][-1]
    what = f'{case["base"]} ({H.confs[case["conf"]]["max_size"]}) then kills {case["kills"]}, silos now {H.confs[conf]["max_size"]}'
    w.seen('distinct', (wd.key(), conf))
    w.count('evaluations')
    for re in (False, True):
        a.restore(wd.snap)
        objs = dict(wd.objs)
        wh = what
        if re:
            if any(not p.startswith('unexpected file') for p in warc.View(wd.snap, a).problems):
                break
            for n in a.snap().files:
                if n.startswith('index.'):
                    __import__('os').unlink(f'{a.silo}/{n}')
            do(w, a, what, 'reindex-resize', 'reindex')
            wh += ', index made again'
            e = H.expect(a, wd, op)
            try_get(w, a, wh, e[0], e[2], e[0] in objs)
            gets(w, a, wh, objs)
        for o in (case['first'], case['second']):
            e = H.expect(a, wd, o)
            r = a.run([H.proc(a, o)])[0]
            if not r.ok() or r.out != (a.prefix + e[0] + '\n').encode():
                w.bad('store-resize', f'{wh}: {o} ends with {r.status()} {r.out!r} {r.err[-300:]!r}')
                break
            objs.setdefault(e[0], hist.O(type=e[1], spec=o[2] if o[0].startswith('meta') else o[1], ref=e[3]))
            gets(w, a, f'{wh}, {o} again', objs)
        do(w, a, wh, 'hk-resize', 'housekeeping')
        gets(w, a, wh + ', housekeeping', objs)


OPS1 = {
    'new': ['store', 'r400.n'], 'seg': ['store', 'r7100.n'], 'dup': ['store', 'r300.a'],
    'meta': ['meta', 'r300.a', 'r200.q'], 'big': ['store', 'r2600.n'], 'seg3': ['store', 'r9000.n'], 'page': ['store', 'r5000.n'],
    'dupseg': ['store', 'r7000.d'], 'metaseg': ['meta', 'r300.a', 'r4000.q'], 'file': ['storef', 'r450.n'], 'page2': ['store', 'r9000.n'], 'seg15': ['store', 'r18000.n'],
}


def level(ctx, nodes, seen, torn=2):
    """nodes: cases (with worlds) to kill in; returns the cases reached"""
    nodes = [dict(n, torn=torn) for n in nodes]
    byk = {core.case_json(n): n for n in nodes}
    tasks = []
    for c, fs in sorted(ctx.explore(c07_plan, nodes), key=lambda x: core.case_json(x[0])):
        n = byk[core.case_json(c)]
        for f in fs or []:
            tasks.append({'base': n['base'], 'conf': n['conf'], 'kills': n['kills'] + [[n['op'], f]], '_from': n['_w'], 'first': n['op'], 'second': SECOND})
    bt = {core.case_json(t): t for t in tasks}
    out = []
    for c, wd in sorted(ctx.explore(c07_kill, tasks, chunk=8), key=lambda x: core.case_json(x[0])):
        if wd is None:
            continue
        t = bt[core.case_json(c)]
        k = (wd.key(), repr(c['kills'][-1][0]))
        if k in seen:
            continue
        seen.add(k)
        d = dict(t)
        d.pop('_from')
        d['_w'] = wd
        out.append(d)
    return out


SECOND = ['store', 't900.x']
QUICK = {'empty': ('new', 'seg'), 'one': ('new', 'seg', 'dup', 'meta', 'page', 'big', 'seg15'), 'seg': ('new', 'dupseg', 'seg'), 'hk': ('new', 'metaseg'),
         'left': ('new', 'seg'), 'ro': ('new',), 'held': ('new',), 'full': ('new', 'page'), 'gap': ('seg',), 'nocache': ('new',), 'mix': ('metaseg', 'dup', 'page2')}


def check(ctx):
    plan = []
    for b in BASES:
        for o in OPS1:
            if o.startswith('meta') and 'r300.a' not in repr(BASES[b]) or ctx.quick and o not in QUICK.get(b, ()):
                continue
            plan.append((b, 1 if o in ('page', 'page2', 'seg15') else 0, o))
    w = core.Worker()
    worlds = {}
    try:
        for b, conf, o in plan:
            if (b, conf) not in worlds:
                worlds[b, conf] = base_world(w, {'base': b, 'conf': conf})
    finally:
        w.close()
    nodes = [{'base': b, 'conf': conf, 'kills': [], 'op': OPS1[o], '_w': worlds[b, conf]} for b, conf, o in plan]
    seen = set()
    first = level(ctx, nodes, seen, ctx.n(1, 2))
    ctx.explore(c07_recover, first, chunk=4)
    ctx.explore(c07_resize, [d for d in first if not ctx.quick or d['first'][1] in ('r7100.n', 'r7000.d', 'r18000.n', 'r9000.n') or d['first'][0] == 'meta'], chunk=4)
    # a second store is killed on what the first kill left
    ok2 = {('one', 'r400.n')} if ctx.quick else {(b, OPS1[o][1]) for b in BASES for o in ('new', 'seg', 'page', 'meta')}

    def grow(ds, torn):
        return [{'base': d['base'], 'conf': d['conf'], 'kills': d['kills'], 'op': o, '_w': d['_w']} for d in ds
                if (d['base'], d['kills'][-1][0][1]) in ok2 and (torn or d['kills'][-1][1][1] != 'torn')
                for o in (d['kills'][-1][0], ['store', 'r500.y'])[: ctx.n(1, 2)]]
    second = level(ctx, grow(first, not ctx.quick), seen, ctx.n(0, 1))
    ctx.explore(c07_recover, second, chunk=4)
    if not ctx.quick:
        ctx.explore(c07_resize, second, chunk=4)
    ctx.bound(f'{len(plan)} pairs of archive and store, {len(first)} distinct archives after one kill, {len(second)} more after two')
    if not ctx.quick:
        ok2 = {('one', 'r400.n')}
        third = level(ctx, grow(second, False), seen, 0)
        ctx.explore(c07_recover, third, chunk=4)
        ctx.bound(f'{len(third)} more after three')
