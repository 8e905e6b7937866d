"""C08: no success is reported when the system failed."""
from mc.core import family
from mc.gen import gen, sha
from mc import core, warc, hist, faults
from mc.states import BASES

LEVEL = 'fault_enumeration'
RULE = 'every system call of the operation on the archive, its input, its configuration and its output failing in every way listed in mc/faults.py, transferring less than asked, or failing from some call on; distinct: (archive left, exit status, output) that differ'
TECHNIQUE = 'fault enumeration: the real program is run once for every system call and way of failing, under control at the system-call boundary'
ASSUMPTIONS = ['calls fail without having had an effect, except short transfers', 'close() reports errors that leave the file complete',
               'writes to files of the archive are cut short at page boundaries only (hold and temporary files: anywhere)', 'reads of regular files are not cut short by the system']
H = hist.make('c08h', confs=({'max_size': '4k'}, {'max_size': '15k'}))
B = dict(BASES)
B['half'] = [['store', 'r6000.b']]
B['gets'] = [['store', 'r300.a'], ['store', 'r7000.d'], ['meta', 'r300.a', 'r200.m'], ['store', 'z60000'], ['hk'], ['store', 't500.b']]

OPS = {
    'new': ['store', 'r400.n'], 'seg': ['store', 'r7100.n'], 'dup': ['store', 'r300.a'], 'meta': ['meta', 'r300.a', 'r200.q'], 'page': ['store', 'r5000.n'],
    'dupseg': ['store', 'r7000.d'], 'file': ['storef', 'r450.n'], 'zeros': ['store', 'z100000'], 'big': ['store', 'r13000.n'], 'page2': ['store', 'r8000.n'], 'comp': ['store', 'h12000.n'],
    'get': ['get', 'r300.a'], 'getseg': ['get', 'r7000.d'], 'getz': ['get', 'r300.a', '-z'], 'getsegz': ['get', 'r7000.d', '-z'], 'geto': ['get', 'r300.a', '-o', '@out'],
    'getnew': ['get', 't500.b'], 'getbig': ['get', 'z60000', '-q'], 'getsego': ['get', 'r7000.d', '-z', '-o', '@out'], 'getmiss': ['get', 'r1.nowhere'],
    'f': ['filter'], 'fr': ['filter', '-r'], 'fv': ['filter', '-v'], 'fs': ['filter', '-s', '-v'], 'fo': ['filter', '-o', '@out'], 'ff': ['filter', '-r', '@in'],
    'fvL': ['filter', '-v', '@many'], 'foL': ['filter', '-v', '-o', '@out', '@many'], 'ffL': ['filter', '@many', '@in'], 'ffoL': ['filter', '-r', '-o', '@out', '@many', '@in'],
}
PLAN = {
    'empty': ('new', 'seg', 'getmiss', 'f'), 'one': ('new', 'seg', 'dup', 'meta', 'file'), 'seg': ('dupseg', 'new'), 'hk': ('new', 'dup'), 'left': ('new', 'dup'),
    'ro': ('new',), 'gap': ('seg',),
    'gets': ('get', 'getseg', 'getz', 'getsegz', 'geto', 'getnew', 'getbig', 'getsego', 'getmiss', 'f', 'fr', 'fv', 'fs', 'fo', 'ff', 'fvL', 'foL', 'ffL', 'ffoL'),
}
BIG = {'one': ('page', 'zeros', 'big', 'comp'), 'half': ('page', 'page2')}


def base_world(w, case):
    wd = hist.World(conf=case['conf'])
    for op in B[case['base']]:
        wd, _ = H.apply(w, wd, op)
    return wd


def lines(wd, opts=()):
    return ([x for x in wd.objs] + ['%032x' % 12345, 'file://ex/' + next(iter(wd.objs), 'f' * 32), 'ab' * 16]) * (40 if '@many' in opts else 1)


def expected_filter(wd, opts):
    out = ''
    for l in lines(wd, opts):
        has = l.rsplit('/', 1)[-1] in wd.objs
        if '-v' in opts:
            out += f'{int(has)} {l}\n'
        elif has == ('-r' in opts):
            out += l + '\n'
    return out.encode()


def proc(a, wd, op, fs):
    args = [x if x != '@out' else a.dir + '/out' for x in op if x != '@many']
    if op[0] == 'filter':
        inp = ''.join(l + '\n' for l in lines(wd, op)).encode()
        if '@in' in args:
            with open(a.dir + '/in', 'wb') as f:
                f.write(inp)
            return a.proc(*[x if x != '@in' else a.dir + '/in' for x in args], stdin=b'', faults=fs)
        return a.proc(*args, stdin=inp, faults=fs)
    return H.proc(a, args, faults=fs)


def outfile(a):
    try:
        with open(a.dir + '/out', 'rb') as f:
            return f.read()
    except OSError:
        return None


def run(w, case, fs, trace=1):
    wd = case.get('_w') or base_world(w, case)
    a = H.arch(w, case['conf'])
    a.restore(wd.snap)
    try:
        __import__('os').unlink(a.dir + '/out')
    except OSError:
        pass
    return wd, a, a.run([proc(a, wd, OPS[case['op']], [tuple(f) for f in fs])], trace=trace, root=a.dir)


@family
def c08_plan(w, case):
    wd, a, r = run(w, case, case['faults'], trace=2)
    if not case['faults'] and not r[0].ok() and case['op'] != 'getmiss':
        w.bad('fails', f'{case["base"]}: {OPS[case["op"]]} ends with {r[0].status()} {r[0].err[-300:]!r}')
    after = max((f[0] for f in case['faults']), default=-1)
    return [list(f) for f in faults.errors(r.trace, wd.snap, a.silo) if f[0] > after]


@family
def c08_fault(w, case):
    wd, a, r = run(w, case, case['faults'])
    op = OPS[case['op']]
    what = f'{case["base"]} ({H.confs[case["conf"]]["max_size"]}): {op} with {case["faults"]}'
    w.count('evaluations')
    w.sample(what)
    if r.end != 'ok':
        w.bad('hang', f'{what}: {r.end}')
    p = r[0]
    s1 = a.snap()
    w.seen('distinct', (s1.canon(), p.status(), p.out))
    if op[0] == 'get':
        rid = H.refid(a, op[1])
        c = wd.objs[rid]['content'] if rid in wd.objs else None
        if p.ok():
            got = outfile(a) if '@out' in op else p.out
            if c is None:
                w.bad('get-success', f'{what}: succeeds for an object that is not there')
            elif '-z' in op:
                try:
                    got = warc.gunzip_all(got)[0]
                except (warc.Bad, TypeError) as e:
                    got = None
            if c is not None and got != c:
                w.bad('get-success', f'{what}: status 0 with {None if got is None else len(got)} wrong bytes for {len(c)}')
    elif op[0] == 'filter':
        if p.ok():
            got = outfile(a) if '@out' in op else p.out
            if got != expected_filter(wd, op):
                w.bad('filter-success', f'{what}: status 0 with {got!r}, not {expected_filter(wd, op)!r}; {p.err[-200:]!r}')
    else:
        e = H.expect(a, wd, op)
        if p.ok():
            if p.out != (a.prefix + e[0] + '\n').encode():
                w.bad('store-output', f'{what}: status 0 and prints {p.out!r}')
            wd = hist.World(None, dict(wd.objs), wd.conf)
            wd.objs.setdefault(e[0], hist.O(type=e[1], spec=op[2] if op[0] == 'meta' else op[1], ref=e[3]))
    for rid, o in wd.objs.items():
        for m in ('-q', '-z'):
            g = a.get(a.prefix + rid, m)
            try:
                got = warc.gunzip_all(g.out)[0] if m == '-z' and g.ok() else g.out
            except warc.Bad:
                got = None
            if not g.ok() or got != o['content']:
                w.bad('lost', f'{what} ({p.status()} {p.out!r} {p.err[-200:]!r}): then get {m} {rid}: {g.status()} {g.err[-200:]!r} {len(g.out)} of {len(o["content"])} bytes')
    if op[0] in ('store', 'storef', 'meta'):
        # the fault is gone
        e = H.expect(a, wd, op)
        q = a.run([proc(a, wd, op, [])])[0]
        if not q.ok() or q.out != (a.prefix + e[0] + '\n').encode():
            w.bad('store-after', f'{what} ({p.status()}): the same store afterwards ends with {q.status()} {q.out!r} {q.err[-300:]!r}')
        else:
            g = a.get(a.prefix + e[0], '-q')
            if not g.ok() or g.out != e[2]:
                w.bad('lost-after', f'{what} ({p.status()}): the same store afterwards, then get: {g.status()} {g.err[-200:]!r}')
        v = warc.View(a.snap(), a)
        for pr in v.problems[:1]:
            w.bad('silo', f'{what} ({p.status()}): {pr}')
    elif warc and s1.canon() != wd.snap.canon():
        w.bad('reader-writes', f'{what}: changes the archive')


def check(ctx):
    nodes = [{'base': b, 'conf': 0, 'op': o, 'faults': []} for b, os_ in PLAN.items() for o in os_]
    nodes += [{'base': b, 'conf': 1, 'op': o, 'faults': []} for b, os_ in BIG.items() for o in os_]
    if not ctx.quick:
        nodes = [{'base': b, 'conf': c, 'op': o, 'faults': []} for b in B for o in OPS for c in ((1,) if o in BIG['one'] + BIG['half'] else (0,))
                 if (o not in ('meta', ) or 'r300.a' in repr(B[b])) and (OPS[o][0] != 'get' or b == 'gets' or o == 'getmiss')]
    w = core.Worker()
    worlds = {}
    try:
        for n in nodes:
            k = n['base'], n['conf']
            if k not in worlds:
                worlds[k] = base_world(w, n)
    finally:
        w.close()

    def plan(nodes):
        return [dict(c, faults=c['faults'] + [f], _w=worlds[c['base'], c['conf']]) for c, fs in sorted(ctx.explore(c08_plan, [dict(n, _w=worlds[n['base'], n['conf']]) for n in nodes], chunk=4), key=lambda x: core.case_json(x[0])) for f in fs or []]
    one = plan(nodes)
    ctx.explore(c08_fault, one, chunk=4)
    ctx.bound(f'{len(nodes)} operations on archives, {len(one)} single faults')
    two = plan([{k: v for k, v in c.items() if k[0] != '_'} for c in one if (ctx.quick and (c['base'], c['op']) in (('one', 'new'),) or not ctx.quick and c['base'] in ('one', 'gets', 'seg', 'hk')) and c['faults'][0][1] not in ('errall', 'errsame')])
    ctx.explore(c08_fault, two, chunk=4)
    ctx.bound(f'{len(two)} pairs of faults')
