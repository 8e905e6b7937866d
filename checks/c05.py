"""C05: silos only ever grow, and read-only silos never change."""
import os
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist, run

LEVEL = 'model_checking'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories are enumerated exhaustively to the stated depth',
               'operations run as root, so file permissions do not protect silos from the program']

STORES = ('store', 'storef', 'meta', 'metai')


def silos(snap):
    return {k: v for k, v in snap.files.items() if warc.silo_no(k) is not None}


def compare(w, what, s0, s1, may_grow, id_len=32):
    """silos before and after one operation"""
    b, a = silos(s0), silos(s1)
    for k, (m, g, d) in b.items():
        if k not in a:
            w.bad('silo-gone', f'{what}: {k} is gone')
            continue
        m1, g1, d1 = a[k]
        if m1 != m:
            w.bad('mode-changed', f'{what}: {k} had mode {m:o}, has {m1:o}')
        if len(d1) < len(d):
            w.bad('silo-shrank', f'{what}: {k} was {len(d)} bytes, is {len(d1)}')
        elif d1[:len(d)] != d:
            w.bad('silo-altered', f'{what}: {k}: bytes that were there have changed')
        elif len(d1) > len(d):
            if not m & 0o200:
                w.bad('read-only-grew', f'{what}: {k} is read-only and grew by {len(d1) - len(d)} bytes')
            elif not may_grow:
                w.bad('grew', f'{what}: {k} grew by {len(d1) - len(d)} bytes')
            else:
                try:
                    warc.parse_silo(d1, warc.silo_no(k), 'file://ex/', id_len)
                except warc.Bad as e:
                    w.bad('grew-partly', f'{what}: {k} grew: {e}')
    if not may_grow:
        new = sorted(set(a) - set(b))
        if new:
            w.bad('new-silo', f'{what}: {new} appeared')


def step(w, h, w0, op, r, w1):
    if op[0] in ('ro', 'rw', 'hole', 'conf'):
        return
    compare(w, f'after {w0.path}: {op}', w0.snap, w1.snap, op[0] in STORES or op[1:2] == ['mksilo'])
    if op[0] in STORES and r is not None and not r.ok():
        w.bad('store-fails', f'after {w0.path}: {op} ends with {r.status()}: {r.err[-300:]!r}')


def some_id(wd, a):
    return a.prefix + next(iter(wd.objs), 'f' * 32)


def state(w, h, wd, a):
    """in every state, every operation that has no business with silos"""
    rid = some_id(wd, a)
    names = sorted(k for k in wd.snap.files if k.endswith('.gz'))
    full = [os.path.join(a.silo, n) for n in names]
    ops = [['audit'], ['audit', *full], ['byid', rid[len(a.prefix):][:5]], ['dumpindex'], ['filter'], ['get', rid], ['get', '-z', rid], ['get', '-o', a.dir + '/o', rid],
           ['housekeeping'], ['info'], ['reindex'], ['reindex', *full], ['rebuild'], ['rebuild', *full[:1]],
           ['store', '/nonexistent/file'], ['store', '-m', 'no/such'], ['store', '-t', 'metadata', '-m', 'text/plain', '-r', 'f' * 32], ['cgi'], ['stevedore'], ['_testbytes', '5'], ['nosuch'],
           ['mksilo', '0'], ['mksilo', '1']]
    for o in ops:
        a.restore(wd.snap)
        kw = {}
        if o[0] == 'filter':
            kw['stdin'] = (rid + '\n').encode()
        if o[0] == 'store':
            kw['stdin'] = b'refused'
        if o[0] == 'cgi':
            kw['env'] = ['GATEWAY_INTERFACE=CGI/1.1', 'REQUEST_METHOD=GET', 'PATH_INFO=/' + rid]
        a.op(*o, **kw)
        w.count('transitions')
        compare(w, f'after {wd.path}: {o}', wd.snap, a.snap(), o[0] == 'mksilo')
    # storing an object again, and storing ones that just fit, with every silo read-only in turn
    for mode in (0o440, 0o640, 0o020, 0o577):
        for i in range(-1, len(names)):
            for spec in ('r120.n', 'r900.n', 'r6000.n') + tuple(o['spec'] for o in list(wd.objs.values())[:2] if o['type'] == 'resource'):
                a.restore(wd.snap)
                for j, n in enumerate(names):
                    if i < 0 or i == j:
                        os.chmod(os.path.join(a.silo, n), mode)
                s0 = a.snap()
                r = a.store(gen(spec))
                w.count('transitions')
                compare(w, f'after {wd.path}, mode {mode:o} on {"all" if i < 0 else names[i]}: store {spec}', s0, a.snap(), True)
                if not r.ok():
                    w.bad('store-fails', f'after {wd.path}, mode {mode:o} on {"all" if i < 0 else names[i]}: store {spec} ends with {r.status()}: {r.err[-300:]!r}')


H = hist.make('c05h', confs=({'max_size': '4k'}, {'max_size': '15k'}), step=step, state=state)
ALPHA = [['store', 'r100.a'], ['store', 'r1400.b'], ['store', 'r2700.c'], ['store', 'r7000.d'],
         ['meta', 'r100.a', 'r60.m'], ['hk'], ['conf', 1], ['run', 'mksilo', '1'], ['run', 'mksilo', '2'], ['ro', 0], ['ro', 1], ['rm', '_.cache'], ['hole', 0], ['touch', '0/00000000.warc.gz.hold']]


def alphabet(wd, d):
    out = []
    for op in ALPHA:
        if op[0] == 'conf' and op[1] == wd.conf:
            continue
        if op[0] == 'meta' and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'rm' and op[1] not in wd.snap.files:
            continue
        if op[0] == 'hole':
            continue
        if op[0] == 'ro':
            p = warc.silo_path(op[1])
            if p not in wd.snap.files or not wd.snap.files[p][0] & 0o200:
                continue
        if op[0] == 'touch' and op[1] in wd.snap.files:
            continue
        out.append(op)
    return out


@family
def c05_sizes(w, case):
    """Appending objects of every size to a silo that is nearly full, writable or not"""
    a = w.arch('c05s', max_size='4k')
    a.must_store(gen(case['first']))
    base = a.snap()
    for n in range(case['lo'], case['hi']):
        w.case = dict(case, lo=n, hi=n + 1)
        for ro in (0, 1):
            a.restore(base)
            if ro:
                os.chmod(a.silo + '/0/00000000.warc.gz', 0o440)
            s0 = a.snap()
            r = a.store(gen(f'r{n}.x'))
            w.count('transitions')
            w.seen('states', (case['first'], n, ro))
            compare(w, f'{case["first"]}{", read-only" if ro else ""}, then r{n}.x in silos of 4k', s0, a.snap(), True)
            if not r.ok():
                w.bad('store-fails', f'{case["first"]} then r{n}.x: {r.status()} {r.err[-200:]!r}')


def check(ctx):
    H.bfs(ctx, alphabet, ctx.n(3, 5), limit=ctx.n(5000, 40000))
    ctx.explore(c05_sizes, [dict(first=f, lo=i, hi=i + 50) for f in ('r100.a', 'r1200.b', 'r2500.c') for i in range(1, 3100, 50)])
    ctx.bound('objects of every size appended to, or kept away from, three silos')
