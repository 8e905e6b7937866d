"""C22: silo numbers map to distinct, stable file names."""
import itertools, os, struct
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: every set of existing, read-only, full, held and missing silos among the first few with every cache content over an alphabet, histories of stores, mksilo, holds and cache losses (breadth-first), and every silo number around each change of directory level; the files that result are judged by a model of the naming and numbering rules and an independent reader of the archive'
NOTE = 'Numbers 0..10200 around the levels (thorough: all below 1300 and dense around the rest), up to 4294967295; four base names; five states of each of the first four silos (625 sets) with 8 caches (thorough 20) and four operations each; histories to depth 4 (5).'
ASSUMPTIONS = ['cache contents: any length, values up to 10001 and a few at the top of the range; far larger ones only cost time (a file is looked for under each number below)',
               'a hold file which nobody holds any more stays until somebody removes it']
SMALL, OTHER, SEG, BIG = 'r300.a', 't500.b', 'r9000.d', 'r3000.e'
IDX = ('index.appendix', 'index.housekeep', 'index.sorted')


def be(*v):
    return struct.pack('>%dI' % len(v), *v)


def nos(snap, hold=False):
    """the silo numbers there are, and names that mean nothing"""
    out = set()
    for n in snap.files:
        if n.endswith('.hold') == hold and not n.startswith('index.') and n != '_.cache':
            b = n[:-5] if hold else n
            x = warc.silo_no(b)
            out.add(x if x is not None and warc.silo_path(x) == b else b)
    return out


def everything(w, a, wd, v, what, n=None):
    """all operations find all silos"""
    for rid, o in wd.objs.items():
        for m in ('-q', '-z'):
            r = a.get(a.prefix + rid, m)
            got = r.out
            if m == '-z' and r.ok():
                try:
                    got = warc.gunzip_all(r.out)[0]
                except warc.Bad:
                    got = None
            if not r.ok() or got != o['content']:
                w.bad('get', f'{what}: get {m} {rid}: {r.status()} {r.err[-200:]!r}')
    recs = sum(len(l) for l in v.silos.values())
    r = a.op('audit')
    good = sum(int(l.split()[0]) for l in r.out.decode('latin-1').split('\n') if ' good ' in l and ' bad entries' in l)
    if not r.ok() or b'ERROR' in r.out + r.err or good != recs:
        w.bad('audit', f'{what}: audit examines {good} of {recs} records in silos {sorted(v.silos)}: {r.status()} {(r.out + r.err)[-300:]!r}')
    s0 = a.snap()
    want = v.expected_index()
    if warc.index_set(s0) != want:
        w.bad('index', f'{what}: the index is not that of the silos: {sorted(warc.index_set(s0) ^ want)[:2]}')
    for f in IDX:
        if f in s0.files:
            os.unlink(os.path.join(a.silo, f))
    r = a.op('reindex')
    got = warc.index_set(a.snap())
    if not r.ok() or got != want:
        w.bad('reindex', f'{what}: reindex of silos {sorted(v.silos)}: {r.status()}, {len(got)} of {len(want)} entries {r.err[-200:]!r}')
    r = a.op('dumpindex')
    if not r.ok() or {int(l.split()[2]) for l in r.out.decode().split('\n') if l} != set(v.silos):
        w.bad('dumpindex', f'{what}: dumpindex: {r.status()}, not the silos there are')
    r = a.op('rebuild')
    outs = {n for n in a.snap_names() if n.endswith('_')}
    if not r.ok() or outs != {warc.silo_path(x, a.kw.get('basename') or '%08u.warc.gz') + '_' for x in v.silos}:
        w.bad('rebuild', f'{what}: rebuild: {r.status()} writes {sorted(outs)[:5]} for silos {sorted(v.silos)[:5]} {r.err[-200:]!r}')
    a.restore(s0)


@family
def c22_number(w, case):
    """one silo number"""
    a = w.arch('c22', max_size='4k', basename=case.get('basename', '%08u.warc.gz'))
    bn = a.kw['basename']
    for n in range(case['lo'], case['hi'], case.get('step', 1)):
        w.case = dict(case, lo=n, hi=n + 1)
        what = f'silo {n}' + (f' as {bn}' if 'basename' in case else '')
        a.reset()
        w.count('transitions')
        w.seen('states', (n, bn))
        r = a.op('mksilo', str(n))
        s = a.snap()
        p = warc.silo_path(n, bn)
        if not r.ok() or set(s.files) - {'_.cache', 'index.appendix', p} or p not in s.files:
            w.bad('mksilo', f'{what}: mksilo: {r.status()} makes {sorted(s.files)} {r.err[-200:]!r}')
            continue
        v = warc.View(s, a, max_size=4096)
        for x in v.problems[:1]:
            w.bad('silo', f'{what}: {x}')
        r = a.op('mksilo', str(n))
        if r.ok() or not r.err or a.snap().canon() != s.canon():
            w.bad('mksilo-again', f'{what}: a second mksilo: {r.status()} {r.err[-100:]!r}')
        wd = hist.World()
        # from here on, as the cache says: into this silo, and the next ones
        with open(a.silo + '/_.cache', 'wb') as f:
            f.write(be(n, n))
        specs = [SMALL, SEG, OTHER] if n < 0xfffffff0 else [SMALL]
        for spec in specs:
            r = a.store(gen(spec))
            if not r.ok():
                w.bad('store', f'{what}: store {spec}: {r.status()} {r.err[-200:]!r}')
                return
            wd.objs[hist.res_id(gen(spec), a.id_len)] = hist.O(type='resource', spec=spec)
        s = a.snap()
        v = warc.View(s, a, max_size=4096)
        for x in v.problems[:1]:
            w.bad('silo', f'{what}: {x}')
            return
        m = len(v.silos)
        if specs[1:] and (sorted(v.silos) != list(range(n, n + m)) or m < 4):
            w.bad('numbers', f'{what}: the silos are {sorted(v.silos)}')
        everything(w, a, wd, v, what)
        if n == 0xffffffff:
            continue
        # the same with small numbers there too
        r = a.op('mksilo', '0' if n else '5')
        if not r.ok():
            w.bad('mksilo', f'{what}: mksilo beside it: {r.status()} {r.err[-200:]!r}')
        if n % 5 == 0 or case.get('all'):
            everything(w, a, wd, warc.View(a.snap(), a), what + ' and another')
    w.count('traces')


@family
def c22_noname(w, case):
    """what is no silo number"""
    a = w.arch('c22', max_size='4k')
    for ops in ([], [['store', SMALL]]):
        wd = H.build(w, ops)
        for x in case['args']:
            a = H.arch(w, 0)
            a.restore(wd.snap)
            r = a.op('mksilo', *x)
            w.count('transitions')
            w.seen('states', (str(ops), tuple(x)))
            s = a.snap()
            if r.ok() or r.kind != 'exit' or not r.err or s.canon() != wd.snap.canon():
                w.bad('no-number', f'after {ops}: mksilo {x}: {r.status()} {r.err[-100:]!r}, makes {sorted(set(s.files) - set(wd.snap.files))}')
    w.count('traces')


def cache_of(snap):
    """(first number to try, first with room) as the cache has them"""
    d = snap.files['_.cache'][2] if '_.cache' in snap.files else b''
    return struct.unpack('>II', d[:8]) if len(d) >= 8 else (0, 0)


def lowest(first, taken, k):
    out = []
    n = first
    while len(out) < k:
        if n not in taken:
            out.append(n)
        n = (n + 1) & 0xffffffff
    return out


def judge_store(w, a, before, after, what, released=()):
    """new silos got the numbers they should have; others and holds are as they were"""
    old, new = nos(before), nos(after)
    holds = nos(before, hold=True)
    for n in before.files:
        if n.startswith('index.') or n == '_.cache':
            continue
        if n not in after.files:
            w.bad('gone', f'{what}: {n} is gone')
            return
        b, f = before.files[n], after.files[n]
        if b[0] != f[0] or b[2] != f[2] and (n.endswith('.hold') or not b[0] & 0o200 or not f[2].startswith(b[2])):
            w.bad('taken-over', f'{what}: {n} is changed')
    if nos(after, hold=True) != holds:
        w.bad('holds', f'{what}: holds {sorted(map(str, nos(after, hold=True)))}, before {sorted(map(str, holds))}')
    added = sorted(new - old, key=lambda x: (isinstance(x, str), x))
    bad = [x for x in added if not isinstance(x, int)]
    if bad:
        w.bad('name', f'{what}: makes {bad}')
        return
    want = lowest(cache_of(before)[0], old | holds, len(added))
    if sorted(want) != added:
        w.bad('number', f'{what}: makes silos {added}, not {want}')
    c = cache_of(after)
    # no number is passed over which is free when its holder gives up
    have = {x for x in new if isinstance(x, int)}
    f0, f1 = cache_of(before)[0], c[0]
    if f1 > f0:
        miss = [x for x in range(f0, min(f1, f0 + 200)) if x not in have]
        if miss:
            w.bad('passed-over', f'{what}: the cache now passes over {miss}')


STATES = ('none', 'room', 'full', 'ro', 'held', 'heldroom')


def make_set(w, st, cache):
    """an archive whose first silos are as stated"""
    key = ('c22set', tuple(st))
    if getattr(w, '_c22', (None,))[0] != key:
        a = H.arch(w, 0)
        a.reset()
        wd = hist.World()
        for n, s in enumerate(st):
            if s in ('none', 'held'):
                continue
            with open(a.silo + '/_.cache', 'wb') as f:
                f.write(be(n, n))
            spec = f'r3200.{n}' if s == 'full' else f'r200.{n}'
            r = a.store(gen(spec))
            if not r.ok():
                raise RuntimeError(f'store {spec}: {r.status()} {r.err!r}')
            wd.objs[hist.res_id(gen(spec))] = hist.O(type='resource', spec=spec)
        for n, s in enumerate(st):
            p = os.path.join(a.silo, warc.silo_path(n))
            if s == 'ro':
                os.chmod(p, 0o440)
            if s in ('held', 'heldroom'):
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p + '.hold', 'wb') as f:
                    f.write(b'x')
        if os.path.exists(a.silo + '/_.cache'):
            os.unlink(a.silo + '/_.cache')
        wd.snap = a.snap()
        w._c22 = (key, wd)
    wd = w._c22[1]
    a = H.arch(w, 0)
    a.restore(wd.snap)
    if cache is not None:
        with open(a.silo + '/_.cache', 'wb') as f:
            f.write(bytes.fromhex(cache))
    return a, wd


@family
def c22_sets(w, case):
    """silos and holds of every kind, and a store"""
    st = case['set']
    for cache in case['caches']:
        for op in case['ops']:
            w.case = dict(case, caches=[cache], ops=[op])
            a, wd = make_set(w, st, cache)
            before = a.snap()
            what = f'silos {st} and cache {cache}: {op}'
            w.count('transitions')
            w.seen('states', (tuple(st), cache, tuple(op)))
            if op[0] == 'mksilo':
                r = a.op(*op)
                n = int(op[1])
                free = n not in nos(before) and n not in nos(before, hold=True)
                after = a.snap()
                if r.ok() != free or r.kind != 'exit':
                    w.bad('mksilo', f'{what}: {r.status()} {r.err[-200:]!r}')
                if nos(after) - nos(before) != ({n} if free else set()) or nos(after, hold=True) != nos(before, hold=True):
                    w.bad('mksilo', f'{what}: makes {nos(after) - nos(before)}')
                objs = dict(wd.objs)
            else:
                r = a.store(gen(op[1]))
                after = a.snap()
                rid = hist.res_id(gen(op[1]))
                if not r.ok() or r.out != (a.prefix + rid + '\n').encode():
                    w.bad('store', f'{what}: {r.status()} {r.out!r} {r.err[-200:]!r}')
                    continue
                judge_store(w, a, before, after, what)
                objs = dict(wd.objs)
                objs[rid] = hist.O(type='resource', spec=op[1])
            v = warc.View(after, a, max_size=4096)
            for p in v.problems[:1]:
                w.bad('silo', f'{what}: {p}')
            if warc.index_set(after) != v.expected_index():
                w.bad('index', f'{what}: index entries {sorted(warc.index_set(after) ^ v.expected_index())[:2]}')
            for rid, o in objs.items():
                r = a.get(a.prefix + rid, '-q')
                if not r.ok() or r.out != o['content']:
                    w.bad('get', f'{what}: then get {rid}: {r.status()} {r.err[-200:]!r}')
    w.count('traces')


CALLS = (['get'], ['filter'], ['audit'], ['dumpindex'], ['info'], ['byid'])


@family
def c22_cache(w, case):
    """every cache content: all operations give the same"""
    wd = H.build(w, BASE[case['base']])
    a = H.arch(w, 0)
    ids = list(wd.objs)
    ref = None
    for cache in [None] + case['caches']:
        a.restore(wd.snap)
        p = a.silo + '/_.cache'
        if os.path.exists(p):
            os.unlink(p)
        if cache == 'dir':
            os.mkdir(p)
        elif cache is not None:
            with open(p, 'wb') as f:
                f.write(bytes.fromhex(cache))
        before = a.snap()
        res = []
        what = f'{case["base"]}: with cache {cache}'
        w.seen('states', (case['base'], cache))
        for c in CALLS:
            args = ids if c[0] in ('byid',) else ids[:1] if c[0] == 'get' else []
            r = a.op(*c, *args, stdin='\n'.join(ids + [sha(b'absent')[:32]]).encode() + b'\n')
            w.count('transitions')
            res.append((c[0], r.status(), r.out))
        if a.snap().canon() != before.canon():
            w.bad('changed', f'{what}: reading operations change the archive')
        r = a.op('reindex')
        s = a.snap()
        res.append(('reindex', r.status(), b'%d' % r.ok()))
        if {k: x[2] for k, x in s.files.items() if not k.startswith('index.')} != {k: x[2] for k, x in before.files.items() if not k.startswith('index.')} or warc.index_set(s) != warc.index_set(before):
            w.bad('reindex', f'{what}: reindex changes the archive')
        a.restore(before)
        for spec in list(dict.fromkeys(o['spec'] for o in wd.objs.values() if o['type'] == 'resource')):
            r = a.store(gen(spec))
            s = a.snap()
            res.append((spec, r.status(), r.out))
            if {k: x[2] for k, x in s.files.items() if k != '_.cache'} != {k: x[2] for k, x in before.files.items() if k != '_.cache'}:
                w.bad('stored-again', f'{what}: storing {spec} again changes the archive')
                a.restore(before)
        if ref is None:
            ref = res
        for x, y in zip(res, ref):
            if x != y:
                w.bad('result', f'{what}: {x[0]} ends with {x[1:]!r:.200}, without cache with {y[1:]!r:.200}')
        for spec in (OTHER + '1', 'r9100.q', 'M'):
            b = a.snap()
            r = a.meta(a.prefix + ids[0], gen('r70.m')) if spec == 'M' else a.store(gen(spec))
            w.count('transitions')
            if not r.ok():
                w.bad('store', f'{what}: store {spec}: {r.status()} {r.err[-200:]!r}')
                continue
            s = a.snap()
            if cache != 'dir':
                judge_store(w, a, b, s, f'{what}: store {spec}')
            v = warc.View(s, a, max_size=4096)
            for p in v.problems[:1]:
                if p != 'unexpected file _.cache':
                    w.bad('silo', f'{what}: store {spec}: {p}')
            g = a.get(r.out.decode().strip(), '-q')
            if not g.ok() or g.out != gen('r70.m' if spec == 'M' else spec):
                w.bad('get', f'{what}: store {spec}: then get: {g.status()} {g.err[-200:]!r}')
        for rid, o in wd.objs.items():
            r = a.get(a.prefix + rid, '-q')
            if not r.ok() or r.out != o['content']:
                w.bad('get', f'{what}: then get {rid}: {r.status()} {r.err[-200:]!r}')
    w.count('traces')


def step(w, h, w0, op, r, w1):
    hist.step_ack(w, h, w0, op, r, w1)
    a = h.arch(w, w0.conf)
    what = f'after {w0.path}: {op}'
    if op[0] in ('store', 'meta'):
        judge_store(w, a, w0.snap, w1.snap, what)
    elif op[0] == 'run' and op[1] == 'mksilo':
        n = int(op[2])
        free = n not in nos(w0.snap) and n not in nos(w0.snap, hold=True)
        if r.ok() != free or nos(w1.snap) - nos(w0.snap) != ({n} if free else set()):
            w.bad('mksilo', f'{what}: {r.status()} makes {nos(w1.snap) - nos(w0.snap)}')


def state(w, h, wd, a):
    what = f'after {wd.path}'
    v = warc.View(wd.snap, a, max_size=4096)
    for p in v.problems[:1]:
        w.bad('silo', f'{what}: {p}')
    if v.silos:
        everything(w, a, wd, v, what)


H = hist.make('c22h', confs=({'max_size': '4k'},), step=step, state=state)
ALPHA = [['store', SMALL], ['store', OTHER], ['store', SEG], ['store', BIG], ['meta', SMALL, 'r3100.m'], ['run', 'mksilo', '1'], ['run', 'mksilo', '3'], ['run', 'mksilo', '100'],
         ['touch', '0/00000001.warc.gz.hold', '78'], ['touch', '0/00000002.warc.gz.hold', '78'], ['rm', '0/00000001.warc.gz.hold'], ['rm', '_.cache'], ['put', '_.cache', be(1, 0).hex()], ['put', '_.cache', be(99, 1).hex()], ['ro', 1], ['hk']]
BASE = {'some': [['store', SMALL], ['store', SEG], ['store', OTHER], ['meta', SMALL, 'r100.m']], 'gaps': [['store', SMALL], ['run', 'mksilo', '3'], ['store', SEG], ['hk'], ['store', OTHER]],
        'hundred': [['store', SMALL], ['put', '_.cache', be(98, 0).hex()], ['store', 'r20000.z']]}


def alphabet(wd, d):
    for op in ALPHA:
        if op[0] == 'meta' and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'rm' and op[1] not in wd.snap.files or op[0] == 'touch' and op[1] in wd.snap.files or op[0] == 'put' and op in wd.path:
            continue
        if op[0] == 'hk' and 'index.appendix' not in wd.snap.files:
            continue
        yield op


def check(ctx):
    nums = []
    for lo, hi in ctx.n(((0, 7), (94, 110), (190, 204), (9990, 10012), (99998, 100003), (999993, 1000004), (99999994, 100000004), (2147483643, 2147483653), (4294967285, 4294967296)),
                        ((0, 1300), (9800, 10300), (19990, 20010), (99900, 100100), (999900, 1000100), (99999900, 100000100), (999999990, 1000000010), (2147483600, 2147483700), (4294967200, 4294967296))):
        nums += [dict(lo=i, hi=min(i + 4, hi)) for i in range(lo, hi, 4)]
    for bn in ('%u.warc.gz', 'silo-%05u.gz', '%x.w', 'a%ub.c'):
        nums += [dict(lo=n, hi=n + 3, basename=bn, all=1) for n in (0, 9, 15, 98, 255, 9998, 99999, 999998, 4294967283)]
    ctx.explore(c22_number, nums)
    bad = [[x] for x in ('', 'x', 'abc', '0x', '12x', '1 2', ' ', '-1', '-', '--', '4294967296', '4294967297', '18446744073709551616', '99999999999999999999999', '1.5', '1e3', '+', '1,2', '0 ', '-0x1', '-4294967295')] + [[], ['1', '2'], ['7', 'x']]
    ctx.explore(c22_noname, [dict(args=bad[i::4]) for i in range(4)])
    caches = [None, be(0, 0).hex(), be(1, 0).hex(), be(2, 1).hex(), be(4, 0).hex(), be(0, 3).hex(), be(100, 2).hex(), be(3, 100).hex()]
    if not ctx.quick:
        caches += [be(2, 0).hex(), be(3, 0).hex(), be(3, 3).hex(), be(1, 1).hex(), be(5, 5).hex(), be(4, 2).hex(), be(10000, 9990).hex(), be(99, 0).hex(), be(0xffffffff, 0xfffffff0).hex(), '00000001', be(0, 1).hex() + '0000', be(2, 2).hex()]
    ops = [['store', SMALL], ['store', SEG], ['store', BIG], ['mksilo', '1'], ['mksilo', '2']]
    ctx.explore(c22_sets, [dict(set=list(s), caches=caches, ops=ops) for s in itertools.product(STATES, repeat=ctx.n(3, 4))], chunk=2)
    vals = [0, 1, 2, 3, 4, 5, 6, 98, 99, 100, 101, 102, 9999, 10000, 10001]
    cc = ['', '00', '00000003', be(3).hex() + '000000', be(1, 1).hex() + '00', be(5, 5, 5).hex(), 'dir', be(0xffffffff, 0xffffffff).hex(), be(0xffffffff, 0xfffffff0).hex(), be(0, 0xffffffff).hex()]
    cc += [be(x, y).hex() for x in vals for y in vals if not ctx.quick or x in (0, 2, 5, 99, 100, 10000) or y == 0]
    ctx.explore(c22_cache, [dict(base=b, caches=cc[i::8]) for b in BASE for i in range(8)])
    ctx.bound(f'{len(nums)} groups of silo numbers; {len(STATES)}^{ctx.n(3, 4)} sets of silos with {len(caches)} caches and {len(ops)} operations; {len(cc)} caches in {len(BASE)} archives')
    H.bfs(ctx, alphabet, ctx.n(3, 5), limit=ctx.n(4000, 20000))
