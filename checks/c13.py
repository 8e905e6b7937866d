"""C13: the index can be rebuilt from the silos."""
import itertools, os
from mc.core import family
from mc.gen import gen, sha
from mc import chain, warc, hist
from mc.states import BASES

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: breadth-first search over operation histories; in every archive reached every loss of index files and of index entries (single, prefix, suffix; all subsets of small indexes) is repaired with reindex and judged against the entries an independent parser derives from the silos'
NOTE = 'Histories to depth 3 (5), six ID lengths in fixed scenarios, silos named in every order, archives with objects stored twice, orphaned segments, gaps in the silo numbers and read-only silos.'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories are enumerated exhaustively to the stated depth']


def silos(snap):
    return {k: v for k, v in snap.files.items() if not k.startswith('index') and k != '_.cache'}


def dupes(v):
    return any(len(l) > 1 for l in v.objs.values()) or bool(v.orphans)


def judge(w, wd, a, v, what, args=(), before=None, full=True, forced=False):
    """reindex what is there now, and look"""
    s0 = a.snap()
    old = warc.index_set(s0)
    r = a.op('reindex', *args)
    w.count('transitions')
    s1 = a.snap()
    if not r.ok():
        w.bad('reindex-fails', f'{what}: reindex ends with {r.status()} {(r.out + r.err)[-300:]!r}')
        return
    if silos(s0) != silos(s1):
        w.bad('silos-changed', f'{what}: reindex changed something other than the index')
    try:
        idx = warc.read_index(s1)
    except warc.Bad as e:
        w.bad('index', f'{what}: {e}')
        return
    have = {e for l in idx.values() for e in l}
    want = v.expected_index()
    dup = dupes(v)
    if not dup and (not want <= have or not have <= want | old):
        w.bad('entries', f'{what}: after reindex entries are missing: {sorted(want - have)[:2]} and there are others: {sorted(have - want - old)[:2]}')
    if dup:
        # which copy of a segment follows which does not matter
        places = {(r.silo, r.off, warc.key24(r.rid)) for l in v.objs.values() for o in l for r in o.segs}
        miss = places - {(e[2], e[3], e[0]) for e in have}
        allp = {(r.silo, r.off, warc.key24(r.rid)) for recs in v.silos.values() for r in recs}
        more = {(e[2], e[3], e[0]) for e in have - old} - allp
        if any(op[0] == 'rm' and op[1].endswith('.gz') for op in wd.path):
            # parts of the copies are gone: what is left may be joined in any way that delivers
            miss = set()
        if miss or more:
            w.bad('entries-dup', f'{what}: after reindex entries are missing: {sorted(miss)[:2]} and there are others: {sorted(more)[:2]}')
    r = a.op('dumpindex')
    lines = set(r.out.decode().split('\n')) - {''}
    if not r.ok() or lines != {'%s 0x%08x %8u %12d %s' % e for e in have}:
        w.bad('dump', f'{what}: dumpindex does not list the entries')
    for rid, l in v.objs.items():
        for m in (('-q', '-z') if full else ('-q',)):
            r = a.get(a.prefix + rid, m)
            try:
                got = warc.gunzip_all(r.out)[0] if m == '-z' and r.ok() else r.out
            except warc.Bad:
                got = None
            if not r.ok() or got not in [o.content for o in l]:
                w.bad('get', f'{what}: after reindex get {m} {rid}: {r.status()} {r.err[-200:]!r}')
    if full:
        # again: adds nothing
        r = a.op('reindex', *args)
        s2 = a.snap()
        try:
            again = warc.index_set(s2)
        except warc.Bad as e:
            again = e
        if not r.ok() or silos(s2) != silos(s1) or again != have:
            w.bad('again', f'{what}: a second reindex ends with {r.status()} and changes the archive')
        if not forced and not v.orphans and not any(op[0] == 'metai' or op[0] == 'rm' and op[1].endswith('.gz') for op in wd.path):
            r = a.op('audit')
            if not r.ok() or b'ERROR' in r.out + r.err:
                w.bad('audit', f'{what}: after reindex audit says {(r.out + r.err)[-300:]!r}')
        # and the objects are known
        s2 = a.snap()
        for rid, o in list(wd.objs.items())[:3]:
            if o['type'] == 'resource' and rid in v.objs:
                r = a.store(o['content'])
                if not r.ok() or silos(a.snap()) != silos(s2):
                    w.bad('known', f'{what}: after reindex storing {rid} again stores it again')
                    a.restore(s2)


IDX = ('index.appendix', 'index.housekeep', 'index.sorted')


def state(w, h, wd, a):
    v = warc.View(wd.snap, a, max_size=4096, dups_ok=True)
    for p in v.problems[:1]:
        w.bad('silo', f'after {wd.path}: {p}')
        return
    if not v.silos:
        r = a.op('reindex')
        if not r.ok():
            w.bad('reindex-fails', f'after {wd.path}: reindex of an empty archive: {r.status()} {r.err[-200:]!r}')
        return
    files = [n for n in IDX if n in wd.snap.files]
    for k in range(len(files) + 1):
        for lose in itertools.combinations(files, k):
            a.restore(wd.snap)
            for n in lose:
                os.unlink(os.path.join(a.silo, n))
            judge(w, wd, a, v, f'after {wd.path}, without {list(lose)}')
    # the entries as one appendix, some lost
    ents = sorted(v.expected_index()) if not dupes(v) else sorted({e for l in warc.read_index(wd.snap).values() for e in l if e[2] in v.silos and e[3] < len(wd.snap.files[warc.silo_path(e[2])][2])})
    n = len(ents)
    full = (1 << n) - 1
    if n <= 5:
        masks = set(range(1 << n))
    else:
        masks = {full & ~(1 << i) for i in range(n)} | {(1 << i) - 1 for i in range(n)} | {full & ~((1 << i) - 1) for i in range(n)}
    for m in sorted(masks):
        a.restore(wd.snap)
        for f in files:
            os.unlink(os.path.join(a.silo, f))
        with open(a.silo + '/index.appendix', 'wb') as f:
            f.write(b''.join(warc.enc_rec(*e) for i, e in enumerate(ents) if m >> i & 1))
        if m & 1:       # some as sorted part
            a.must('housekeeping')
        judge(w, wd, a, v, f'after {wd.path}, with entries {m:#x} of {n} left', full=m in (0, 1, full))
    # silos named, in any order
    names = [os.path.join(a.silo, warc.silo_path(no)) for no in sorted(v.silos)]
    if 1 < len(names) <= 4:
        for p in itertools.permutations(names):
            a.restore(wd.snap)
            for f in files:
                os.unlink(os.path.join(a.silo, f))
            judge(w, wd, a, v, f'after {wd.path}, silos {[os.path.basename(x) for x in p]}', args=p, full=False)


H = hist.make('c13h', confs=({'max_size': '4k'},), state=state)
N2 = sha(b'n2')[:32]
ALPHA = [['store', 'r100.a'], ['store', 'r7000.d'], ['store', 'h9000.e'], ['meta', 'r100.a', 'r60.m'], ['meta', 'r100.a', 'r4000.s'], ['metai', 'r100.a', 'r3500.f', N2],
         ['hk'], ['run', 'mksilo', '3'], ['lose'], ['ro', 0], ['rm', '0/00000001.warc.gz']]


def alphabet(wd, d):
    out = []
    for op in ALPHA:
        if op[0] in ('meta', 'metai') and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'rm' and op[1] not in wd.snap.files:
            continue
        if op[0] == 'lose':
            # the same objects will be stored a second time
            fs = [n for n in IDX if n in wd.snap.files]
            if len(fs) == 1:
                out.append(['rm', fs[0]])
            continue
        if op[0] == 'hk' and 'index.appendix' not in wd.snap.files:
            continue
        out.append(op)
    return out


@family
def c13_conf(w, case):
    """other ID lengths, prefixes and many silos"""
    a = w.arch('c13c', max_size=case['max'], id_bits=case['bits'], prefix=case['prefix'])
    wd = hist.World()
    forced = False
    for spec in case['specs']:
        if spec == 'hk':
            a.must('housekeeping')
        elif spec[0] == '+':
            a.must('mksilo', spec[1:])
        elif spec[0] == 'I':
            fid, _, s = spec[1:].partition(':')
            r = a.op('store', '-t', 'metadata', '-m', 'text/plain', '-r', a.prefix + hist.res_id(gen('r100.a'), a.id_len), '-i', (fid + '0' * 64)[:a.id_len], stdin=gen(s))
            forced = True
            if not r.ok():
                w.bad('store-fails', f'{case}: {spec}: {r.status()} {r.err[-300:]!r}')
        elif spec[0] == 'M':
            r = a.op('store', '-t', 'metadata', '-m', 'text/plain', '-r', a.prefix + hist.res_id(gen('r100.a'), a.id_len), stdin=gen(spec[1:]))
            if not r.ok():
                w.bad('store-fails', f'{case}: {spec}: {r.status()} {r.err[-300:]!r}')
        else:
            r = a.store(gen(spec))
            if not r.ok():
                w.bad('store-fails', f'{case}: {spec}: {r.status()} {r.err[-300:]!r}')
            wd.objs[hist.res_id(gen(spec), a.id_len)] = hist.O(type='resource', spec=spec)
    snap = a.snap()
    v = warc.View(snap, a)
    for p in v.problems[:1]:
        w.bad('silo', f'{case}: {p}')
        return
    want = v.expected_index()
    if warc.index_set(snap) != want:
        w.bad('original', f'{case}: the original index is not what the silos ask for')
    w.seen('states', str(case))
    for lose in ([n for n in IDX if n in snap.files], [n for n in IDX if n in snap.files][:1]):
        a.restore(snap)
        for n in lose:
            os.unlink(os.path.join(a.silo, n))
        judge(w, wd, a, v, f'{case} without {lose}', forced=forced)
    # the silos named
    names = [os.path.join(a.silo, warc.silo_path(no)) for no in sorted(v.silos)]
    for args in (names, names[::-1], names[1::2] + names[::2]):
        a.restore(snap)
        for n in IDX:
            if n in snap.files:
                os.unlink(os.path.join(a.silo, n))
        judge(w, wd, a, v, f'{case} without index, silos {[os.path.basename(x) for x in args]}', args=args, full=False)
    # silos named one by one, and nothing lost
    if not dupes(v):
        for no in sorted(v.silos)[::max(1, len(v.silos) // 12)]:
            a.restore(snap)
            r = a.op('reindex', os.path.join(a.silo, warc.silo_path(no)))
            w.count('transitions')
            got = warc.index_set(a.snap())
            if not r.ok() or got != want:
                w.bad('intact', f'{case}: reindex of silo {no} alone, with nothing lost, gives {r.status()}, {len(got - want)} entries too many: {sorted(got - want)[:2]}, {len(want - got)} missing')
    # one silo's entries lost, and that silo named
    if not dupes(v):
        for no in sorted(v.silos)[::max(1, len(v.silos) // 8)]:
            a.restore(snap)
            for n in IDX:
                if n in snap.files:
                    os.unlink(os.path.join(a.silo, n))
            with open(a.silo + '/index.appendix', 'wb') as f:
                f.write(b''.join(warc.enc_rec(*e) for e in sorted(want) if e[2] != no))
            before = len(want)
            r = a.op('reindex', *names)
            w.count('transitions')
            got = warc.index_set(a.snap())
            if not r.ok() or got != want:
                w.bad('one-silo', f'{case}: after losing the entries of silo {no}, reindex of the silos gives {r.status()} and {len(got)} of {before} entries')
    w.count('traces')


@family
def c13_split(w, case):
    """two copies of an object, split differently, and objects that share segments; silos named one by one"""
    a = w.arch('c13s', max_size=case['max'][0])
    a.reset()
    wd = hist.World()
    for i, mx in enumerate(case['max']):
        a.configure(max_size=mx)
        for s in case['specs']:
            a.must_store(gen(s))
            wd.objs[hist.res_id(gen(s), a.id_len)] = hist.O(type='resource', spec=s)
        if i + 1 < len(case['max']):
            os.unlink(a.silo + '/index.appendix')
    base = a.snap()
    v = warc.View(base, a, dups_ok=True)
    for p in v.problems[:1]:
        w.bad('silo', f'{case}: {p}')
        return
    have0 = warc.index_set(base)
    for hk in (0, 1):
        for nos in [[no] for no in sorted(v.silos)] + [sorted(v.silos), sorted(v.silos)[::-1]]:
            a.restore(base)
            if hk:
                a.must('housekeeping')
            what = f'{case}{", housekept" * hk}: reindex of silos {nos}'
            r = a.op('reindex', *[os.path.join(a.silo, warc.silo_path(no)) for no in nos])
            w.count('transitions')
            w.seen('states', (str(case), hk, tuple(nos)))
            if not r.ok():
                w.bad('split-fails', f'{what} ends with {r.status()} {r.err[-300:]!r}')
            for after in ('', ', housekept'):
                if after:
                    a.must('housekeeping')
                for rid, o in wd.objs.items():
                    for m in ('-q', '-z'):
                        r = a.get(a.prefix + rid, m)
                        try:
                            got = warc.gunzip_all(r.out)[0] if m == '-z' and r.ok() else r.out
                        except warc.Bad:
                            got = None
                        if not r.ok() or got != o['content']:
                            w.bad('split-get', f'{what}{after}: then get {m} {rid} ends with {r.status()}, {len(got or b"")} of {len(o["content"])} bytes, {r.err[-200:]!r}')
                            break
    w.count('traces')


@family
def c13_perm(w, case):
    """silos named in every order, also in two goes"""
    a = w.arch('c13p', max_size=case['max'])
    a.reset()
    n = a.id_len
    a.must_store(gen('r100.a'))
    ref = a.prefix + hist.res_id(gen('r100.a'), n)
    for x in case['specs']:
        fid, _, sp = x.rpartition(':')
        if fid:
            a.must('store', '-t', 'metadata', '-m', 'text/plain', '-r', ref, '-i', (fid + '0' * 64)[:n], stdin=gen(sp))
        else:
            a.must_store(gen(sp))
    base = a.snap()
    v = warc.View(base, a)
    for p in v.problems[:1]:
        w.bad('silo', f'{case}: {p}')
        return
    want = v.expected_index()
    nos = sorted(v.silos)
    for k in [n for n in IDX if n in base.files]:
        os.unlink(os.path.join(a.silo, k))
    bare = a.snap()
    if len(nos) > case.get('most', 7):
        raise RuntimeError(f'{case}: {len(nos)} silos')
    # the first holds only the small object
    for p in itertools.permutations(nos[1:]):
        if p[0] not in case['first']:
            continue
        p = (nos[0], *p) if p[-1] & 1 else (*p, nos[0])
        a.restore(bare)
        r = a.op('reindex', *[os.path.join(a.silo, warc.silo_path(no)) for no in p])
        w.count('transitions')
        w.seen('states', (str(case['specs']), p))
        got = warc.index_set(a.snap())
        if not r.ok() or got != want:
            w.bad('perm', f'{case["specs"]} in silos of {case["max"]}: reindex of silos {p} ends with {r.status()}, {len(want - got)} entries missing, others: {sorted(got - want)[:2]}')
            break
    w.count('traces')


@family
def c13_chain(w, case):
    """objects in very many segments"""
    a = w.arch('c13n', max_size=str(chain.MAX))
    s = chain.make(w, a, case['n'], case['first'])
    a.must_store(gen(s))
    if case['two']:
        t = chain.make_more(s, 'y')
        a.must_store(gen(t))
    base = a.snap()
    v = warc.View(base, a)
    want = v.expected_index()
    what = f'{s} in silos of {chain.MAX}' + (f' from {case["first"]} on' if case['first'] else '') + ', and another' * case['two']
    w.seen('states', (what, len(want)))
    for k in [n for n in IDX if n in base.files]:
        os.unlink(os.path.join(a.silo, k))
    bare = a.snap()
    nos = sorted(v.silos)
    name = lambda l: [os.path.join(a.silo, warc.silo_path(no)) for no in l]
    orders = [('all', [[]]), ('named', [name(nos)]), ('backwards', [name(nos[::-1])]), ('odd ones first', [name(nos[1::2] + nos[::2])]), ('by last digit', [name(sorted(nos, key=lambda x: (x % 10, x)))]),
              ('halves swapped', [name(nos[len(nos) // 2:] + nos[:len(nos) // 2])])]
    for what2, goes in orders:
        a.restore(bare)
        for g in goes:
            r = a.op('reindex', *g)
            w.count('transitions')
            if not r.ok():
                w.bad('chain-fails', f'{what}: reindex, {what2}, ends with {r.status()} {r.err[-300:]!r}')
                return
        got = warc.index_set(a.snap())
        if got != want:
            w.bad('chain', f'{what}: reindex, {what2}: {len(want - got)} of {len(want)} entries missing, others: {sorted(got - want)[:2]}; {(r.out + r.err)[-200:]!r}')
            return
        r = a.get(a.prefix + hist.res_id(gen(s), a.id_len), '-q')
        if not r.ok() or r.out != gen(s):
            w.bad('chain-get', f'{what}: after reindex, {what2}, get ends with {r.status()}, {len(r.out)} bytes {r.err[-200:]!r}')
            return
    # one silo named, its entries lost or not
    for no in nos if len(nos) < 45 else sorted({nos[k] for k in (0, 1, 2, 8, 9, 10, 62, 63, 64, 98, 99, 100, 126, 127, 128, 254, 255, 256, -3, -2, -1) if k < len(nos)}):
        for keep in (want, {e for e in want if e[2] != no}):
            a.restore(bare)
            with open(a.silo + '/index.appendix', 'wb') as f:
                f.write(b''.join(warc.enc_rec(*e) for e in sorted(keep)))
            g = name([no]) if keep is want else []
            r = a.op('reindex', *g)
            w.count('transitions')
            got = warc.index_set(a.snap())
            if not r.ok() or got != want:
                w.bad('chain-one', f'{what}: reindex {"of silo" if g else "after losing the entries of silo"} {no} ends with {r.status()}, {len(want - got)} of {len(want)} entries missing, others: {sorted(got - want)[:2]}')
                return
    w.count('traces')


def check(ctx):
    cases = []
    for bits in ctx.n((64, 68, 96, 100, 128, 256), range(64, 257, 4)):
        for prefix in ('file://ex/', 'http://ex.org/long/er/'):
            for specs in (['r100.a', 'r9000.b', 'Mr60.m', 'Mr5000.n', 'hk', 'r20000.c', 'h30000.d'],
                          ['r100.a', '+98', 'r9000.b', 'r15000.c', '+250', 'r12000.d'],
                          ['r100.a', '+7', 'r9000.b', 'r20000.c', '+17', 'r9000.d', '+64', 'r9000.e', 'Mr5000.n'],
                          ['r100.a'] + [f'r{n}.q' for n in range(2800, 4000, 130)],
                          ['r100.a'] + [f'r{n}.q' for n in range(1, 40, 3)] + ['hk'] + [f'r{n}.q' for n in range(41, 60, 3)]):
                cases.append(dict(bits=bits, prefix=prefix, max='4k' if bits < 200 else '5k', specs=specs))
    for n in ctx.n((150, 300, 500), range(100, 501, 20)):
        for bits in (64, 256):
            cases.append(dict(bits=bits, prefix='file://' + 'p' * (n - 8) + '/', max='9k', specs=['r100.a', 'r20000.b', 'Mr60.m', 'Mr20000.n', 'hk', 'h60000.d']))
    for far in ([9999, 10000, 999999, 1000000], [99999999, 100000000, 2**31 - 1, 2**31, 2**32 - 1]):
        cases.append(dict(bits=128, prefix='file://ex/', max='4k', specs=['r100.a', *(f'+{n}' for n in far), 'r9000.b', 'hk', 'r100.c']))
    for bits in (128, 256):
        for k in (0, 7, 8, 11, 15, 16, 19, 23, 24, 27, 31):
            same = '0123456789abcdef0123456789abcdef'[:k]
            for s1, s2 in (('r9000.m', 'r9000.n'), ('r60.m', 'r9000.n'), ('r9000.m', 'r60.n'), ('r5000.m', 'r60.n')):
                for x, y in ('1f', 'f1'):
                    cases.append(dict(bits=bits, prefix='file://ex/', max='4k', specs=['r100.a', f'I{same}{x}:{s1}', f'I{same}{y}:{s2}']))
    ctx.explore(c13_conf, cases)
    ctx.bound(f'{len(cases)} fixed archives: ID lengths, prefixes, many segments, silos 98..260, many objects')
    split = [dict(max=list(m), specs=s) for m in itertools.permutations(('4k', '5k', '6k'), 2) for s in (['r9000.q'], ['r14000.q'], ['h20000.q'], ['r5000.q', 'r9000.q'])]
    # segments in common
    q = '[2000:12000]r12000.q'
    tails = ['', '+r500.a', '+r3000.a', '+r500.b', '+r3000.b', '+r6000.c']
    split += [dict(max=['4k'], specs=[f'r2000.{x}+{q}{s}', f'r2000.{y}+{q}{t}']) for s, t in itertools.combinations(tails, 2) for x, y in ('ab', 'ba')]
    split += [dict(max=['4k'], specs=[f'r2000.a+{q}', f'r2000.b+{q}+r3000.a', f'r2000.c+{q}+r3000.b'])]
    ctx.explore(c13_split, split)
    ctx.bound(f'{len(split)} archives in which copies are split differently, or objects share segments, every silo named alone')
    P = []
    for k in (2, 3, 4, 8, 15, 23):
        same = 'deadbeefdeadbeefdeadbeef'[:k]
        for x, y in ('1f', 'f1'):
            P += [[f'{same}{x}:r8000.m', f'{same}{y}:r8000.n'], [f'{same}{x}:r5000.m', f'{same}{y}:r9000.n'], [f'{same}{x}:r9000.m', f'{same}{y}:r5000.n'], [f'{same}{x}:r4500.m', f'{same}{y}:r4500.n', f'{same}7:r4600.o']]
    P += [['r8000.p', 'r8000.q'], ['r14000.p'], ['r5000.p', 'r5000.q', 'r5000.r']]
    ctx.explore(c13_perm, [dict(max='4k', specs=p, first=[i]) for p in P for i in range(1, 7)])
    ctx.bound(f'{len(P)} archives of up to 7 silos, named in every order')
    ch = [dict(c, two=t) for c in chain.cases(ctx, 300) for t in (0, 1)]
    ctx.explore(c13_chain, ch)
    ctx.bound(f'{len(ch)} archives with objects in up to 300 segments')
    H.bfs(ctx, alphabet, ctx.n(3, 5), limit=ctx.n(4000, 20000))
    twice = [['store', 'r7000.d'], ['rm', 'index.appendix'], ['store', 'r7000.d']]
    H.bfs(ctx, alphabet, ctx.n(1, 3), inits=[twice, twice + [['rm', 'index.appendix'], ['store', 'r7000.d']]], limit=ctx.n(4000, 20000))
    H.bfs(ctx, alphabet, ctx.n(1, 3), inits=[BASES['old'], BASES['oldhalf']], limit=ctx.n(4000, 20000))
    ctx.bound('the same with silos of WARC 1.0 records')
