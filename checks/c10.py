"""C10: the index finds exactly the entries that match."""
import os
from mc.gen import gen, sha
from mc import warc, hist
from mc.core import family
from mc.warc import enc_rec, key24

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: breadth-first search over histories of index insertions, snapshots and housekeeping runs, and exhaustive lookup of every entry, its neighbours and its prefixes in enumerated index shapes, against a set as reference model'
NOTE = 'Histories to depth 3 (4) over eleven entries, to depth 5 (7) over three, at the edges of the ID space, each state queried with every prefix of every key and its neighbours; index sizes around every batch and bucket-table boundary up to 33k (200k) entries in seven distributions, every entry and both neighbours looked up. The index format documented in index.c is used to write entries and to read them back.'

S0 = 'a5c31b7790d2468ace13579b'      # queried between the others to see where an answer ends
SENT = enc_rec(S0, 2, 7, 77).hex()


def ent(key, n=0, fl=2, cont='0' * 8):
    return enc_rec(key, fl, n, n * 1000 + 1, cont).hex()


KEYS = ['0' * 24, '0' * 23 + '1', '0' * 22 + '80' , '3' + 'f' * 23, '4' + '0' * 23, '7' + 'f' * 23, '8' + '0' * 23, 'c' + '0' * 22 + '1', 'f' * 24]
ENTS = [ent(k) for k in KEYS] + [ent(KEYS[3], 5), ent(KEYS[6], 0x7fffffff, 0x15, 'deadbeef')]


def near(k):
    n = int(k, 16)
    return ['%024x' % x for x in (n - 1, n, n + 1) if 0 <= x < 1 << 96]


QUERIES = sorted({p[:l] for k in KEYS for p in near(k) for l in (1, 2, 3, 4, 5, 8, 15, 16, 17, 22, 23, 24)} - {'a'})
QUERIES += [QUERIES[-1].upper(), KEYS[3].upper(), KEYS[7] + '0123', KEYS[5][:7].upper(), 'a', 'a5c3', 'A']


def parse(line):
    k, fl, si, off, cont = line.split()
    return (k.decode(), int(fl, 16), int(si), int(off), cont.decode())


def ask(w, a, queries, what, sent=True):
    """answers to queries, one list of entries per query"""
    out = []
    args = []
    for q in queries:
        args += [q, S0]
    r = a.op('dumpindex', *args)
    if not r.ok():
        w.bad('lookup-fails', f'{what}: dumpindex ends with {r.status()}: {r.err[-300:]!r}')
        return None
    cur = []
    lines = [parse(x) for x in r.out.splitlines()]
    s = warc.parse_recs(bytes.fromhex(SENT))[0]
    # an answer that contains the sentinel itself is told apart by its number
    i = 0
    for q in queries:
        cur = []
        inc = S0.startswith(q.lower()) and len(q) < 24
        seen = False
        while i < len(lines):
            x = lines[i]
            i += 1
            if x == s:
                if inc and not seen:
                    seen = True
                    cur.append(x)
                    continue
                break
            cur.append(x)
        out.append(cur)
    return out


def state(w, h, wd, a):
    idx = [e for l in warc.read_index(wd.snap).values() for e in l]
    have = set(idx)
    # the model: everything ever inserted
    want = {warc.parse_recs(bytes.fromhex(op[2]))[0] for op in wd.path if op[0] == 'touch'}
    what = f'after {wd.path}'
    if have != want:
        w.bad('entries', f'{what}: the index holds {sorted(have - want)} which nobody inserted and lacks {sorted(want - have)}')
        return
    qs = QUERIES
    ans = ask(w, a, [q for q in qs if not S0.startswith(q.lower())], what)
    if ans is None:
        return
    ans = dict(zip([q for q in qs if not S0.startswith(q.lower())], ans))
    for q in qs:
        if q not in ans:
            r = a.op('dumpindex', q)
            if not r.ok():
                w.bad('lookup-fails', f'{what}: dumpindex {q} ends with {r.status()}')
                continue
            ans[q] = [parse(x) for x in r.out.splitlines()]
        exp = sorted(e for e in idx if e[0].startswith(q.lower()[:24]))
        if sorted(set(ans[q])) != sorted(set(exp)) or len(ans[q]) > len(exp):
            w.bad('lookup', f'{what}: looking for {q} finds {ans[q]}, not {exp}')
            return
    r = a.op('dumpindex')
    if not r.ok() or sorted(parse(x) for x in r.out.splitlines()) != sorted(idx):
        w.bad('dump', f'{what}: dumpindex ends with {r.status()} and {r.out!r}')


def step(w, h, w0, op, r, w1):
    if op[0] == 'hk' and 'index.appendix' in w0.snap.files:
        if not r.ok():
            w.bad('hk-fails', f'after {w0.path}: housekeeping ends with {r.status()} {r.err[-300:]!r}')
        for n in w1.snap.files:
            if n not in ('index.sorted',) and n.startswith('index'):
                w.bad('hk-left', f'after {w1.path}: {n} is left')


H = hist.make('c10', confs=({'max_size': '4k', 'sort_size': '4k'},), step=step, state=state)


def alphabet(wd, d, ents=ENTS):
    ops = [['touch', 'index.appendix', e] for e in ents]
    if any(n in wd.snap.files for n in ('index.appendix', 'index.housekeep')):
        ops.append(['hk'])
    if 'index.appendix' in wd.snap.files and 'index.housekeep' not in wd.snap.files:
        ops.append(['mv', 'index.appendix', 'index.housekeep'])
    return ops


# ------------------------------------------------------------- large indexes
TOP = 1 << 96


def keys(dist, n):
    if dist == 'hash':
        return [sha(b'%d' % i)[:24] for i in range(n)]
    if dist == 'even':
        return ['%024x' % (i * (TOP // n)) for i in range(n)]
    if dist == 'low':       # all in the first bucket, next to each other
        return ['%024x' % i for i in range(n)]
    if dist == 'high':
        return ['%024x' % (TOP - 1 - i) for i in range(n)]
    if dist == 'two':       # two clusters far from where their numbers say
        return ['%024x' % ((TOP // 4 * (1 if i < n // 10 else 3)) + i * 977) for i in range(n)]
    if dist == 'same':      # few keys, many entries each
        return [sha(b'%d' % (i % 3))[:24] for i in range(n)]
    if dist == 'upper':     # in the last quarter of each sixteenth
        return ['%024x' % (TOP // 16 * (i % 16) + TOP // 64 * 3 + i * 977) for i in range(n)]
    if dist == 'edge':      # around each 1/64 of the ID space
        return ['%024x' % ((TOP // 64 * (i % 64) + (i // 64) - 8) % TOP) for i in range(n)]
    raise ValueError(dist)


@family
def c10_shape(w, case):
    """n entries in a distribution, divided over housekeeping runs; everything is looked up"""
    n, dist, parts, ss = case['n'], case['dist'], case['parts'], case['ss']
    a = w.arch('c10s', max_size='4k', **({'sort_size': ss} if ss else {}))
    ks = keys(dist, n)
    recs = [(k, 2, i & 0xffff, i + 1, '%08x' % (i * 7 & 0xffffffff)) for i, k in enumerate(ks)]
    # in a fixed order that is not sorted
    order = sorted(range(n), key=lambda i: (i * 2654435761) & 0xffffffff)
    recs = [recs[i] for i in order]
    what = f'{case}'
    pos = 0
    sent = warc.parse_recs(bytes.fromhex(SENT))[0]
    done = [sent]
    with open(a.silo + '/index.appendix', 'ab') as f:
        f.write(bytes.fromhex(SENT))
    for pi, p in enumerate(parts):
        k = n - pos if pi == len(parts) - 1 else int(n * p)
        blk = recs[pos:pos + k]
        pos += k
        with open(a.silo + '/index.appendix', 'ab') as f:
            f.write(b''.join(enc_rec(*r) for r in blk))
            if case.get('dup'):
                f.write(b''.join(enc_rec(*r) for r in recs[:min(pos, case['dup'])]))
        done += blk
        r = a.op('housekeeping')
        w.count('transitions')
        if not r.ok():
            w.bad('hk-fails', f'{what}: housekeeping ends with {r.status()} {r.err[-300:]!r}')
            return
        left = [x for x in os.listdir(a.silo) if x.startswith('index') and x != 'index.sorted']
        if left:
            w.bad('hk-left', f'{what}: housekeeping leaves {left}')
            return
        with open(a.silo + '/index.sorted', 'rb') as f:
            try:
                got = warc.parse_sorted(f.read())
            except warc.Bad as e:
                w.bad('sorted', f'{what}: {e}')
                return
        if set(got) != set(done):
            miss, more = set(done) - set(got), set(got) - set(done)
            w.bad('entries', f'{what}: housekeeping lost {len(miss)} entries {sorted(miss)[:2]} and made up {len(more)} {sorted(more)[:2]}')
            return
    w.count('traces')
    w.seen('states', (n, dist, tuple(parts), ss, case.get('dup')))
    byk = {}
    for r in done:
        byk.setdefault(r[0], []).append(r)
    srt = sorted(byk)
    qs = {}
    step = max(1, len(srt) * 3 // case.get('maxq', 10**9))
    for i, k in enumerate(srt):
        if i % step and i > 200 and i < len(srt) - 200:
            continue
        for q in near(k):
            qs[q] = byk.get(q, [])
    # prefixes: lengths that select a few entries
    import bisect
    for k in srt[::max(1, len(srt) // 40)] + srt[-1:]:
        for l in range(1, 24):
            p = k[:l]
            lo = bisect.bisect_left(srt, p)
            hi = bisect.bisect_right(srt, p + 'f' * (24 - l))
            if hi - lo < 300 or l == 1 and case.get('ss') == '2m' and k in srt[-1:]:
                qs[p] = [e for x in srt[lo:hi] for e in byk[x]]
    qs = {q: e for q, e in qs.items() if not S0.startswith(q)}
    ql = sorted(qs)
    if case.get('rest'):        # some entries not housekept yet
        extra = [('%024x' % (i * (TOP // 9)), 3, 1, i, '0' * 8) for i in range(9)]
        with open(a.silo + '/index.appendix', 'ab') as f:
            f.write(b''.join(enc_rec(*r) for r in extra))
        for e in extra:
            qs[e[0]] = byk.get(e[0], []) + [e]
        for p in list(qs):
            if len(p) < 24:
                qs[p] = qs[p] + [e for e in extra if e[0].startswith(p)]
        ql = sorted(qs)
    for i in range(0, len(ql), 1000):
        ans = ask(w, a, ql[i:i + 1000], what)
        if ans is None:
            return
        w.count('lookups', len(ans))
        for q, x in zip(ql[i:i + 1000], ans):
            if sorted(set(x)) != sorted(set(qs[q])) or len(x) > len(qs[q]) and not case.get('dup'):
                w.bad('lookup', f'{what}: looking for {q} finds {x[:3]}, not {qs[q][:3]}')
                return
    w.sample(what)


@family
def c10_shared(w, case):
    """IDs that agree in the 24 digits the index keeps: each is found, whatever is housekept when"""
    n, hks, perm = case['n'], case['hk'], case['perm']
    a = w.arch('c10m', max_size='4k')
    ref = a.store(gen('r300.a')).out.decode().strip()
    base = sha(b'shared')[:24]
    ids = [base + t for t in ('00000000', '00000001', '7fffffff', 'ffffffff')][:n]
    what = f'{case}'
    objs = {}
    for j, i in enumerate(perm):
        c = b'%d' % i * (50 if i != 1 else 4000)
        r = a.op('store', '-t', 'metadata', '-m', 'text/plain', '-r', ref, '-i', ids[i], stdin=c)
        if not r.ok():
            w.bad('store-fails', f'{what}: {r.status()} {r.err[-300:]!r}')
            return
        objs[ids[i]] = c
        if hks >> j & 1:
            a.must('housekeeping')
        w.count('transitions')
        w.seen('states', (tuple(perm[:j + 1]), hks & ((1 << (j + 1)) - 1)))
        for x in ids:
            r = a.get(a.prefix + x, '-q')
            if x in objs and (not r.ok() or r.out != objs[x]):
                w.bad('shared-get', f'{what}: get {x} ends with {r.status()}, {len(r.out)} bytes')
            if x not in objs and (r.ok() or r.out):
                w.bad('shared-ghost', f'{what}: get {x}, which is not stored, ends with {r.status()}, {len(r.out)} bytes')
            r = a.op('byid', '-e', x)
            got = sorted(set(l.split()[1].decode().strip('<>').split('/')[-1] for l in r.out.splitlines() if l.split()[3] != b'continuation'))
            exp = sorted(objs)
            if not r.ok() or got != exp:
                w.bad('shared-byid', f'{what}: byid {x} ends with {r.status()} and {got}, not {exp}')
            r = a.op('filter', '-s', stdin=(a.prefix + x + '\n').encode())
            if not r.ok() or (r.out == b'') != (x in objs):
                w.bad('shared-filter', f'{what}: filter -s {x} ends with {r.status()} and {r.out!r}')
    w.count('traces')


TYPES = {'warcinfo': warc.F_WARCINFO, 'resource': warc.F_RESOURCE, 'metadata': warc.F_METADATA}


@family
def c10_types(w, case):
    """dumpindex -t, with and without an ID, in every arrangement of the index"""
    a = w.arch('c10t', max_size='4k')
    ref = a.must_store(gen('r300.a')).out.decode().strip()
    what = f'{case}'
    for j, (t, c) in enumerate((('resource', 'r7000.d'), ('metadata', 'r200.m'), ('metadata', 'r9000.n'), ('resource', 't500.b'))):
        args = () if t == 'resource' else ('-t', 'metadata', '-m', 'text/plain', '-r', ref)
        a.must('store', *args, stdin=gen(c))
        if case['hk'] >> j & 1:
            a.must('housekeeping')
    idx = sorted(e for l in warc.read_index(a.snap()).values() for e in l)
    w.count('traces')
    w.seen('states', ('types', case['hk']))
    for t, f in TYPES.items():
        for qs in [[]] + [[e[0]] for e in idx] + [[e[0][:1]] for e in idx] + [[idx[0][0], idx[-1][0]]]:
            r = a.op('dumpindex', '-t', t, *qs)
            w.count('transitions')
            exp = sorted(e for q in qs or [''] for e in idx if e[0].startswith(q) and e[1] & f)
            if not r.ok() or sorted(parse(x) for x in r.out.splitlines()) != exp:
                w.bad('types', f'{what}: dumpindex -t {t} {qs} ends with {r.status()} and {r.out[:300]!r}, not {exp[:3]}')
                return


def check(ctx):
    ctx.explore(c10_types, [dict(hk=h) for h in range(16)])
    inits = [[['touch', 'index.appendix', SENT]], [['touch', 'index.appendix', SENT], ['hk']]]
    H.bfs(ctx, alphabet, ctx.n(3, 4), inits=inits)
    few = [ENTS[3], ENTS[-2], ENTS[8]]
    H.bfs(ctx, lambda wd, d: alphabet(wd, d, few), ctx.n(5, 7), inits=inits)
    cases = []
    # sizes around batches of 128 (sort_size 4k) and around the growth of the bucket table
    for dist in ('hash', 'even', 'low', 'high', 'two', 'same', 'edge'):
        for n in (1, 2, 3, 4, 5, 126, 127, 128, 129, 254, 255, 256, 257, 383, 384):
            for parts in ([1], [0.5, 0.5], [0.1, 0.8, 0.1]):
                for rest in (0, 1):
                    cases.append(dict(n=n, dist=dist, parts=parts, ss='4k', rest=rest))
        for n in ctx.n([4096, 16383, 16384, 32768], [4096, 8192, 16382, 16383, 16384, 16385, 32766, 32767, 32768, 65536, 200000]):
            if dist == 'same' and n > 5000:
                continue
            for parts in ctx.n([[1], [0.9, 0.1]], [[1], [0.5, 0.5], [0.9, 0.1], [0.01, 0.99], [0.3, 0.3, 0.4]]):
                cases.append(dict(n=n, dist=dist, parts=parts, ss=None if parts == [1] else '256k', rest=1 if n == 4096 else 0, maxq=ctx.n(4000, 40000)))
        for n, dup in ((300, 300), (5000, 5000), (17000, 2)):
            if dist != 'same':
                cases.append(dict(n=n, dist=dist, parts=[0.5, 0.5], ss='32k', dup=dup, rest=0, maxq=ctx.n(3000, 40000)))
    # the first digit of an ID spans several buckets, and the first of them are empty
    for dist in ('high', 'low', 'two', 'upper') + ctx.n((), ('hash', 'even', 'edge')):
        for n in ctx.n([66000], [65537, 66000, 131073, 270000]):
            cases.append(dict(n=n, dist=dist, parts=[0.9, 0.1], ss='2m', rest=0, maxq=ctx.n(1500, 40000)))
        # a big index is merged again
        cases += [dict(n=n, dist=dist, parts=[0.97, 0.02, 0.01], ss='4m', rest=0, maxq=1500) for n in ctx.n([70000], [70000, 140000])]
    cases.sort(key=lambda c: -c['n'])
    ctx.explore(c10_shape, cases, chunk=1)
    ctx.bound('7 distributions of 1..384 and of up to 32768 (thorough 200000) entries, in 1..3 housekeeping runs, with batches of 128 entries and more, with and without duplicates')
    import itertools
    ctx.explore(c10_shared, [dict(n=n, hk=h, perm=list(p)) for n in (2, 3, 4) for p in itertools.permutations(range(n)) for h in range(1 << n)][:: ctx.n(1, 1)])
    ctx.bound('up to 4 objects whose IDs share 24 digits, stored in every order, housekeeping after every subset of the stores')
