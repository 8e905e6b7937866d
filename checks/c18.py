"""C18: the stevedore protocol does what the requests say."""
import itertools, os, struct
from mc.core import family
from mc.gen import gen, sha
from mc import build, hist, stv, warc
from mc.stv import MSG, FILTER, DATA, META, msg

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the protocol: every request sequence to a depth over an alphabet of well-formed and malformed messages, every truncation point, every header byte value and every cut into reads of longer conversations, is held with the real program and judged against a model of the protocol and an independent parser of the archive'
NOTE = 'Sequences to depth 4 (thorough 5) over 16 messages, cut short as soon as the model says the request is refused; ten longer conversations truncated at every byte, cut at every (pair of) byte(s), with every value of every header byte; sizes around all buffers; batches beyond the internal limit of 40960 IDs. The schedule between stevedore and its children is the operating system\'s, except that reads can be forced to be cut exactly.'
ASSUMPTIONS = ['IDs stored during a conversation may be answered either way until they are acknowledged', 'unknown request kinds are answered with a message and skipped', 'the children run as scheduled by the operating system']

HS = {b: hist.make(f'c18_{b}', confs=({'max_size': '4k', 'id_bits': b},)) for b in (128, 64, 256)}
BASE = {'none': [], 'one': [['store', 'r300.a']], 'many': [['store', 'r300.a'], ['store', 'r7000.d'], ['hk'], ['meta', 'r300.a', 'r60.m'], ['store', 'r40.e']]}
A, B, N = gen('r300.a'), gen('r5.b'), gen('r301.n')
SYM = {
    'FA': msg(FILTER, sha(A).encode()), 'FB': msg(FILTER, sha(B).encode()), 'FN': msg(FILTER, sha(N)[:32].encode()), 'F0': msg(FILTER),
    'D5': msg(DATA, B), 'D3': msg(DATA, N), 'D0': msg(DATA),
    'MA': msg(META, sha(A).encode()), 'MB': msg(META, sha(B).encode()), 'Mb': msg(META, b'{"some": "thing"}'), 'M0': msg(META),
    # refused or ignored
    'Fs': msg(FILTER, b'0123456789'), 'Fx': msg(FILTER, b'g' * 64), 'X': msg(5, b'hello'), 'G': msg(MSG, b'hello'), 'Mo': msg(META, b'0' * 9000),
}
# longer conversations
CONV = {
    'filter': ['FA', 'FB', 'F0', 'FN', 'F0'],
    'data': ['D5', 'D0', 'D3', 'D5', 'D0'],
    'meta': ['MA', 'Mb', 'M0'],
    'all': ['FA', 'FB', 'F0', 'D5', 'D0', 'MB', 'Mb', 'M0'],
    'mixed': ['D5', 'MA', 'D3', 'Mb', 'FA', 'D0', 'Mb', 'M0', 'F0'],
    'dup': ['D5', 'D0', 'D5', 'D0', 'FB', 'F0'],
    'old': ['D5', 'D3', 'D0', 'X', 'FB', 'FN', 'F0'],
}


def world(w, case):
    h = HS[case.get('bits', 128)]
    wd = h.build(w, BASE[case.get('base', 'one')])
    a = h.arch(w, 0)
    return h, wd, a


def hold(w, a, snap, base, pieces, what, exe=None, slow=1, frame=None, gates=()):
    """One conversation, judged"""
    a.restore(snap)
    stream = b''.join(pieces)
    pl = stv.plan(stream, set(base.objs), a.id_len, a.prefix)
    env = ['ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99'] if exe else []
    t = stv.talk(exe or w.srv.exe, a.confpath, a.dir, pieces, timeout=5 * w.slow * slow, on_frame=frame, env=env, gates=gates)
    w.count('transitions', max(len(stv.frames(stream)[0]), 1))
    w.count('conversations')
    bads = []

    def bad(k, m):
        bads.append(k)
        w.bad(k, m)
    stv.judge(bad, t, pl, a.prefix, a.id_len, what)
    if not t.hung:
        after = a.snap()
        v = warc.View(after, a, dups_ok=True)
        stv.judge_archive(bad, v, base, pl, t, a.prefix, what)
        for o in v.objs.values():
            for x in o[:1]:
                if warc.key24(x.rid) not in {e[0] for e in warc.index_set(after)} and t.rc == 0:
                    bad('index', f'{what}: {x.rid} is not in the index')
        w.seen('states', (after.canon(), pl.end, t.rc == 0, tuple(c for c, d, _ in t.frames if c)))
    w.count(f'requests_{pl.end}')
    return pl, t


@family
def c18_seq(w, case):
    """all continuations of a sequence of messages"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    names = list(SYM)

    def rec(seq):
        if w.bads:
            return
        stream = b''.join(SYM[s] for s in seq)
        pl, t = hold(w, a, wd.snap, base, [stream], '+'.join(seq))
        if len(seq) < case['depth']:
            if pl.end == 'refused' and pl.why != 'ends inside a file' and pl.sure:
                return
            for s in names:
                rec(seq + [s])
    rec(list(case['seq']))
    w.count('traces')


@family
def c18_cut(w, case):
    """a conversation truncated, or cut into reads"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    stream = b''.join(SYM[s] for s in CONV[case['conv']])
    n = len(stream)
    for k in range(case['from'], min(case['to'], n + 1)):
        if w.bads:
            break
        if case['how'] == 'trunc':
            hold(w, a, wd.snap, base, [stream[:k]], f'{case["conv"]} truncated at {k} of {n}')
        elif case['how'] == 'cut':
            hold(w, a, wd.snap, base, [stream[:k], stream[k:]], f'{case["conv"]} cut at {k}')
        else:
            for j in range(k + 1, n, case['step']):
                if w.bads:
                    break
                hold(w, a, wd.snap, base, [stream[:k], stream[k:j], stream[j:]], f'{case["conv"]} cut at {k} and {j}')
    w.count('traces')


@family
def c18_mut(w, case):
    """every value of a header byte (under the address sanitizer)"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    exe = build.aardwarc('asan')
    stream = b''.join(SYM[s] for s in CONV[case['conv']])
    for v in range(*case['vals']):
        if w.bads:
            break
        s = stream[:case['at']] + bytes([v]) + stream[case['at'] + 1:]
        hold(w, a, wd.snap, base, [s], f'{case["conv"]} with {v:#x} at {case["at"]}', exe=exe, slow=3)
    w.count('traces')


@family
def c18_size(w, case):
    """chunks and files of every interesting size"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    exe = build.aardwarc('asan') if case.get('asan') else None
    for n in case['sizes']:
        if case['what'] == 'data':
            body = gen(f'{case["kind"]}{n}.7')
            ch = case['chunk'] or max(n, 1)
            parts = [body[i:i + ch] for i in range(0, n, ch)]
            s = b''.join(msg(DATA, p, cls=3 if case.get('big') else None) for p in parts) + SYM['D0'] + msg(FILTER, sha(body).encode()) + SYM['F0']
            what = f'file of {n} bytes {case["kind"]} in chunks of {ch}'
        elif case['what'] == 'meta':
            body = gen(f'{case["kind"]}{n}.7')
            ch = case['chunk'] or n
            parts = [body[i:i + ch] for i in range(0, n, ch)]
            s = SYM['MA'] + b''.join(msg(META, p, cls=3 if case.get('big') else None) for p in parts) + SYM['M0']
            what = f'metadata of {n} bytes in chunks of {ch}'
        elif case['what'] == 'ref':
            s = msg(META, (sha(A) * 200)[:n].encode() if case['kind'] == 'a' else b'\xff' * n, cls=3 if case.get('big') else None) + SYM['Mb'] + SYM['M0']
            what = f'reference of {n} bytes'
        elif case['what'] == 'id':
            s = msg(FILTER, (sha(A) * 5)[:n].encode(), cls=3 if case.get('big') else None) + SYM['F0'] + SYM['FA'] + SYM['F0']
            what = f'ID of {n} bytes'
        else:
            s = msg(case['cmd'], b'\x42' * n, cls=3 if case.get('big') else None) + SYM['FA'] + SYM['FB'] + SYM['F0']
            what = f'request {case["cmd"]} of {n} bytes'
        hold(w, a, wd.snap, base, [s], what, exe=exe, slow=3)
    w.count('traces')


@family
def c18_batch(w, case):
    """batches of IDs: present and absent ones in patterns"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    here = sorted(base.objs)
    n = case['n']
    ids = []
    for i in range(n):
        k = case['pat'][i * len(case['pat']) // n if case['blocks'] else i % len(case['pat'])]
        ids.append(here[i % len(here)] if k == 'p' else sha(b'absent %d' % (i // 2)))
    fill = (a.id_len - 0)
    fs = [msg(FILTER, (x + '0' * 64)[:case.get('idlen', a.id_len)].encode()) for x in ids]
    stops = set(case.get('ends', ())) | {n}
    out = []
    for i, f in enumerate(fs):
        out.append(f)
        if i + 1 in stops:
            out.append(SYM['F0'])
    cut = case.get('cut')
    s = b''.join(out)
    hold(w, a, wd.snap, base, [s] if not cut else [s[i:i + cut] for i in range(0, len(s), cut)], f'batch of {n} IDs {case["pat"]} ends {sorted(stops)}', slow=4)
    w.count('traces')


@family
def c18_live(w, case):
    """every acknowledged job can be fetched at that moment, and filter knows it"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    seq = [SYM[s] for s in case['seq']]
    stream = b''.join(seq)
    pl = stv.plan(stream, set(base.objs), a.id_len, a.prefix)
    want = {a.prefix + j[1]: j[2] for j in pl.jobs}

    def frame(n, cmd, d):
        if cmd in (DATA, META):
            x = d.decode('latin-1')
            r = a.op('get', x)
            if not r.ok() or r.out != want.get(x):
                w.bad('acked', f'{"+".join(case["seq"])}: {x} is acknowledged, get then: {r.status()} {len(r.out)} bytes {r.err[-200:]!r}')
            r = a.op('filter', '-r', '-s', stdin=x.encode() + b'\n')
            if not r.ok() or not r.out:
                w.bad('acked', f'{"+".join(case["seq"])}: {x} is acknowledged, filter then: {r.status()} {r.out!r}')
            w.count('acks_checked')
    hold(w, a, wd.snap, base, seq if case['cut'] else [stream], 'live ' + '+'.join(case['seq']), frame=frame)
    w.count('traces')


@family
def c18_lock(w, case):
    """every answer is awaited before anything else is sent, whatever else is under way"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    for seq in case['seqs']:
        gates, n = {}, {DATA: 0, META: 0, FILTER: 0}
        for i, s in enumerate(seq):
            if s in ('D0', 'M0', 'F0'):
                n[{'D': DATA, 'M': META, 'F': FILTER}[s[0]]] += 1
                gates[i + 1] = sorted(n.items())
        hold(w, a, wd.snap, base, [SYM[s] for s in seq], 'in lockstep: ' + '+'.join(seq), gates=gates)
        if w.bads:
            break
    w.count('traces')


def shuffles(*ls):
    """all the ways to merge the lists"""
    if not any(ls):
        yield []
    for i, l in enumerate(ls):
        if l:
            for r in shuffles(*ls[:i], l[1:], *ls[i + 1:]):
                yield [l[0]] + r


@family
def c18_conf(w, case):
    """other ID lengths and prefixes; a directory for standard input; options"""
    h, wd, a = world(w, case)
    base = warc.View(wd.snap, a)
    for s in (['FA', 'F0'], ['FB', 'FA', 'FN', 'FA', 'F0'], ['D5', 'D0', 'FB', 'F0', 'MB', 'Mb', 'M0'], ['MA', 'Mb', 'M0', 'MA', 'Mb', 'Mb', 'M0'], CONV['all'], CONV['dup']):
        hold(w, a, wd.snap, base, [b''.join(SYM[x] for x in s)], f'{case["bits"]} bits: ' + '+'.join(s))
    a.restore(wd.snap)
    for args, sin in ((['-x'], b''), (['x'], b''), (['-h'], b'')):
        r = a.op('stevedore', *args, stdin=sin)
        if r.kind != 'exit' or r.code == 0:
            w.bad('options', f'stevedore {args}: {r.status()}')
    r = a.op('stevedore', stdin='file:' + a.dir)
    if r.ok():
        w.bad('accepts', 'stevedore with a directory for standard input ends with status 0')
    if a.snap().canon() != wd.snap.canon():
        w.bad('stored', 'refused stevedore changes the archive')
    w.count('traces')


def check(ctx):
    names = list(SYM)
    d = ctx.n(4, 5)
    cases = []
    for s in itertools.product(names, repeat=2):
        cases.append({'base': 'one', 'seq': list(s), 'depth': d})
    # the ones that go somewhere, one deeper
    good = ['FA', 'FB', 'F0', 'D5', 'D0', 'MA', 'Mb', 'M0']
    for n in names:
        cases.append({'base': 'many', 'seq': [n], 'depth': 3 if ctx.quick else 4})
        cases.append({'base': 'none', 'seq': [n], 'depth': 3 if ctx.quick else 4})
    ctx.explore(c18_seq, cases)
    ctx.bound(f'request sequences over {len(names)} messages to depth {d}')
    # complete jobs in all orders
    jobs = {'f': ['FA', 'F0'], 'g': ['FB', 'F0'], 'F': ['FB', 'FA', 'FN', 'F0'], 'd': ['D5', 'D0'], 'D': ['D3', 'D5', 'D0'], 'm': ['MA', 'Mb', 'M0'], 'M': ['MB', 'Mb', 'Mb', 'M0'], 'x': ['X'], 'G': ['G']}
    live = [p for k in range(1, ctx.n(4, 5)) for p in itertools.product(jobs, repeat=k)]
    ctx.explore(c18_live, [{'base': 'many', 'seq': [s for j in p for s in jobs[j]], 'cut': 0} for p in live if len(p) < 3 or not ctx.quick or 'd' in p or 'm' in p], chunk=4)
    ctx.bound('complete jobs in every order up to %d, with get and filter at every acknowledgement' % ctx.n(3, 4))
    cuts = []
    for c in CONV:
        n = sum(len(SYM[s]) for s in CONV[c])
        for i in range(0, n + 1, 20):
            cuts.append({'conv': c, 'how': 'trunc', 'from': i, 'to': i + 20})
            if c not in ('data', 'dup') or not ctx.quick:
                cuts.append({'conv': c, 'how': 'cut', 'from': i, 'to': i + 20})
        if not ctx.quick or c in ('meta', ):
            for i in range(1, n, 4):
                cuts.append({'conv': c, 'how': 'cut2', 'from': i, 'to': i + 4, 'step': ctx.n(5, 2)})
    ctx.explore(c18_cut, cuts)
    locks = [x for l in ((['D5', 'D3', 'D0'], ['MA', 'Mb', 'M0'], ['FB', 'F0']), (['D5', 'D0'], ['MA', 'Mb', 'Mb', 'M0'], ['FA', 'FN', 'F0']), (['D5', 'D0', 'D3', 'D0'], ['MA', 'M0'][:1] + ['Mb', 'M0']),
                         (['FB', 'F0', 'FA', 'F0'], ['D3', 'D0'], ['MA', 'Mb', 'M0'][:ctx.n(0, 3)])) for x in shuffles(*l)]
    ctx.explore(c18_lock, [dict(base='many', seqs=locks[i:i + 10]) for i in range(0, len(locks), 10)])
    ctx.bound(f'{len(locks)} merges of the messages of a file, metadata and batches of IDs, each answer awaited')
    ctx.bound('every truncation, and every cut into two reads, of %d conversations; pairs of cuts' % len(CONV))
    muts = []
    for c in (('all', 'mixed') if ctx.quick else CONV):
        p = 0
        heads = []
        for s in CONV[c]:
            hl = {0: 1, 1: 1, 2: 2, 3: 5}[SYM[s][0] >> 6]
            heads += [p + i for i in range(hl)]
            p += len(SYM[s])
        for at in heads:
            for v in range(0, 256, 32):
                muts.append({'conv': c, 'at': at, 'vals': [v, v + 32, 1 if not ctx.quick or v in (0, 64, 128, 192) else 3]})
    build.aardwarc('asan')
    ctx.explore(c18_mut, muts)
    ctx.bound('every value of every header byte of %d conversations, with the address sanitizer' % ctx.n(2, len(CONV)))
    sz = []
    edge = sorted({x + k for x in (1, 31, 32, 33, 255, 256, 4000, 8191, 8192, 8193, 16384, 65535, 65536, 65537) for k in (-1, 0, 1) if x + k > 0})
    for kind in 'rz':
        sz.append({'what': 'data', 'kind': kind, 'chunk': 0, 'sizes': edge})
        for ch in (1, 31, 32, 255, 256, 4096, 8192, 131072):
            sz.append({'what': 'data', 'kind': kind, 'chunk': ch, 'sizes': [x for x in edge if x <= ch * 300][::ctx.n(3, 1)]})
    sz.append({'what': 'data', 'kind': 'r', 'chunk': 0, 'big': 1, 'sizes': [1, 2, 32, 255]})
    sz.append({'what': 'data', 'kind': 'z', 'chunk': 131072, 'sizes': [131071, 131072, 131073, 300000, 1048576]})
    sz.append({'what': 'data', 'kind': 'r', 'chunk': 8192, 'sizes': [131072, 200000]})
    for ch in (0, 1, 255, 8192):
        sz.append({'what': 'meta', 'kind': 't', 'chunk': ch, 'sizes': [x for x in edge if ch == 0 or x <= ch * 300][::ctx.n(4, 1)]})
    for kind in 'ab':
        for i in range(0, 4):
            sz.append({'what': 'ref', 'kind': kind, 'asan': 1, 'sizes': ([1, 16, 31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 4095, 4096, 8000, 8189, 8190, 8191, 8192, 8193, 9000, 65536][i::4])})
    for i in range(6):
        sz.append({'what': 'id', 'asan': 1, 'sizes': ([1, 4, 15, 16, 31, 32, 33, 48, 63, 64, 65, 66, 67, 80, 128, 200, 255, 256, 300, 320][i::6])})
        sz.append({'what': 'id', 'asan': 1, 'big': 1, 'sizes': ([1, 31, 32, 64, 65, 320][i::6])})
    for cmd in (4, 5, 6, 7, 0):
        sz.append({'what': 'x', 'cmd': cmd, 'asan': 1, 'sizes': [1, 32, 255, 256, 8191, 8192, 8193, 20000]})
    for bits in (64, 256):
        for kind in ('a', 'x'):
            sz.append({'what': 'ref', 'kind': kind, 'bits': bits, 'sizes': [15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 128, 129, 8189, 8190]})
        sz.append({'what': 'id', 'bits': bits, 'sizes': [8, 15, 16, 17, 18, 32, 63, 64, 65, 66]})
    ctx.explore(c18_size, [dict(c, sizes=[s]) for c in sz for s in c['sizes']], chunk=2)
    b = []
    for n in (1, 2, 9, 10, 11, 100, 1000) + ((40959, 40960, 40961, 41000, 82000) if not ctx.quick else (41500,)):
        for pat in ('p', 'a', 'pa', 'ap', 'ppa', 'aap', 'pppppppppa'):
            for blocks in (0, 1):
                if n > 40000 and ctx.quick and (pat, blocks) not in (('p', 0), ('a', 0), ('pa', 1), ('ap', 0)):
                    continue
                b.append({'base': 'many', 'n': n, 'pat': pat, 'blocks': blocks})
                if n == 100:
                    b.append({'base': 'many', 'n': n, 'pat': pat, 'blocks': blocks, 'ends': [1, 2, 50, 99]})
                    b.append({'base': 'many', 'n': n, 'pat': pat, 'blocks': blocks, 'cut': 50})
                    b.append({'base': 'many', 'n': n, 'pat': pat, 'blocks': blocks, 'idlen': 64, 'ends': [10]})
    for bits in (64, 256):
        for n in (1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 64, 100, 500):
            for pat in ('p', 'a', 'pa', 'aap'):
                b.append({'base': 'many', 'n': n, 'pat': pat, 'blocks': 0, 'bits': bits, 'idlen': 64})
    ctx.explore(c18_batch, b)
    ctx.bound('files and metadata of sizes around all buffers in chunks of many sizes; references, IDs and unknown requests of all edge sizes; batches to %d IDs' % ctx.n(41500, 82000))
    ctx.explore(c18_conf, [{'base': x, 'bits': y} for x in BASE for y in HS])
