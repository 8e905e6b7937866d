"""C17: filter classifies every ID correctly."""
import itertools, os
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist
from mc.states import MANY

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of input sequences against the real program: every sequence of lines up to a length over an alphabet of present, absent, neighbouring, repeated and re-written IDs, in every arrangement of the index (appendix, sorted, split, interrupted housekeeping, duplicate entries), under every option; judged against the objects an independent parser finds in the silos'
NOTE = 'Sequences to length 3 over 13 lines (thorough 4 over 14), all permutations of all IDs, repetitions up to thousands of lines; ID lengths 64..256 bits; eight index arrangements; all sources and destinations.'
ASSUMPTIONS = ['a line is an ID, optionally with prefix and followed by other text; other lines are refused', 'lines shorter than the C library buffer (8192)']

# three metadata objects with forced IDs that share 24 digits and more
P24 = 'abcdef0123456789abcdef01'
FORCED = [(P24 + c * 40) for c in '1f']
OBJ = [['store', 'r300.a'], ['store', 'r7000.d'], ['meta', 'r300.a', 'r60.m'], ['metai', 'r300.a', 'r61.f', FORCED[0]], ['metai', 'r300.a', 'r62.g', FORCED[1]]]
ARR = {
    'app': OBJ, 'hk': OBJ + [['hk']], 'split': OBJ[:2] + [['hk']] + OBJ[2:], 'split2': OBJ[:4] + [['hk']] + OBJ[4:], 'left': OBJ[:1] + [['hk']] + OBJ[1:3] + [['mv', 'index.appendix', 'index.housekeep']] + OBJ[3:],
    'lefthalf': OBJ[:3] + [['mv', 'index.appendix', 'index.housekeep']] + OBJ[3:], 'many': OBJ + [['touch', 'index.appendix', MANY], ['hk']], 'dup': None, 'one': OBJ[:1], 'none': [],
}
BITS = [64, 80, 96, 104, 128, 160, 256]


def fit(ops, n):
    """forced IDs of this length"""
    return [op[:3] + [op[3][:n]] if op[0] == 'metai' else op for op in ops]


HS = {b: hist.make(f'c17_{b}', confs=({'max_size': '4k', 'id_bits': b},)) for b in BITS}


def world(w, case):
    h = HS[case.get('bits', 128)]
    n = case.get('bits', 128) // 4
    if case['arr'] == 'dup':
        # housekeeping was interrupted: the same entries in two files
        wd = h.build(w, OBJ if n >= 32 else OBJ[:3])
        app = wd.snap.files['index.appendix'][2].hex()
        wd, _ = h.apply(w, wd, ['hk'])
        wd, _ = h.apply(w, wd, ['put', 'index.housekeep', app])
        wd, _ = h.apply(w, wd, ['put', 'index.appendix', app[:64 * 3]])
        return h, wd
    ops = ARR[case['arr']]
    if n < 32:
        # forced IDs would be the same
        ops = [op for op in ops if op[0] != 'metai']
    return h, h.build(w, fit(ops, n))


def near(rid, i):
    """an ID with hex digit i made one more"""
    return rid[:i] + '%x' % ((int(rid[i], 16) + 1) % 16) + rid[i + 1:]


def lines(wd, a, v):
    """the alphabet: lines (without newline)"""
    n = a.id_len
    obj = sorted(v.objs)
    other = sorted({r.rid for l in v.silos.values() for r in l} - set(obj))
    out = list(obj) + other[:2] + ['0' * n, 'f' * n]
    if obj:
        out += [near(obj[0], min(23, n - 1)), near(obj[-1], n - 1), a.prefix + obj[-1], obj[0].upper()]
    if n >= 32:
        out += [P24 + '7' * (n - 24)]
    return list(dict.fromkeys(out))


def model(v, a, args, ls):
    """what filter must print"""
    ids = set(v.objs)
    k24 = {x[:24] for x in ids}
    out = []
    for l in ls:
        if l == '':
            continue
        i = l[len(a.prefix):] if l.lower().startswith(a.prefix.lower()) else l
        i = i[:a.id_len].lower()
        there = i in ids if '-s' in args else i[:24] in k24
        if '-v' in args:
            out.append(f'{int(there)} {l}\n')
        elif there == ('-r' in args):
            out.append(l + '\n')
    return ''.join(out).encode()


OPTS = [(), ('-r',), ('-v',), ('-s',), ('-r', '-s'), ('-s', '-v'), ('-r', '-v'), ('-r', '-s', '-v')]


def one(w, a, v, args, ls, what, via='stdin'):
    data = ''.join(l + '\n' for l in ls).encode()
    want = model(v, a, args, ls)
    got = None
    if via == 'stdin':
        r = a.op('filter', *args, stdin=data)
    elif via == 'dash':
        r = a.op('filter', *args, '-', stdin=data)
    elif via == 'o':
        r = a.op('filter', *args, '-o', a.dir + '/fo', stdin=data)
        if r.ok():
            got = open(a.dir + '/fo', 'rb').read()
            if r.out:
                w.bad('stdout', f'{what}: filter -o prints {r.out[:100]!r}')
            os.unlink(a.dir + '/fo')
    else:       # split over files, one of them stdin
        k = via
        fs = []
        parts = [ls[i::k] for i in range(k)] if False else [ls[i * len(ls) // k:(i + 1) * len(ls) // k] for i in range(k)]
        for i, p in enumerate(parts):
            with open(f'{a.dir}/f{i}', 'w') as f:
                f.write(''.join(l + '\n' for l in p))
            fs.append(f'{a.dir}/f{i}')
        sin = b''
        if k == 3:
            sin = ''.join(l + '\n' for l in parts[1]).encode()
            fs[1] = '-'
        r = a.op('filter', *args, *fs, stdin=sin)
    if got is None:
        got = r.out
    w.count('transitions')
    if not r.ok():
        w.bad('fails', f'{what}: filter {args} via {via} of {show(ls)}: {r.status()} {r.err[-200:]!r}')
    elif got != want:
        w.bad('differs', f'{what}: filter {args} via {via} of {show(ls)} prints {got[:300]!r}, not {want[:300]!r}')


def show(ls):
    return repr(ls[:6]) + (f'... {len(ls)}' if len(ls) > 6 else '')


@family
def c17_seq(w, case):
    """all sequences of lines that start with a given one"""
    h, wd = world(w, case)
    a = h.arch(w, 0)
    a.restore(wd.snap)
    v = warc.View(wd.snap, a)
    al = lines(wd, a, v)
    if case['i'] >= len(al):
        return
    al0, al = al, al if not case.get('narrow') else al[:3] + al[-5:]
    for d in range(case['depth']):
        for rest in itertools.product(al, repeat=d):
            ls = [al0[case['i']], *rest]
            for o in (OPTS if d < 2 else case['opts']):
                one(w, a, v, o, ls, f'{case["arr"]}/{case.get("bits", 128)}')
    w.count('traces')
    w.seen('states', (case['arr'], case.get('bits'), wd.key()[:12]))


@family
def c17_perm(w, case):
    """all orders of all IDs; repetitions; long lists"""
    h, wd = world(w, case)
    a = h.arch(w, 0)
    a.restore(wd.snap)
    v = warc.View(wd.snap, a)
    al = lines(wd, a, v)
    what = f'{case["arr"]}/{case.get("bits", 128)}'
    if not case['long']:
        sub = al[:3] + al[-3:]
        for p in itertools.permutations(sub):
            one(w, a, v, OPTS[sum(map(len, p)) % 8 if False else hash_of(p) % 8], list(p), what)
    for rep in (case['reps']):
        for order in (al, al[::-1], sorted(al, key=str.lower), sorted(al, key=str.lower, reverse=True)):
            for o in OPTS:
                one(w, a, v, o, order * rep, what + f' x{rep}')
                one(w, a, v, o, [x for x in order for _ in range(rep)], what + f' each x{rep}')
    # lots of absent IDs around the present ones
    if case['long']:
        n = a.id_len
        for k in (100, 3000, *case.get('more', ())):
            extra = [sha(b'n%d' % i)[:n] for i in range(k)]
            for ls in (extra + al, al + extra, sorted(extra + al, key=str.lower), [x for i, e in enumerate(extra) for x in (e, al[i % len(al)])]):
                for o in OPTS[::1 if k < 10000 else 3]:
                    one(w, a, v, o, ls, what + f' with {k} others')
    w.count('traces')
    w.seen('states', (case['arr'], case.get('bits'), 'perm', wd.key()[:12]))


def hash_of(p):
    return int(sha(repr(p).encode())[:8], 16)


@family
def c17_via(w, case):
    """sources and destinations, forms of lines"""
    h, wd = world(w, case)
    a = h.arch(w, 0)
    a.restore(wd.snap)
    v = warc.View(wd.snap, a)
    al = lines(wd, a, v)
    mix = [a.prefix.upper() + al[0], '', al[0] + ' some text', al[-1].upper(), a.prefix + al[1] + ' x', '', al[0] + 'z', al[2] + '\t' + 'y' * 5000]
    for ls in (al, al[::-1], mix, [], al[:1], al[:2], ['']):
        for via in ('stdin', 'dash', 'o', 1, 2, 3, 5):
            for o in OPTS:
                one(w, a, v, o, ls, f'{case["arr"]}', via)
    # options may come in any form and be taken back
    data = ''.join(l + '\n' for l in al).encode()
    for args, same in ((('-rv',), ('-r', '-v')), (('-r', '-r'), ()), (('-s', '-s', '-r'), ('-r',)), (('-vsr',), ('-r', '-s', '-v'))):
        r = a.op('filter', *args, stdin=data)
        w.count('transitions')
        if not r.ok() or r.out != model(v, a, same, al):
            w.bad('options', f'filter {args}: {r.status()}, other output than filter {same}')
    # refused: nothing may be said about any ID
    bad = [[al[0][:-1]], ['x' * a.id_len], [al[0][:-1] + 'g'], ['file://ey/' + al[0]], [a.prefix + a.prefix + al[0]], ['y' * 9000], [al[0] + 'z' * 8192], [' ' + al[0]]]
    for b in bad:
        for ls in (b, al + b, b + al):
            for o in OPTS:
                data = ''.join(l + '\n' for l in ls).encode()
                for out in ((), ('-o', a.dir + '/fo')):
                    r = a.op('filter', *o, *out, stdin=data)
                    w.count('transitions')
                    if r.ok() or r.out or r.kind != 'exit':
                        w.bad('accepted', f'filter {o} of {show(ls)}: {r.status()} {r.out[:200]!r}')
                    if out and os.path.exists(out[1]):
                        if os.path.getsize(out[1]):
                            w.bad('accepted', f'filter {o} {out} of {show(ls)} writes')
                        os.unlink(out[1])
    for args in (('-', '-'), (a.dir + '/nonexistent',), ('-x',), ('-h',), ('-o', a.dir + '/no/dir', '-')):
        r = a.op('filter', *args, stdin=data)
        if r.ok() or r.kind != 'exit' or r.out and args[0] != '-h':
            w.bad('args', f'filter {args}: {r.status()} {r.out[:100]!r}')
    if a.snap().canon() != wd.snap.canon():
        w.bad('changed', f'{case}: filter changed the archive')
    w.count('traces')


@family
def c17_files(w, case):
    """all orders of some lines, in every distribution over successive files"""
    h, wd = world(w, case)
    a = h.arch(w, 0)
    a.restore(wd.snap)
    v = warc.View(wd.snap, a)
    al = lines(wd, a, v)
    sub = [al[0], al[1], al[-1], al[-3]][:case['n']] + al[2:case['n'] - 2]
    for p in itertools.permutations(dict.fromkeys(sub)):
        for cut in range(1 << (len(p) - 1)):
            parts = [[p[0]]]
            for i, l in enumerate(p[1:]):
                if cut >> i & 1:
                    parts.append([])
                parts[-1].append(l)
            for empty in (None, 0, len(parts)):
                q = parts if empty is None else parts[:empty] + [[]] + parts[empty:]
                fs = []
                for i, ls in enumerate(q):
                    with open(f'{a.dir}/f{i}', 'w') as f:
                        f.write(''.join(l + '\n' for l in ls))
                    fs.append(f'{a.dir}/f{i}')
                for o in (OPTS[2], OPTS[0]):
                    r = a.op('filter', *o, *fs)
                    want = model(v, a, o, p)
                    w.count('transitions')
                    if not r.ok() or r.out != want:
                        w.bad('differs', f'{case["arr"]}: filter {o} of files {q}: {r.status()}, prints {r.out[:300]!r}, not {want[:300]!r}')
    w.count('traces')


@family
def c17_bytes(w, case):
    """every byte at several places of a line"""
    h, wd = world(w, case)
    a = h.arch(w, 0)
    a.restore(wd.snap)
    v = warc.View(wd.snap, a)
    al = lines(wd, a, v)
    hx = b'0123456789abcdefABCDEF'
    for base in (al[0].encode(), (a.prefix + al[0]).encode()):
        pre = len(base) - a.id_len
        for i in (0, 1, a.id_len // 2, a.id_len - 1, a.id_len):
            for c in range(256):
                if c == 10:
                    continue
                l = base[:pre + i] + bytes([c]) + base[pre + i + 1:]
                data = al[1].encode() + b'\n' + l + b'\n' + al[-1].encode() + b'\n'
                o = ('-v',)
                r = a.op('filter', *o, stdin=data)
                w.count('transitions')
                good = c in hx or i == a.id_len and c != 0
                what = f'filter -v with byte {c:#x} at {i} of {base!r}'
                if not good:
                    if r.ok() or r.kind != 'exit' or r.out:
                        w.bad('accepted', f'{what}: {r.status()} {r.out[:200]!r}')
                elif not r.ok() or r.out != b''.join((b'1 ' if model(v, a, ('-r',), [x.decode('latin1')]) else b'0 ') + x + b'\n' for x in data.split(b'\n')[:-1]):
                    w.bad('differs', f'{what}: {r.status()} {r.out[:200]!r}')
    w.count('traces')


def state(w, h, wd, a):
    v = warc.View(wd.snap, a)
    al = lines(wd, a, v)
    for ls in (al, al[::-1], sorted(al, key=str.lower), al[1::2] + al[::2] + al[:1]):
        for o in OPTS:
            one(w, a, v, o, ls, f'after {wd.path}')


H = hist.make('c17h', confs=({'max_size': '4k'}, {'max_size': '15k'}), state=state)
ALPHA = [['store', 'r300.a'], ['store', 'r7000.d'], ['store', 'z500000'], ['meta', 'r300.a', 'r60.m'], ['meta', 'r300.a', 'r4000.s'], ['metai', 'r300.a', 'r61.f', FORCED[0][:32]], ['metai', 'r300.a', 'r4001.g', FORCED[1][:32]],
         ['hk'], ['mv', 'index.appendix', 'index.housekeep'], ['run', 'mksilo', '120'], ['conf', 1]]


def alphabet(wd, d):
    for op in ALPHA:
        if op[0] in ('meta', 'metai') and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'conf' and wd.conf == op[1] or op[0] in ('hk', 'mv') and 'index.appendix' not in wd.snap.files and 'index.housekeep' not in wd.snap.files:
            continue
        if op[0] == 'mv' and ('index.housekeep' in wd.snap.files or 'index.appendix' not in wd.snap.files):
            continue
        yield op


def check(ctx):
    cases = [dict(arr=arr, i=i, depth=ctx.n(3, 3), opts=[OPTS[2], OPTS[5]] if ctx.quick else OPTS, narrow=ctx.quick) for arr in ARR for i in range(15)]
    cases += [dict(arr='split', bits=b, i=i, depth=2, opts=()) for b in BITS if b != 128 for i in range(15)]
    if not ctx.quick:
        cases += [dict(arr=arr, i=i, depth=4, opts=[OPTS[2], OPTS[5]], narrow=True) for arr in ARR for i in range(15)]
    ctx.explore(c17_seq, cases)
    ctx.explore(c17_perm, [dict(arr=arr, bits=b, long=l, reps=[] if l else [1, 2, 5, 400]) for arr in ARR for b in (BITS if arr in ('split', 'dup', 'left') else (128,)) for l in (False, True)])
    ctx.explore(c17_perm, [dict(arr=arr, bits=b, long=True, reps=[], more=[k]) for arr, b in (('split', 128), ('hk', 256)) for k in ctx.n((70000,), (33000, 70000, 140000, 300000))])
    ctx.explore(c17_via, [dict(arr=arr) for arr in ('app', 'hk', 'left', 'dup')])
    ctx.explore(c17_files, [dict(arr=arr, n=n) for arr in ARR for n in ((4, 5) if arr in ('hk', 'split') or not ctx.quick else (4,))])
    ctx.explore(c17_bytes, [dict(arr=arr, bits=b) for arr, b in (('hk', 128), ('app', 256), ('split', 64))])
    H.bfs(ctx, alphabet, ctx.n(4, 5), limit=ctx.n(4000, 30000))
    ctx.bound(f'sequences of up to {ctx.n(3, 4)} lines in {len(ARR)} index arrangements; {len(BITS)} ID lengths')
