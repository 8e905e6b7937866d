"""C20: rebuilding a silo keeps every object."""
import itertools, os, re
from mc.core import family
from mc.gen import gen, sha
from mc import chain, warc, hist
from mc.warc import member
from mc.states import BASES
from checks.c14 import members

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: rebuild is run in every archive reached by breadth-first search over operation histories, and on exhaustively enumerated body sizes, alignments and single defects; its output is judged by an independent WARC reader and, put in place of the silos, by the program itself'
NOTE = 'Every archive of depth 3 (4); every record of it compared field by field, and delivered again from the rebuilt silos after reindex; rebuild of the rebuilt gives the same bytes. Body sizes are swept around 8k, 64k and 128k (input, output and header buffers) for contents of every compressibility, and every alignment of the record boundaries against the 64k input buffer within a window. Every truncation and every flip (quick: one bit per byte) of three silos: exit status 0 only if the records are those of the silo. Records with a WARC-record-digest get it replaced by a right WARC-Block-Digest and ID: bodies up to 300000 bytes, every place of the end of the input buffer.'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories are enumerated exhaustively to the stated depth', 'body digests are not rebuild\'s to verify: a silo with wrong headers is audit\'s business (C14)']


def clean(data):
    """the members of a silo, without the headers that rebuild drops"""
    return [re.sub(rb'(?m)^(z|Content-Length-GZIP): .*\r\n', b'', m) if m.startswith(b'WARC/1.') else m for m in members(data)]


def same(w, what, old, new, no, a, key=''):
    """new is a rebuilt silo with the records of old"""
    try:
        o = warc.parse_silo(old, no, a.prefix, a.id_len)
        n = warc.parse_silo(new, no, a.prefix, a.id_len)
    except warc.Bad as e:
        w.bad(key + 'output', f'{what}: {e}')
        return False
    if [r.rid for r in o] != [r.rid for r in n]:
        w.bad(key + 'records', f'{what}: silo {no} has {[r.rid[:8] for r in o]}, rebuilt {[r.rid[:8] for r in n]}')
        return False
    for x, y in zip(o, n):
        drop = ('content-length-gzip', 'z')
        hx, hy = [{k: v for k, v in r.hdr.items() if k not in drop} for r in (x, y)]
        if hx != hy:
            w.bad(key + 'header', f'{what}: record {x.rid} of silo {no}: {sorted(set(hx.items()) ^ set(hy.items()))}')
            return False
        if x.body != y.body:
            w.bad(key + 'body', f'{what}: record {x.rid} of silo {no}: {len(x.body)} bytes have become {len(y.body)} others')
            return False
    return True


def rebuilt(w, wd, a, what, exe=''):
    """rebuild the archive in place, judge, put the output in place; -> False after trouble"""
    base = a.snap()
    v = warc.View(base, a, dups_ok=True)
    r = a.op('rebuild')
    w.count('transitions')
    if not r.ok():
        w.bad('fails', f'{what}: rebuild ends with {r.status()}: {(r.out + r.err)[-300:]!r}')
        return False
    after = a.snap()
    outs = {p: x for p, x in after.files.items() if p not in base.files}
    if set(outs) != {warc.silo_path(no) + '_' for no in v.silos}:
        w.bad('files', f'{what}: rebuild of silos {sorted(v.silos)} makes {sorted(outs)}')
        return False
    for p in base.files:
        if after.files.get(p) != base.files[p]:
            w.bad('changed', f'{what}: rebuild has changed {p}')
            return False
    for no in v.silos:
        p = warc.silo_path(no)
        if not same(w, what, base.files[p][2], outs[p + '_'][2], no, a):
            return False
        os.rename(os.path.join(a.silo, p) + '_', os.path.join(a.silo, p))
    return True


def state(w, h, wd, a):
    what = f'after {wd.path}'
    v = warc.View(wd.snap, a)
    if not v.silos:
        r = a.op('rebuild')
        if not r.ok() or a.snap().canon() != wd.snap.canon():
            w.bad('empty', f'{what}: rebuild of no silos: {r}')
        return
    if not rebuilt(w, wd, a, what):
        return
    # in use in place of the silos, with an index of their own
    for p in wd.snap.files:
        if p.startswith('index.'):
            os.unlink(os.path.join(a.silo, p))
    r = a.op('reindex')
    if not r.ok():
        w.bad('reindex', f'{what}: reindex of the rebuilt silos ends with {r.status()} {r.err[-300:]!r}')
        return
    hist.check_gets(w, wd, a, ('', '-z'), ', rebuild and reindex')
    r = a.op('audit', '-i', 'ignore-metadata-record-id')
    if not r.ok() or b'ERROR' in r.out + r.err:
        w.bad('audit', f'{what}: audit of the rebuilt silos: {(r.out + r.err)[-300:]!r}')
    s1 = {p: x[2] for p, x in a.snap().files.items() if warc.silo_no(p) is not None}
    if rebuilt(w, wd, a, what + ', again'):
        s2 = {p: x[2] for p, x in a.snap().files.items() if warc.silo_no(p) is not None}
        if s1 != s2:
            w.bad('unstable', f'{what}: rebuild of the rebuilt silos changes {sorted(p for p in s1 if s1[p] != s2.get(p))}')
    # silos by name, in every way
    a.restore(wd.snap)
    names = [os.path.join(a.silo, warc.silo_path(no)) for no in sorted(v.silos)][:2]
    r = a.op('rebuild', *names)
    w.count('transitions')
    for no, p in zip(sorted(v.silos), names):
        try:
            with open(p + '_', 'rb') as f:
                new = f.read()
        except OSError:
            w.bad('named', f'{what}: rebuild {names} makes no {p}_: {r}')
            return
        same(w, what + ', by name', wd.snap.files[warc.silo_path(no)][2], new, no, a, 'named-')
    if not r.ok():
        w.bad('named', f'{what}: rebuild {names} ends with {r.status()}')


@family
def c20_chain(w, case):
    """objects in very many segments, silos with high numbers"""
    a = w.arch('c20n', max_size=str(chain.MAX))
    s = chain.make(w, a, case['n'], case['first'])
    a.must_store(gen(s))
    for n in case['far']:
        a.must('mksilo', str(n))
    what = f'{s} in silos of {chain.MAX}' + (f' from {case["first"]} on' if case['first'] else '')
    w.seen('states', what)
    want = warc.index_set(a.snap())
    if not rebuilt(w, None, a, what):
        return
    os.unlink(os.path.join(a.silo, 'index.appendix'))
    r = a.op('reindex')
    if not r.ok() or len(warc.index_set(a.snap())) != len(want):
        w.bad('reindex', f'{what}: reindex of the rebuilt silos ends with {r.status()} and {len(warc.index_set(a.snap()))} of {len(want)} entries: {(r.out + r.err)[-300:]!r}')
    for m in ('-q', '-z'):
        r = a.get(a.prefix + hist.res_id(gen(s), a.id_len), m)
        try:
            got = warc.gunzip_all(r.out)[0] if m == '-z' and r.ok() else r.out
        except warc.Bad:
            got = None
        if not r.ok() or got != gen(s):
            w.bad('get', f'{what}: after rebuild and reindex, get {m} ends with {r.status()}, {len(r.out)} bytes {r.err[-200:]!r}')
    w.count('traces')


H = hist.make('c20h', confs=({'max_size': '4k'}, {'max_size': '14k'}), state=state)
N2 = sha(b'n2')[:32]
ALPHA = [['store', 'r100.a'], ['store', 'r7000.d'], ['store', 'z500000'], ['store', 'h30000.x'], ['store', 'w900'], ['store', 'g3000'], ['meta', 'r100.a', 'r60.m'], ['meta', 'r7000.d', 'r6000.t'], ['metai', 'r100.a', 'r3500.f', N2],
         ['hk'], ['run', 'mksilo', '3'], ['run', 'mksilo', '120'], ['conf', 1], ['touch', '0/00000001.warc.gz.hold', '00']]


def alphabet(wd, d):
    for op in ALPHA:
        if op[0] in ('meta', 'metai') and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'conf' and wd.conf == op[1] or op[0] == 'hk' and 'index.appendix' not in wd.snap.files:
            continue
        yield op


@family
def c20_size(w, case):
    """one silo with bodies of given sizes, rebuilt"""
    a = w.arch('c20s', max_size=case.get('max', '100m'))
    for specs in case['lists']:
        a.reset()
        for s in specs:
            r = a.store(gen(s))
            if not r.ok():
                w.bad('store-fails', f'{specs}: {r}')
                return
        base = a.snap()
        a.srv, srv = w.server(case.get('kind', 'plain')), a.srv
        try:
            ok = rebuilt(w, None, a, f'{case.get("kind", "plain")} archive with {specs}')
        finally:
            a.srv = srv
        w.seen('states', str(specs))
        if not ok:
            return
    w.count('traces')


@family
def c20_hand(w, case):
    """silos made of gzip members laid out in other ways than this program's own"""
    a = w.arch('c20m', max_size='4k')
    for n in case['sizes']:
        body = gen(f'{case["k"]}{n}')
        info = b'who: me\r\n'
        recs = b''
        for t, b in (('warcinfo', info), ('resource', body), ('resource', body[::-1])):
            h = [('WARC-Record-ID', f'<file://ex/{sha(b)[:32]}>'), ('WARC-Type', t), ('WARC-Date', '2020-02-02T02:02:02Z'), ('Content-Type', 'text/plain'), ('Content-Length', str(len(b))), ('WARC-Block-Digest', 'sha256:' + sha(b))]
            if t == 'warcinfo':
                h.append(('WARC-Filename', '00000000.warc.gz'))
            if case.get('z'):
                h.append(('z', 'x' * (case['z'] + (t == 'resource'))))
            for nm, x in (('Content-Length-GZIP', str(n)),):
                if case.get('clg'):
                    h.append((nm, x))
            recs += member(b'WARC/1.1\r\n' + b''.join(f'{x}: {y}\r\n'.encode() for x, y in h) + b'\r\n', case['comp']) + member(b, case['comp']) + member(b'\r\n\r\n', case['comp'])
        a.reset()
        os.makedirs(a.silo + '/0')
        p = a.silo + '/0/00000000.warc.gz'
        with open(p, 'wb') as f:
            f.write(recs)
        a.srv, srv = w.server(case.get('kind', 'plain')), a.srv
        r = a.op('rebuild')
        a.srv = srv
        w.count('transitions')
        w.seen('states', f'{case} {n}')
        if not r.ok():
            w.bad('fails', f'{case} size {n}: rebuild ends with {r.status()}: {r.err[-300:]!r}')
            return
        with open(p + '_', 'rb') as f:
            new = f.read()
        if not same(w, f'{case} size {n}', recs, new, 0, a):
            return
        for r in warc.parse_silo(new, 0, a.prefix, a.id_len):
            if r.get('z') or r.get('Content-Length-GZIP'):
                w.bad('stale', f'{case} size {n}: rebuilt record keeps {r.names}')
    w.count('traces')


@family
def c20_fixup(w, case):
    """records of the kind that has a WARC-record-digest, and an ID which is not its own: both are put right"""
    a = w.arch('c20x', max_size='100m', id_bits=case['bits'])
    srv = a.srv
    for n in case['sizes']:
        b = gen(f'{case["k"]}{n}') if n else b''
        x = gen('r200.x')
        lead = gen(f'r{case["lead"]}') if case['lead'] else None

        def silo(fixed):
            recs = b''
            for t, c, old in (('warcinfo', b'who: me\r\n', 0), ('resource', lead, 0), (case['type'], b, 1), ('resource', x, 0), (case['type'], b + b'\n', case['two']), ('resource', x[::-1], 0)):
                if c is None:
                    continue
                rid = sha(c if not old or fixed else b'another')[:a.id_len]
                h = [('WARC-Record-ID', f'<file://ex/{rid}>'), ('WARC-Type', t), ('WARC-Date', '2020-02-02T02:02:02Z'), ('Content-Type', 'text/plain'), ('Content-Length', str(len(c)))]
                if not old or fixed or case['both']:
                    h.append(('WARC-Block-Digest', 'sha256:' + sha(c if not old or fixed else b'wrong')))
                if old and not fixed:
                    h.insert(case['at'], ('WARC-record-digest', 'sha256:' + sha(b'whatever')))
                if t == 'metadata':
                    h.append(('WARC-Refers-To', f'<file://ex/{sha(x)[:a.id_len]}>'))
                if t == 'warcinfo':
                    h.append(('WARC-Filename', '00000000.warc.gz'))
                recs += b''.join(member(m, case['comp']) for m in (b'WARC/1.1\r\n' + b''.join(f'{k}: {v}\r\n'.encode() for k, v in h) + b'\r\n', c, b'\r\n\r\n'))
            return recs

        what = f'{case} size {n}'
        w.case = dict(case, sizes=[n])
        a.reset()
        os.makedirs(a.silo + '/0')
        p = a.silo + '/0/00000000.warc.gz'
        with open(p, 'wb') as f:
            f.write(silo(False))
        a.srv = w.server(case['kind'])
        r = a.op('rebuild')
        a.srv = srv
        w.count('transitions')
        w.seen('states', what)
        if not r.ok():
            w.bad('fixup-fails', f'{what}: rebuild ends with {r.status()}: {r.err[-300:]!r}')
            return
        with open(p + '_', 'rb') as f:
            if not same(w, what, silo(True), f.read(), 0, a, 'fixup-'):
                return
    w.count('traces')


DBASE = {'small': [['store', 'r300.a'], ['store', 't500.b']], 'meta': [['store', 'r300.a'], ['meta', 'r300.a', 'r200.m']], 'seg': [['store', 'r3500.d']], 'big': [['store', 'z90000'], ['store', 'r700.e']]}


@family
def c20_damage(w, case):
    """damaged bits, and silos cut short: never an incomplete copy with status 0"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c20d', max_size='4k')
    a.restore(wd.snap)
    rel = warc.silo_path(0)
    p = os.path.join(a.silo, rel)
    data = wd.snap.files[rel][2]
    whole = a.silo + '/whole'
    with open(whole, 'wb') as f:
        f.write(data)
    good = clean(data)
    fd = os.open(p, os.O_RDWR)

    def run(what, d, key):
        r = a.op('rebuild')
        w.count('transitions')
        w.seen('states', (case['base'], what))
        if not r.ok():
            return
        with open(p + '_', 'rb') as f:
            new = f.read()
        try:
            if clean(new) == clean(d):
                return
        except warc.Bad:
            pass
        w.bad(key, f'{case}: {what}: rebuild ends with 0, and the records are not those of the silo: {r.err[-200:]!r}')

    try:
        for pos in range(case['lo'], min(case['hi'], len(data))):
            for bit in ([pos % 8] if case['bits'] == 1 else range(8)):
                d = data[:pos] + bytes([data[pos] ^ 1 << bit]) + data[pos + 1:]
                os.pwrite(fd, d[pos:pos + 1], pos)
                run(f'bit {bit} of byte {pos} flipped', d, 'missed-flip')
                os.pwrite(fd, data[pos:pos + 1], pos)
            os.ftruncate(fd, pos)
            run(f'cut to {pos} bytes', data[:pos], 'missed-cut')
            # and the next silo is not spoilt by it
            r = a.op('rebuild', p, whole)
            w.count('transitions')
            try:
                with open(whole + '_', 'rb') as f:
                    ok = clean(f.read()) == good
                os.unlink(whole + '_')
            except (OSError, warc.Bad):
                ok = False
            if not ok:
                w.bad('beside-cut', f'{case}: rebuild of the silo cut to {pos} bytes and a whole one: the whole one is not rebuilt: {r.status()} {r.err[-200:]!r}')
            os.pwrite(fd, data[pos:], pos)
    finally:
        os.close(fd)
    w.count('traces')


@family
def c20_args(w, case):
    """named silos which cannot be read are reported, whatever else is named"""
    a = w.arch('c20a', max_size='4k')
    a.reset()
    for s in ('r3000.a', 'r3000.b'):
        a.must_store(gen(s))
    base = a.snap()
    d = a.silo + '/'
    good = [d + warc.silo_path(n) for n in (0, 1)]
    with open(d + 'cut', 'wb') as f:
        f.write(base.files[warc.silo_path(0)][2][:-1])
    with open(d + 'junk', 'wb') as f:
        f.write(base.files[warc.silo_path(0)][2] + b'junk')
    with open(d + 'text', 'wb') as f:
        f.write(b'text\n')
    bad = [d + x for x in ('none', 'cut', 'junk', 'text', '0')]
    withbad = a.snap()
    for b in bad:
        for args in ([b], [good[0], b], [b, good[0]], [good[0], b, good[1]]):
            a.restore(withbad)
            r = a.op('rebuild', *args)
            w.count('transitions')
            w.seen('states', str([os.path.basename(x) for x in args]))
            if r.ok():
                w.bad('status', f'rebuild {args} ends with 0, {b} cannot be rebuilt')
            if r.kind == 'exit' and b[len(d):] in ('none', 'cut', 'junk'):
                for no, g in enumerate(good):
                    if g in args:
                        with open(g + '_', 'rb') as f:
                            same(w, f'rebuild {args}', base.files[warc.silo_path(no)][2], f.read(), no, a, 'beside-')
    for args in (good, good[::-1], good[:1] * 2, good[1:]):
        a.restore(base)
        r = a.op('rebuild', *args)
        w.count('transitions')
        for no, g in enumerate(good):
            if g in args:
                with open(g + '_', 'rb') as f:
                    same(w, f'rebuild {args}', base.files[warc.silo_path(no)][2], f.read(), no, a)
        if not r.ok():
            w.bad('status', f'rebuild {args} ends with {r.status()}')
    # a longer file of an earlier rebuild is replaced
    a.restore(base)
    with open(good[0] + '_', 'wb') as f:
        f.write(b'old' * 5000)
    r = a.op('rebuild')
    with open(good[0] + '_', 'rb') as f:
        same(w, 'rebuild over an old output', base.files[warc.silo_path(0)][2], f.read(), 0, a, 'over-')
    # bodies which are not as long as their headers say
    for delta in range(-6, 7):
        h = b'WARC/1.1\r\nWARC-Record-ID: <file://ex/%s>\r\nWARC-Type: resource\r\nWARC-Date: 2020-02-02T02:02:02Z\r\nContent-Type: text/plain\r\nContent-Length: %d\r\nWARC-Block-Digest: sha256:%s\r\n\r\n'
        for nrec in (1, 2, 3):
            for which in range(nrec):
                m = []
                for i in range(nrec):
                    b = gen(f'r{20 + i}')
                    m += [h % (b'0' * 32, len(b) + (delta if i == which else 0), b'0' * 64), b, b'\r\n\r\n']
                a.restore(base)
                with open(good[0], 'r+b') as f:
                    f.truncate(0)
                    f.write(b''.join(member(x, True) for x in m))
                r = a.op('rebuild', good[0])
                w.count('transitions')
                if r.ok() == bool(delta):
                    w.bad('length', f'{nrec} records, body {which} is {-delta} bytes longer than its header says: rebuild ends with {r.status()}')
    w.count('traces')


@family
def c20_layout(w, case):
    wd = H.build(w, DBASE[case['base']])
    return len(wd.snap.files[warc.silo_path(0)][2])


@family
def c20_many(w, case):
    """more silos than a process may have files open"""
    a = w.arch('c20n', max_size='4k')
    a.reset()
    if not a.store(gen('r100.a')).ok():
        return
    data = a.snap().files[warc.silo_path(0)][2]
    n = case['n']
    for no in range(1, n):
        p = os.path.join(a.silo, warc.silo_path(no))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f:
            f.write(data)
    r = a.op('rebuild', timeout=100000)
    w.count('transitions')
    w.seen('states', n)
    miss = 0
    for no in range(n):
        try:
            with open(os.path.join(a.silo, warc.silo_path(no)) + '_', 'rb') as f:
                if clean(f.read()) != clean(data):
                    w.bad('many', f'{n} silos: silo {no} is rebuilt wrong')
                    return
        except OSError:
            miss += 1
    if miss or not r.ok():
        w.bad('many', f'{n} silos: rebuild ends with {r.status()}, {miss} are not rebuilt: {r.err[-200:]!r}')
    w.count('traces')


def check(ctx):
    lay = ctx.explore(c20_layout, [dict(base=b) for b in DBASE])
    cuts = []
    for c, n in lay:
        if not n or ctx.quick and c['base'] == 'meta':
            continue
        cuts += [dict(base=c['base'], lo=i, hi=i + 100, bits=ctx.n(1, 8)) for i in range(0, n, 100)]
    ctx.explore(c20_args, [{}])
    ctx.explore(c20_many, [dict(n=ctx.n(1100, 3000))])
    ctx.explore(c20_damage, cuts)
    ctx.bound(f'every byte of the silos of {ctx.n(3, 4)} archives flipped and cut')
    H.bfs(ctx, alphabet, ctx.n(3, 4), limit=ctx.n(3000, 15000))
    H.bfs(ctx, alphabet, ctx.n(1, 3), inits=[BASES['old'], BASES['oldhalf']], limit=ctx.n(3000, 15000))
    ctx.bound('the same with silos of WARC 1.0 records')
    # sizes
    lists, win = [], ctx.n(6, 40)
    edges = [1, 2, 3, 4, 5, 100, 4096, 8192, 65536, 131072, 196608, 262144] + ([1 << 20, 5 << 20] if not ctx.quick else [])
    for e in edges:
        for k in 'rzhtgw':
            sizes = range(max(1, e - win), e + win + 1) if e >= 4096 else [e]
            lists += [[f'{k}{s}', 'r77.q'] for s in (sizes if k in 'rz' or not ctx.quick else [e - 1, e, e + 1]) if s > 0]
    for a, b in ((65536, 'r1'), (131072, 'z1'), (196608, 'h1')):
        # every alignment of the records' ends against the input buffer
        lists += [[f'r{a - 2000 + i}', 'r200.x', b + '00000', 'r5.y'] for i in range(0, 2400, ctx.n(4, 1))]
    uniq = sorted(set(map(tuple, lists)))
    ctx.explore(c20_size, [dict(lists=uniq[i:i + 10]) for i in range(0, len(uniq), 10)])
    some = uniq[::ctx.n(12, 2)]
    ctx.explore(c20_size, [dict(lists=some[i:i + 10], kind='asan') for i in range(0, len(some), 10)])
    hand = []
    for k in 'rzw':
        for comp in (False, True):
            for z in (0, 1, 200):
                for clg in (0, 1):
                    for e in (1, 8192, 65536, 131072):
                        sz = [s for s in range(e - 2, e + 3) if s > 0]
                        hand.append(dict(k=k, comp=comp, z=z, clg=clg, sizes=sz, kind='asan' if not clg and z == 1 else 'plain'))
    ctx.explore(c20_hand, hand)
    fix = [dict(type=t, k=k, comp=c, both=o, two=d, at=i, bits=b, lead=0, kind='asan' if i == 2 else 'plain', sizes=[1, 2, 3, 4, 5, 30, 900, 4095, 4096, 4097, 8190, 8191])
           for t in ('resource', 'metadata') for k in 'rzt' for c in (False, True) for o in (0, 1) for d in (0, 1) for i in (1, 2, 5) for b in ((128, 256) if k == 'r' else (128,))]
    fix += [dict(type='metadata', k=k, comp=c, both=0, two=1, at=1, bits=128, lead=0, kind='asan' if k == 't' else 'plain', sizes=[e + i for i in (-1, 0, 1)]) for k in 'rzt' for c in (False, True) for e in (8192, 12288, 65536, 131000, 131059, 131072, 131200, 200000, 262144, 300000)]
    # the end of the input buffer and of the output buffer come in every place of the record
    fix += [dict(type='metadata', k='t', comp=c, both=0, two=1, at=1, bits=128, lead=65536 - i, kind='plain', sizes=[700]) for c in (False, True) for i in range(300, ctx.n(2200, 2200), ctx.n(4, 1))]
    ctx.explore(c20_fixup, fix)
    ctx.explore(c20_chain, [dict(c, far=f) for c, f in itertools.zip_longest(chain.cases(ctx, 300)[:: ctx.n(3, 1)], ([999, 10000, 999999, 1000000, 99999999], [2**31 - 1, 2**31, 2**32 - 1]), fillvalue=[])])
    ctx.bound(f'{len(fix)} silos of records with a WARC-record-digest; objects in up to 300 segments; silo numbers of up to 10 digits')
    ctx.bound(f'{len(uniq)} lists of body sizes, every size within {win} of each buffer size; {len(hand)} layouts of foreign silos')
