"""C14: audit reports every defect and no false ones."""
import itertools, os, re, struct, zlib
from mc.core import family
from mc.gen import gen, sha
from mc import big, chain, warc, hist
from mc.states import BASES
from mc.warc import member

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: breadth-first search over operation histories for false reports, and exhaustive enumeration of single defects (every header field altered, every segment lost, every bit flipped, every truncation) in archives so reached'
NOTE = 'False reports: every archive of depth 3 (4), audited whole and by every order of named silos. Defects: each changed or removed header and body, consistent and not, in every record of six archives; every bit flip (quick: one bit per byte) and every truncation of their silos that changes what gunzip delivers. Pairs of defects are not enumerated.'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories are enumerated exhaustively to the stated depth']
N2 = sha(b'n2')[:32]


def verdict(r):
    """does audit say that something is wrong?"""
    t = r.out + r.err
    if not r.ok():
        return True
    if b'ERROR' in t or b'Left on pending' in t:
        return True
    return any(m.group(1) != b'0' for m in re.finditer(rb'(\d+) bad entries', t))


def good(r):
    return sum(int(m.group(1)) for m in re.finditer(rb'(?m)^(\d+) good \d+ bad entries', r.out))


def state(w, h, wd, a):
    v = warc.View(wd.snap, a, max_size=4096, dups_ok=True)
    n = sum(len(l) for l in v.silos.values())
    forced = any(op[0] == 'metai' for op in wd.path)
    names = [os.path.join(a.silo, warc.silo_path(no)) for no in sorted(v.silos)]
    # copies of an object that are split differently are told apart only in the order in which they were stored
    dup = any(len(l) > 1 for l in v.objs.values())
    for args in [()] + [tuple(names)] * bool(dup and names) + ([] if dup else [p for p in itertools.permutations(names)] if len(names) <= 4 else [tuple(names), tuple(names[::-1])] if names else []):
        r = a.op('audit', '-i', 'ignore-metadata-record-id', *args)
        w.count('transitions')
        what = f'after {wd.path}: audit -i {[os.path.basename(x) for x in args]}'
        if verdict(r):
            w.bad('false-alarm', f'{what}: {r.status()} {(r.out + r.err)[-500:]!r}')
        elif good(r) != n:
            w.bad('not-all', f'{what}: examines {good(r)} of {n} records')
        r = a.op('audit', *args)
        if verdict(r) != forced or not r.ok():
            w.bad('false-alarm' if not forced else 'forced-id', f'{what[:-2]}: {r.status()} {(r.out + r.err)[-500:]!r}')
        elif not forced and good(r) != n:
            w.bad('not-all', f'{what}: examines {good(r)} of {n} records')
    if a.snap().canon() != wd.snap.canon():
        w.bad('changed', f'after {wd.path}: audit changed the archive')


H = hist.make('c14h', confs=({'max_size': '4k'}, {'max_size': '5k'}), state=state)
ALPHA = [['store', 'r100.a'], ['store', 'r7000.d'], ['store', 'z500000'], ['store', 'h30000.x'], ['meta', 'r100.a', 'r60.m'], ['meta', 'r100.a', 'r4000.s'], ['meta', 'r7000.d', 'r6000.t'], ['metai', 'r100.a', 'r60.f', N2], ['metai', 'r100.a', 'r3500.f', N2],
         ['hk'], ['run', 'mksilo', '3'], ['run', 'mksilo', '120'], ['run', 'mksilo', '305'], ['ro', 0], ['conf', 1], ['lose'], ['touch', '0/00000001.warc.gz.hold', '00']]


def alphabet(wd, d):
    for op in ALPHA:
        if op[0] in ('meta', 'metai') and hist.res_id(gen(op[1])) not in wd.objs:
            continue
        if op[0] == 'lose':
            # the same objects will be stored a second time
            if 'index.appendix' in wd.snap.files and 'index.sorted' not in wd.snap.files:
                yield ['rm', 'index.appendix']
            continue
        if op[0] == 'conf' and wd.conf == op[1] or op[0] == 'hk' and 'index.appendix' not in wd.snap.files:
            continue
        yield op


# ------------------------------------------------------------------- defects
@family
def c14_aa(w, case):
    """the length a body's gzip member gives of itself is wrong: other readers go by it"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    v = warc.View(wd.snap, a)
    for no, recs in sorted(v.silos.items()):
        rel = warc.silo_path(no)
        data = wd.snap.files[rel][2]
        a.restore(wd.snap)
        fd = os.open(os.path.join(a.silo, rel), os.O_RDWR)
        try:
            for r in recs:
                at = r.off + r.hlen + 16
                real = struct.unpack('<Q', data[at:at + 8])[0]
                if data[at - 4:at] != b'Aa\x08\0' or real != r.blen:
                    raise RuntimeError(f'{case}: no Aa at {at}')
                vals = {real + d for d in (-256, -30, -9, -8, -2, -1, 1, 2, 8, 9, 24, 256, 1 << 16, 1 << 32)} | {0, 1, real ^ 0x80, real * 2, real * 256, r.hlen, len(data), len(data) - r.off}
                vals |= {(real ^ 1 << b) for b in range(64)}
                for x in sorted(vals - {real}):
                    if x < 0:
                        continue
                    os.pwrite(fd, struct.pack('<Q', x), at)
                    q = a.op('audit')
                    w.count('transitions')
                    w.seen('states', (case['base'], no, r.off, x))
                    if not verdict(q):
                        w.bad('missed-length', f'{case}: the body of the record at {r.off} of silo {no} gives its length as {x} instead of {real}: audit says nothing')
                os.pwrite(fd, data[at:at + 8], at)
        finally:
            os.close(fd)
    w.count('traces')


def rebuild(data, recs, i, hdr, body):
    """the silo with record i given another header (list of name, value) and body"""
    r = recs[i]
    h = b'WARC/1.1\r\n' + b''.join(n.encode() + b': ' + v.encode('latin-1') + b'\r\n' for n, v in hdr) + b'\r\n'
    crnl = data[r.off + r.hlen + r.blen:r.end]
    return data[:r.off] + member(h, True) + member(body, True) + crnl + data[r.end:]


def other(v):
    """values close to v"""
    out = set()
    for i, c in enumerate(v):
        if i in (0, 1, len(v) // 2, len(v) - 2, len(v) - 1) or not c.isalnum() and i:
            if c.isdigit():
                out.add(v[:i] + str((int(c) + 1) % 10) + v[i + 1:])
            elif c in 'abcdef':
                out.add(v[:i] + ('f' if c == 'a' else 'a') + v[i + 1:])
    if v.isdigit():
        out |= {str(int(v) + 1), str(int(v) - 1), str(int(v) * 256), '0', '-' + v, v + 'x', '0x' + v, v + ' ', ' ' + v}
    else:
        out |= {v[:-1], v + '0', 'sha1:' + v.partition(':')[2]}
    out |= {''}
    out.discard(v)
    return sorted(out)


CHECKED = ('WARC-Block-Digest', 'WARC-Payload-Digest', 'Content-Length', 'WARC-Record-ID', 'WARC-Segment-Total-Length', 'WARC-Segment-Origin-ID', 'WARC-Segment-Number', 'WARC-Refers-To')


def defects(recs, i):
    """(name, header, body) for record i"""
    r = recs[i]
    hdr = [(n, r.get(n)) for n in r.names]
    for n in CHECKED:
        v = r.get(n)
        if v is None:
            continue
        if n == 'WARC-Refers-To' and r.type != 'metadata':
            continue
        for x in other(v):
            if n == 'WARC-Segment-Number' and x.strip().lstrip('0x') == v:
                continue
            if n == 'WARC-Segment-Origin-ID' and x.startswith(v):
                continue
            yield f'{n}: {x}', [(a, x if a == n else b) for a, b in hdr], r.body
        yield f'no {n}', [(a, b) for a, b in hdr if a != n], r.body
    bodies = {'empty': b'', 'shorter': r.body[:-1], 'longer': r.body + b'\0', 'first': bytes([r.body[0] ^ 1]) + r.body[1:],
              'last': r.body[:-1] + bytes([r.body[-1] ^ 0x80]), 'cut': r.body[1:]}
    for n, b in bodies.items():
        yield f'body {n}', hdr, b
        fix = {'Content-Length': str(len(b)), 'WARC-Block-Digest': 'sha256:' + sha(b)}
        yield f'body {n}, length and digest to match', [(a, fix.get(a, v)) for a, v in hdr], b
        if r.get('WARC-Segment-Number') not in (None, '1'):
            # a continuation that is right by itself
            fix['WARC-Record-ID'] = f'<file://ex/{sha(b)[:32]}>'
            yield f'body {n}, length, digest and ID to match', [(a, fix.get(a, v)) for a, v in hdr], b


DBASE = {
    'small': [['store', 'r300.a'], ['store', 't500.b']], 'meta': [['store', 'r300.a'], ['meta', 'r300.a', 'r200.m']], 'seg2': [['store', 'r3500.d']], 'seg3': [['store', 'r300.a'], ['store', 'r7000.d']],
    'segmeta': [['store', 'r300.a'], ['meta', 'r300.a', 'r4000.s']], 'segs': [['store', 'r3300.d'], ['store', 'h7000.e'], ['run', 'mksilo', '120'], ['store', 'r5000.f']],
    'seg5': [['store', 'r12000.d'], ['store', 'h20000.e']],
}


@family
def c14_defect(w, case):
    """every defect of one record"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    v = warc.View(wd.snap, a)
    no = case['no']
    p = warc.silo_path(no)
    data = wd.snap.files[p][2]
    recs = v.silos[no]
    a.restore(wd.snap)
    names = [os.path.join(a.silo, warc.silo_path(n)) for n in sorted(v.silos)]
    for name, hdr, body in defects(recs, case['i']):
        with open(os.path.join(a.silo, p), 'r+b') as f:
            f.truncate(0)
            f.write(rebuild(data, recs, case['i'], hdr, body))
        w.seen('states', (case['base'], no, case['i'], name))
        for args in ((), names, names[::-1]):
            for opt in ((), ('-i', 'ignore-metadata-record-id')):
                meta = any(r.type == 'metadata' for r in recs)
                if opt and (not meta or recs[case['i']].type == 'metadata' and ('Record-ID' in name or 'Refers-To' in name or 'to match' in name)):
                    continue
                w.count('transitions')
                r = a.op('audit', *opt, *args)
                if not verdict(r):
                    w.bad('missed', f'{case}: record with {name}: audit {opt} {len(args)} silos says nothing: {(r.out + r.err)[-300:]!r}')
    w.count('traces')


@family
def c14_object(w, case):
    """a segmented object that is wrong as a whole, with every record right by itself"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    v = warc.View(wd.snap, a)
    for rid, l in sorted(v.objs.items()):
        o = l[0]
        if len(o.segs) < 2:
            continue
        pd = o.segs[0].get('WARC-Payload-Digest')
        wrong = []
        for x in other(rid):
            if len(x) == len(rid):
                wrong.append((f'its ID {x}', {'WARC-Record-ID': {0: f'<{a.prefix}{x}>'}, 'WARC-Segment-Origin-ID': {i: f'<{a.prefix}{x}>' for i in range(1, len(o.segs))}}))
        for x in other(pd):
            if x:
                wrong.append((f'its digest {x}', {'WARC-Payload-Digest': {i: x for i in range(len(o.segs)) if o.segs[i].get('WARC-Payload-Digest') is not None}}))
        for name, ch in wrong:
            a.restore(wd.snap)
            for i, r in enumerate(o.segs):
                hdr = [(n, ch.get(n, {}).get(i, r.get(n))) for n in r.names]
                p = warc.silo_path(r.silo)
                with open(os.path.join(a.silo, p), 'rb') as f:
                    data = f.read()
                # earlier records of this silo may have changed their length
                recs = warc.parse_silo(data, r.silo, a.prefix, a.id_len)
                k = [j for j, q in enumerate(v.silos[r.silo]) if q.off == r.off][0]
                with open(os.path.join(a.silo, p), 'wb') as f:
                    f.write(rebuild(data, recs, k, hdr, r.body))
            w.seen('states', (case['base'], rid, name))
            for opt in ((), ('-i', 'ignore-metadata-record-id')):
                if opt and o.type == 'metadata' and 'ID' in name:
                    continue
                r = a.op('audit', *opt)
                w.count('transitions')
                if not verdict(r):
                    w.bad('missed-object', f'{case}: an object of {len(o.segs)} segments has {name}: audit {opt} says nothing: {(r.out + r.err)[-300:]!r}')
    w.count('traces')


@family
def c14_args(w, case):
    """silos that cannot be read, named together with others"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    v = warc.View(wd.snap, a)
    a.restore(wd.snap)
    names = [os.path.join(a.silo, warc.silo_path(n)) for n in sorted(v.silos)]
    data = wd.snap.files[warc.silo_path(min(v.silos))][2]
    bads = {'none': None, 'cut': data[:-40], 'text': b'hello world, hello world\n', 'plain': warc.gunzip_all(data)[0], 'zeros': bytes(500), 'dir': 0, 'half': data[:len(data) // 2], 'head': data[:10]}
    for name, d in bads.items():
        p = a.dir + '/bad.' + name
        if d == 0:
            os.makedirs(p, exist_ok=True)
        elif d is not None:
            with open(p, 'wb') as f:
                f.write(d)
        for args in ([p], [p] + names, names + [p], names[:1] + [p] + names[1:], [p, p], names[1:] + [p] + names[:1]):
            r = a.op('audit', *args)
            w.count('transitions')
            w.seen('states', (case['base'], name, len(args), args.index(p)))
            if not verdict(r) or r.kind == 'left':
                w.bad('missed-arg', f'{case}: audit of {[os.path.basename(x) for x in args]} says nothing: {r.status()} {(r.out + r.err)[-300:]!r}')
            if name in ('none', 'dir') and r.ok():
                w.bad('arg-status', f'{case}: audit of {[os.path.basename(x) for x in args]} ends with status 0')
    w.count('traces')


@family
def c14_gone(w, case):
    """records and silos lost, exchanged and doubled"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    v = warc.View(wd.snap, a)
    segs = {r.silo for l in v.objs.values() for o in l if len(o.segs) > 1 for r in o.segs}
    w.seen('states', case['base'])
    for no in sorted(v.silos):
        p = os.path.join(a.silo, warc.silo_path(no))
        data = wd.snap.files[warc.silo_path(no)][2]
        if no in segs:
            a.restore(wd.snap)
            os.unlink(p)
            r = a.op('audit')
            w.count('transitions')
            if not verdict(r):
                w.bad('missed', f'{case}: silo {no}, which holds segments, is gone: audit says nothing')
        for rec in v.silos[no]:
            if rec.get('WARC-Segment-Number') is None:
                continue
            # just this segment is gone, or of no use
            a.restore(wd.snap)
            with open(p, 'r+b') as f:
                f.truncate(0)
                f.write(data[:rec.off] + data[rec.end:])
            r = a.op('audit')
            w.count('transitions')
            if not verdict(r):
                w.bad('missed', f'{case}: segment at {rec.off} of silo {no} is gone: audit says nothing')
            # the segment of another object in its place
            for l in v.objs.values():
                for o in l:
                    for s in o.segs:
                        if len(o.segs) > 1 and (s.silo, s.off) != (rec.silo, rec.off):
                            sd = wd.snap.files[warc.silo_path(s.silo)][2][s.off:s.end]
                            a.restore(wd.snap)
                            with open(p, 'r+b') as f:
                                f.truncate(0)
                                f.write(data[:rec.off] + sd + data[rec.end:])
                            r = a.op('audit')
                            w.count('transitions')
                            if not verdict(r):
                                w.bad('missed', f'{case}: segment at {rec.off} of silo {no} replaced by the one at {s.off} of silo {s.silo}: audit says nothing')
    w.count('traces')


def members(data):
    out, pos = [], 0
    while pos < len(data):
        d = zlib.decompressobj(31)
        try:
            out.append(d.decompress(data[pos:]))
        except zlib.error as e:
            raise warc.Bad(str(e))
        if not d.eof:
            raise warc.Bad('truncated')
        pos = len(data) - len(d.unused_data)
    return out


@family
def c14_flip(w, case):
    """damaged bits, and silos cut short"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    a.restore(wd.snap)
    no = case['no']
    rel = warc.silo_path(no)
    p = os.path.join(a.silo, rel)
    data = wd.snap.files[rel][2]
    orig = members(data)
    ends = {r.end for r in warc.View(wd.snap, a).silos[no]} | {0}
    fd = os.open(p, os.O_RDWR)
    try:
        for pos in range(case['lo'], min(case['hi'], len(data))):
            for bit in ([pos % 8] if case['bits'] == 1 else range(8)):
                d = data[:pos] + bytes([data[pos] ^ 1 << bit]) + data[pos + 1:]
                try:
                    if members(d) == orig:
                        continue        # same content, as gzip sees it
                except warc.Bad:
                    pass
                os.pwrite(fd, d[pos:pos + 1], pos)
                r = a.op('audit')
                w.count('transitions')
                w.seen('states', (case['base'], no, pos, bit))
                if not verdict(r):
                    w.bad('missed-flip', f'{case}: bit {bit} of byte {pos} flipped: audit says nothing')
                os.pwrite(fd, data[pos:pos + 1], pos)
            if pos not in ends:
                os.ftruncate(fd, pos)
                r = a.op('audit')
                w.count('transitions')
                if not verdict(r):
                    w.bad('missed-cut', f'{case}: silo cut to {pos} bytes: audit says nothing')
                os.pwrite(fd, data[pos:], pos)
    finally:
        os.close(fd)
    w.count('traces')


@family
def c14_layout(w, case):
    """the records and silos of each archive"""
    wd = H.build(w, DBASE[case['base']])
    a = w.arch('c14d', max_size='4k')
    v = warc.View(wd.snap, a)
    return [(no, len(l), len(wd.snap.files[warc.silo_path(no)][2])) for no, l in sorted(v.silos.items())]


@family
def c14_far(w, case):
    """silos with high numbers"""
    a = w.arch('c14f', max_size='4k')
    a.reset()
    a.must_store(gen('r100.a'))
    for n in case['far']:
        a.must('mksilo', str(n))
    base = a.snap()
    v = warc.View(base, a)
    if sorted(v.silos) != [0, *case['far']]:
        w.bad('far-silos', f'{case}: silos {sorted(v.silos)}')
        return
    r = a.op('audit')
    w.count('transitions')
    if verdict(r) or good(r) != sum(map(len, v.silos.values())):
        w.bad('far', f'{case}: audit examines {good(r)} of {sum(map(len, v.silos.values()))} records: {r.status()} {(r.out + r.err)[-300:]!r}')
    for n in case['far']:
        a.restore(base)
        g = v.silos[n][0]
        p = os.path.join(a.silo, warc.silo_path(n))
        with open(p, 'rb') as f:
            data = f.read()
        with open(p, 'wb') as f:
            f.write(rebuild(data, warc.parse_silo(data, n, a.prefix, a.id_len), 0, [(k, g.get(k)) for k in g.names], g.body[:-1] + b'x'))
        w.seen('states', ('far', n))
        r = a.op('audit')
        w.count('transitions')
        if not verdict(r):
            w.bad('far-missed', f'{case}: the record of silo {n} is changed: audit says nothing: {(r.out + r.err)[-300:]!r}')
    w.count('traces')


@family
def c14_huge(w, case):
    """lengths of more than 32 bits"""
    a = w.arch('c14g', max_size='4k')
    a.reset()
    try:
        big.archive(w, a, gen(case['spec']), case['sizes'], case['lies'])
        r = a.op('audit', timeout=400000)
        w.count('transitions')
        if verdict(r) != bool(case['lies']) or r.kind != 'exit':
            w.bad('huge', f'{case}: {r.status()} {(r.out + r.err)[-500:]!r}')
        w.seen('states', ('huge', str(case)))
    finally:
        a.reset()
    w.count('traces')


@family
def c14_chain(w, case):
    """objects in very many segments, whole and with something wrong with one of the segments"""
    a = w.arch('c14n', max_size=str(chain.MAX))
    s = chain.make(w, a, case['n'], case['first'])
    a.must_store(gen(s))
    base = a.snap()
    v = warc.View(base, a)
    (o,), = [l for l in v.objs.values() if l[0].content == gen(s)]
    n = len(o.segs)
    names = [os.path.join(a.silo, warc.silo_path(no)) for no in sorted(v.silos)]
    what = f'{s} in silos of {chain.MAX}' + (f' from {case["first"]} on' if case['first'] else '')
    for args in ([], names, names[::-1], names[1::2] + names[::2]):
        r = a.op('audit', *args)
        w.count('transitions')
        if verdict(r) or r.kind != 'exit':
            w.bad('false-alarm', f'{what}, {n} segments: audit {len(args)} silos: {r.status()} {(r.out + r.err)[-500:]!r}')
            return
        if good(r) != sum(map(len, v.silos.values())):
            w.bad('not-all', f'{what}: audit of {len(args)} silos examines {good(r)} records')
    w.seen('states', (what, n))
    last = o.segs[-1]
    total = int(last.get('WARC-Segment-Total-Length'))
    todo = [(n - 1, 'WARC-Segment-Total-Length', str(total + d)) for d in (1, 100, 256, 65536, -1)]
    for i in sorted({1, n // 2, n - 1, *(k for k in (8, 9, 10, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256) if k < n)}):
        for x in (i, i + 2, i + 11, i + 1 + 10, i + 1 + 16, i + 1 + 64, i + 1 + 100, i + 1 + 256):
            todo.append((i, 'WARC-Segment-Number', str(x)))
        todo.append((i, None, None))
    for i, h, x in todo:
        if h and o.segs[i].get(h) == x:
            continue
        g = o.segs[i]
        p = warc.silo_path(g.silo)
        a.restore(base)
        if h is None:
            os.unlink(os.path.join(a.silo, p))
        else:
            with open(os.path.join(a.silo, p), 'rb') as f:
                data = f.read()
            hdr = [(k, x if k == h else g.get(k)) for k in g.names]
            k = [j for j, q in enumerate(v.silos[g.silo]) if q.off == g.off][0]
            with open(os.path.join(a.silo, p), 'wb') as f:
                f.write(rebuild(data, warc.parse_silo(data, g.silo, a.prefix, a.id_len), k, hdr, g.body))
        r = a.op('audit')
        w.count('transitions')
        w.seen('states', (what, i, h, x))
        if not verdict(r):
            w.bad('missed', f'{what}, {n} segments: segment {i + 1} ' + (f'with {h}: {x}' if h else 'lost') + f': audit says nothing: {(r.out + r.err)[-300:]!r}')
            return
    w.count('traces')


def check(ctx):
    g4 = 2**32
    ctx.beside(c14_huge, [dict(spec=s, sizes=z, lies=l) for s, z, l in (
        ('z500', [g4 + 5], []), ('z500', [g4 + 5], [[0, 'Content-Length', '5']]), ('z500', [7], [[0, 'Content-Length', str(g4 + 7)]]),
        ('r7000.d', [7, 8, 9], [[2, 'WARC-Segment-Total-Length', str(g4 + 24)]]),
        ('r7000.d', [g4 // 2 + 5, g4 // 2 + 7, 11], []), ('r7000.d', [g4 // 2 + 5, g4 // 2 + 7, 11], [[2, 'WARC-Segment-Total-Length', '23']]))])
    ctx.bound('lengths of more than 32 bits, right and 2^32 off, of an object and of one in three segments')
    lay = ctx.explore(c14_layout, [dict(base=b) for b in DBASE])
    rec, flip = [], []
    for c, l in lay:
        for no, n, size in l or ():
            rec += [dict(base=c['base'], no=no, i=i) for i in range(n)]
            if not ctx.quick or c['base'] in ('meta', 'seg2'):
                flip += [dict(base=c['base'], no=no, lo=i, hi=i + 100, bits=ctx.n(1, 8)) for i in range(0, size, 100)]
    ctx.explore(c14_defect, rec)
    ctx.explore(c14_object, [dict(base=b) for b in DBASE])
    ctx.explore(c14_args, [dict(base=b) for b in DBASE])
    ctx.explore(c14_gone, [dict(base=b) for b in DBASE])
    ctx.explore(c14_aa, [dict(base=b) for b in DBASE])
    ctx.explore(c14_flip, flip)
    ctx.bound(f'{len(rec)} records with every listed defect; every byte of {ctx.n("some", "all")} silos flipped and cut')
    ctx.explore(c14_far, [dict(far=f) for f in ([1, 99, 100, 9999, 10000], [999999, 1000000, 99999999, 100000000], [2**31 - 1, 2**31, 2**32 - 1])])
    ctx.bound('silos with numbers of 1 to 10 digits, one of them changed')
    ch = chain.cases(ctx, 300)
    ctx.explore(c14_chain, ch)
    ctx.bound(f'{len(ch)} objects in up to 300 segments, whole and with one segment renumbered or lost')
    H.bfs(ctx, alphabet, ctx.n(3, 4), limit=ctx.n(4000, 20000))
    H.bfs(ctx, alphabet, ctx.n(1, 3), inits=[BASES['old'], BASES['oldhalf']], limit=ctx.n(4000, 20000))
    ctx.bound('the same with silos of WARC 1.0 records')
