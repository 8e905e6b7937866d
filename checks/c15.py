"""C15: damaged archives never yield wrong data as success."""
import itertools, os
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist
from checks.c14 import member

LEVEL = 'fault_enumeration'
TECHNIQUE = 'exhaustive enumeration of damages to archives the real program wrote: every bit flip, every truncation, every loss and every exchange of silos and of index files, each followed by every get of every object on the real program'
RULE = 'a damage counts as distinct if the bytes of the archive differ; every get after it either delivers exactly the stored bytes or does not exit 0, and objects whose records are untouched are delivered'
NOTE = 'Single damages (one bit, one cut, one removed or exchanged pair of silos, one 16-byte block zeroed) in six archives with plain, segmented and metadata objects; quick flips one bit per byte in three of them, thorough all bits in all. Pairs of flips are not enumerated.'
ASSUMPTIONS = ['one damage at a time', 'an index entry may be damaged too: then objects may be reported missing, but never delivered wrong']
H = hist.make('c15', confs=({'max_size': '4k'},))
BASE = {
    'small': [['store', 'r300.a'], ['store', 't500.b']], 'meta': [['store', 'r300.a'], ['meta', 'r300.a', 'r200.m']], 'seg2': [['store', 'r3500.d']], 'seg3': [['store', 'r300.a'], ['store', 'r7000.d']],
    'segmeta': [['store', 'r300.a'], ['meta', 'r300.a', 'r4000.s'], ['hk']], 'segs': [['store', 'r3300.d'], ['store', 'h7000.e'], ['run', 'mksilo', '120'], ['store', 'r5000.f']],
}
# silos of the same sizes and places in two archives, to exchange
TWINS = [([['store', 'r300.a'], ['store', 'r200.b']], [['store', 'r300.x'], ['store', 'r200.y']]),
         ([['store', 'r3500.d']], [['store', 'r3500.e']]), ([['store', 'r300.a'], ['store', 'r7000.d']], [['store', 'r300.x'], ['store', 'r7000.y']]),
         ([['store', 'z3000'], ['store', 'z9000.1']], [['store', 'z3000.2'], ['store', 'z9000.3']])]


def judge(w, a, wd, what, whole=(), light=False, nz=False):
    """every get of every object; whole: IDs which must be delivered"""
    for rid, o in wd.objs.items():
        must = rid in whole
        for m in (('-q',), ('-q', '-z'), ('-q', '-o'), ('-n',)):
            if light and must and m != ('-q',) or nz and '-z' in m:
                continue
            if m == ('-q', '-o'):
                if light:
                    continue
                p = a.dir + '/out'
                r = a.get(a.prefix + rid, '-q', '-o', p)
                got = open(p, 'rb').read() if os.path.exists(p) else None
                if os.path.exists(p):
                    os.unlink(p)
            else:
                r = a.get(a.prefix + rid, *m)
                got = r.out
            w.count('evaluations')
            if r.kind == 'left' or (r.kind, r.code) == ('sig', 9):
                w.bad('hang', f'{what}: get {m} {rid} does not end')
                continue
            if m == ('-n',):
                if must and not r.ok():
                    w.bad('not-delivered', f'{what}: get -n {rid}, whose records are untouched: {r.status()} {r.err[-200:]!r}')
                continue
            if '-z' in m and r.ok():
                try:
                    d, n = warc.gunzip_all(got)
                except warc.Bad:
                    d, n = None, 0
                if d != o['content'] and n == 1:
                    w.bad('wrong-z', f'{what}: get -z {rid} delivers a gzip stream of other data')
                got = o['content'] if d is None and not must else d
            if r.ok() and got != o['content']:
                if '-z' not in m or must:
                    w.bad('wrong', f'{what}: get {m} {rid} exits 0 and delivers {len(got or b"")} bytes which are not those stored')
            if must and not r.ok():
                w.bad('not-delivered', f'{what}: get {m} {rid}, whose records are untouched: {r.status()} {r.err[-200:]!r}')


def places(v, no, lo, hi):
    """IDs of objects with no record in [lo, hi) of silo no"""
    return {rid for rid, l in v.objs.items() if not any(r.silo == no and r.off < hi and r.end > lo for o in l for r in o.segs)}


@family
def c15_layout(w, case):
    wd = H.build(w, BASE[case['base']])
    v = warc.View(wd.snap, w.arch('c15', max_size='4k'))
    return [(k, len(f[2])) for k, f in sorted(wd.snap.files.items()) if k != '_.cache']


@family
def c15_flip(w, case):
    """bits flipped, blocks zeroed, files cut"""
    wd = H.build(w, BASE[case['base']])
    a = w.arch('c15', max_size='4k')
    a.restore(wd.snap)
    rel = case['file']
    data = wd.snap.files[rel][2]
    v = warc.View(wd.snap, a)
    no = warc.silo_no(rel)
    fd = os.open(os.path.join(a.silo, rel), os.O_RDWR)
    try:
        for pos in range(case['lo'], min(case['hi'], len(data))):
            keep = places(v, no, pos, pos + 1) if no is not None else ()
            for bit in ([pos % 8] if case['bits'] == 1 else range(8)):
                os.pwrite(fd, bytes([data[pos] ^ 1 << bit]), pos)
                w.seen('distinct', (case['base'], rel, pos, bit))
                judge(w, a, wd, f'{case["base"]}: bit {bit} of byte {pos} of {rel} flipped', keep if pos % 8 == 0 else (), light=pos % 8 != 0)
                os.pwrite(fd, data[pos:pos + 1], pos)
            if pos % 16 == 0:
                for fill in (b'\0' * 16, b'\xff' * 16):
                    blk = fill[:len(data) - pos]
                    os.pwrite(fd, blk, pos)
                    w.seen('distinct', (case['base'], rel, pos, fill))
                    judge(w, a, wd, f'{case["base"]}: 16 bytes at {pos} of {rel} are {fill[:1]!r}', places(v, no, pos, pos + 16) if no is not None else (), light=True)
                    os.pwrite(fd, data[pos:], pos)
            os.ftruncate(fd, pos)
            w.seen('distinct', (case['base'], rel, pos))
            judge(w, a, wd, f'{case["base"]}: {rel} cut to {pos} bytes', places(v, no, pos, 1 << 40) if no is not None else (), light=True)
            os.pwrite(fd, data[pos:], pos)
    finally:
        os.close(fd)


def write(a, rel, data):
    p = os.path.join(a.silo, rel)
    if data is None:
        if os.path.exists(p):
            os.unlink(p)
        return
    with open(p, 'wb') as f:
        f.write(data)


@family
def c15_silos(w, case):
    """silos and index files lost, exchanged, doubled, emptied"""
    wd = H.build(w, BASE[case['base']])
    a = w.arch('c15', max_size='4k')
    v = warc.View(wd.snap, a)
    rels = sorted(k for k in wd.snap.files if k != '_.cache')

    def go(changes, what):
        a.restore(wd.snap)
        keep = set(v.objs)
        for rel, d in changes:
            write(a, rel, d)
            no = warc.silo_no(rel)
            keep &= places(v, no, 0, 1 << 40) if no is not None else set()
        w.seen('distinct', (case['base'], what))
        judge(w, a, wd, f'{case["base"]}: {what}', keep)
    for rel in rels:
        d = wd.snap.files[rel][2]
        go([(rel, None)], f'{rel} lost')
        go([(rel, b'')], f'{rel} empty')
        go([(rel, b'\0' * len(d))], f'{rel} zeroed')
        go([(rel, d[::-1])], f'{rel} reversed')
        for k in range(1, 40):
            go([(rel, d[k:])], f'first {k} bytes of {rel} lost')
            go([(rel, b'\0' * k + d)], f'{k} bytes put before {rel}')
    for p, q in itertools.combinations(rels, 2):
        dp, dq = wd.snap.files[p][2], wd.snap.files[q][2]
        go([(p, dq), (q, dp)], f'{p} and {q} exchanged')
        go([(p, dq)], f'{p} replaced by {q}')
        go([(q, dp)], f'{q} replaced by {p}')
    # records exchanged within and between silos
    recs = [r for no in sorted(v.silos) for r in v.silos[no]]
    for r, s in itertools.permutations(recs, 2):
        rr, rs = warc.silo_path(r.silo), warc.silo_path(s.silo)
        raw = wd.snap.files[rs][2][s.off:s.end]
        d = wd.snap.files[rr][2]
        a.restore(wd.snap)
        write(a, rr, d[:r.off] + raw + d[r.end:])
        w.seen('distinct', (case['base'], 'rec', r.silo, r.off, s.silo, s.off))
        judge(w, a, wd, f'{case["base"]}: record at {r.silo}:{r.off} replaced by the one at {s.silo}:{s.off}', places(v, r.silo, r.off, 1 << 40), light=True)
        # just the body (no digest is checked for get -z)
        a.restore(wd.snap)
        write(a, rr, d[:r.off + r.hlen] + raw[s.hlen:] + d[r.end:])
        judge(w, a, wd, f'{case["base"]}: body at {r.silo}:{r.off} replaced by the one at {s.silo}:{s.off}', places(v, r.silo, r.off, 1 << 40), light=True, nz=True)


@family
def c15_body(w, case):
    """well-formed records with another body than the digest says"""
    wd = H.build(w, BASE[case['base']])
    a = w.arch('c15', max_size='4k')
    v = warc.View(wd.snap, a)
    for no in sorted(v.silos):
        rel = warc.silo_path(no)
        d = wd.snap.files[rel][2]
        for i, r in enumerate(v.silos[no]):
            b = r.body
            mods = {b[:-1], b + b'\0', b[1:], b'', b + b, bytes(len(b)), b[::-1]} | {b[:k] + bytes([b[k] ^ x]) + b[k + 1:] for k in range(0, len(b), max(1, len(b) // (8 if case["quick"] else 40))) for x in (1, 0x80)}
            for m in sorted(mods - {b}):
                a.restore(wd.snap)
                write(a, rel, d[:r.off + r.hlen] + member(m, True) + d[r.off + r.hlen + r.blen:])
                w.seen('distinct', (case['base'], 'body', no, i, m))
                judge(w, a, wd, f'{case["base"]}: body of record {i} of silo {no} replaced by {len(m)} other bytes, with CRC and length to match', places(v, no, r.off, 1 << 40), nz=True)


@family
def c15_twin(w, case):
    """silos, or the index, of another archive in the place of ours"""
    x, y = (H.build(w, ops) for ops in TWINS[case['n']])
    a = w.arch('c15', max_size='4k')
    for p, q in ((x, y), (y, x)):
        rels = sorted(k for k in p.snap.files if k != '_.cache' and k in q.snap.files)
        for k in range(1, len(rels) + 1):
            for sub in itertools.combinations(rels, k):
                a.restore(p.snap)
                for rel in sub:
                    write(a, rel, q.snap.files[rel][2])
                w.seen('distinct', (case['n'], p is x, sub))
                judge(w, a, p, f'{TWINS[case["n"]]}: {sub} of the {"second" if p is x else "first"} archive put into the other')
                judge(w, a, q, f'{TWINS[case["n"]]}: {sub} of the {"second" if p is x else "first"} archive put into the other', light=True)


def check(ctx):
    lay = ctx.explore(c15_layout, [dict(base=b) for b in BASE])
    flip = []
    for c, l in lay:
        for rel, n in l or ():
            if not ctx.quick or c['base'] in ('meta', 'seg2', 'segmeta') and not (c['base'] == 'segmeta' and rel.endswith('gz') and not rel.endswith('0.warc.gz')):
                flip += [dict(base=c['base'], file=rel, lo=i, hi=i + 64, bits=ctx.n(1, 8)) for i in range(0, min(n, 300) if rel == 'index.sorted' and ctx.quick else n, 64)]
    ctx.explore(c15_flip, flip)
    ctx.explore(c15_silos, [dict(base=b) for b in (['meta', 'seg3', 'segmeta'] if ctx.quick else BASE)])
    ctx.explore(c15_body, [dict(base=b, quick=ctx.quick) for b in BASE])
    ctx.explore(c15_twin, [dict(n=i) for i in range(len(TWINS))])
    ctx.bound(f'{len(flip)} stretches of 64 bytes, {ctx.n("one bit of each byte", "all bits")}; all losses and exchanges of silos, records and bodies')
