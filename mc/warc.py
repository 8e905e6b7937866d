"""Independent readers for what an archive keeps on disk.

Written from the WARC 1.1 and gzip formats and from ARCHITECTURE.md, not from
the code under test; used as the oracle of what an archive contains.
"""
import hashlib, re, struct, zlib

F_WARCINFO, F_RESOURCE, F_METADATA, F_SEG, F_FIRST, F_LAST = 2, 4, 8, 0x10, 0x20, 0x40
SHA = lambda b: hashlib.sha256(b).hexdigest()


class Bad(Exception):
    pass


def gz_member(data, pos):
    """One gzip member at pos -> (end, plain, extra dict)"""
    if data[pos:pos + 3] != b'\x1f\x8b\x08':
        raise Bad(f'no gzip member at {pos}')
    flg = data[pos + 3]
    extra = {}
    if flg & 4:
        xlen = struct.unpack('<H', data[pos + 10:pos + 12])[0]
        x = data[pos + 12:pos + 12 + xlen]
        while x:
            if len(x) < 4:
                raise Bad(f'bad gzip extra field at {pos}')
            l = struct.unpack('<H', x[2:4])[0]
            if len(x) < 4 + l:
                raise Bad(f'bad gzip extra field at {pos}')
            extra[x[:2]] = x[4:4 + l]
            x = x[4 + l:]
    d = zlib.decompressobj(31)
    try:
        plain = d.decompress(data[pos:])
    except zlib.error as e:
        raise Bad(f'gzip member at {pos}: {e}')
    if not d.eof:
        raise Bad(f'truncated gzip member at {pos}')
    return len(data) - len(d.unused_data), plain, extra


def gunzip_all(data):
    """Plain bytes of a file of gzip members; Bad if it is not exactly that"""
    out, pos, n = b'', 0, 0
    while pos < len(data):
        pos, p, _ = gz_member(data, pos)
        out += p
        n += 1
    return out, n


class Rec:
    __slots__ = ('silo', 'off', 'end', 'hdr', 'names', 'version', 'rid', 'type', 'body', 'hlen', 'blen', 'raw')

    def get(self, n):
        return self.hdr.get(n.lower())


def parse_header(plain, where):
    if not plain.endswith(b'\r\n\r\n'):
        raise Bad(f'{where}: header does not end in an empty line')
    lines = plain[:-4].split(b'\r\n')
    if lines[0] not in (b'WARC/1.1', b'WARC/1.0'):
        raise Bad(f'{where}: version line {lines[0]!r}')
    hdr, names = {}, []
    for l in lines[1:]:
        n, sep, v = l.partition(b': ')
        if not sep or not re.fullmatch(rb'[A-Za-z0-9-]+', n) or b'\r' in v or b'\n' in v:
            raise Bad(f'{where}: header line {l!r}')
        n = n.decode()
        if n.lower() in hdr:
            raise Bad(f'{where}: two {n} headers')
        hdr[n.lower()] = v.decode('latin-1')
        names.append(n)
    return hdr, names, lines[0].decode()


def member(plain, comp):
    """a gzip member as archives have them"""
    c = zlib.compressobj(9 if comp else 0, zlib.DEFLATED, -15)
    d = c.compress(plain) + c.flush()
    tl = struct.pack('<II', zlib.crc32(plain), len(plain) & 0xffffffff)
    n = 10 + 2 + 12 + len(d) + 8
    return b'\x1f\x8b\x08\x04\0\0\0\0\2\3' + struct.pack('<H', 12) + b'Aa' + struct.pack('<HQ', 8, n) + d + tl


def old(data, no, prefix, id_len, every=1):
    """a silo with (every nth of) its records as WARC 1.0"""
    out = b''
    for i, r in enumerate(parse_silo(data, no, prefix, id_len)):
        _, plain, _ = gz_member(data, r.off)
        if i % every == 0:
            plain = b'WARC/1.0' + plain[8:]
        out += member(plain, True) + data[r.off + r.hlen:r.end]
    return out


def parse_silo(data, no, prefix, id_len, basename='%08u.warc.gz'):
    """Every record of a silo; Bad on the first thing that is not right"""
    recs, pos = [], 0
    idre = re.escape(prefix) + r'[0-9a-fA-F]{%d}' % id_len
    while pos < len(data):
        w = f'silo {no} @{pos}'
        r = Rec()
        r.silo, r.off = no, pos
        e, plain, x = gz_member(data, pos)
        aa = x.get(b'Aa')
        if aa is None or len(aa) != 8 or struct.unpack('<Q', aa)[0] != e - pos:
            raise Bad(f'{w}: header length field {aa!r}, header is {e - pos} bytes')
        r.hlen = e - pos
        r.hdr, r.names, r.version = parse_header(plain, w)
        b0 = e
        e, r.body, x = gz_member(data, b0)
        aa = x.get(b'Aa')
        if aa is None or len(aa) != 8 or struct.unpack('<Q', aa)[0] != e - b0:
            raise Bad(f'{w}: body length field {aa!r}, body is {e - b0} bytes')
        r.blen = e - b0
        r.raw = data[b0:e]
        e, plain, x = gz_member(data, e)
        if plain != b'\r\n\r\n':
            raise Bad(f'{w}: record does not end in CRLF CRLF')
        r.end = e
        pos = e
        for must in ('WARC-Record-ID', 'Content-Length', 'Content-Type', 'WARC-Block-Digest', 'WARC-Date', 'WARC-Type'):
            if r.get(must) is None:
                raise Bad(f'{w}: no {must} header')
        m = re.fullmatch('<(' + idre + ')>', r.get('WARC-Record-ID'))
        if not m:
            raise Bad(f'{w}: WARC-Record-ID {r.get("WARC-Record-ID")}')
        r.rid = m.group(1)[len(prefix):].lower()
        r.type = r.get('WARC-Type')
        if r.type not in ('warcinfo', 'resource', 'metadata', 'continuation'):
            raise Bad(f'{w}: WARC-Type {r.type}')
        if r.get('Content-Length') != str(len(r.body)):
            raise Bad(f'{w}: Content-Length {r.get("Content-Length")}, block is {len(r.body)} bytes')
        if r.get('WARC-Block-Digest') != 'sha256:' + SHA(r.body):
            raise Bad(f'{w}: WARC-Block-Digest does not match the block')
        if not re.fullmatch(r'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ', r.get('WARC-Date')):
            raise Bad(f'{w}: WARC-Date {r.get("WARC-Date")}')
        for ref in ('WARC-Refers-To', 'WARC-Segment-Origin-ID'):
            v = r.get(ref)
            if v is not None and not re.fullmatch('<' + idre + '>', v, re.I if ref == 'WARC-Refers-To' else 0):
                raise Bad(f'{w}: {ref} {v}')
        if (r.get('WARC-Refers-To') is not None) != (r.type == 'metadata') and r.type != 'continuation':
            raise Bad(f'{w}: WARC-Refers-To on {r.type}')
        if (r.type == 'warcinfo') != (r.off == 0):
            raise Bad(f'{w}: {r.type} record')
        if r.type == 'warcinfo':
            if r.get('WARC-Filename') != basename % no:
                raise Bad(f'{w}: WARC-Filename {r.get("WARC-Filename")}')
            if r.rid != SHA(r.body)[:id_len]:
                raise Bad(f'{w}: warcinfo ID is not its digest')
        if r.type == 'continuation' and r.rid != SHA(r.body)[:id_len]:
            raise Bad(f'{w}: continuation ID is not its digest')
        recs.append(r)
    if not recs:
        raise Bad(f'silo {no}: empty')
    return recs


def silo_path(no, basename='%08u.warc.gz'):
    if no < 100:
        return '0/' + basename % no
    if no < 10000:
        return '1/%02d/' % (no // 100) + basename % no
    if no < 1000000:
        return '2/%02d/%02d/' % (no // 10000, no // 100 % 100) + basename % no
    if no < 100000000:
        return '3/%02d/%02d/%02d/' % (no // 1000000, no // 10000 % 100, no // 100 % 100) + basename % no
    return '4/%02d/%02d/%02d/%02d/' % (no // 100000000, no // 1000000 % 100, no // 10000 % 100, no // 100 % 100) + basename % no


def silo_no(rel, basename_re=r'(\d{8,})\.warc\.gz', base=10):
    m = re.fullmatch(r'(?:\d+/)+' + basename_re, rel)
    return int(m.group(1), base) if m else None


class Obj:
    """A stored object: resource or metadata, with all its segments"""
    __slots__ = ('rid', 'type', 'content', 'segs', 'mime', 'ref', 'alts')


class View:
    """What the silos of a snapshot contain"""

    def __init__(self, snap, arch=None, prefix='file://ex/', id_len=32, max_size=None, basename='%08u.warc.gz', dups_ok=False):
        self.dups_ok = dups_ok
        if arch is not None:
            prefix, id_len = arch.prefix, arch.id_len
            basename = arch.kw.get('basename') or basename
        self.problems = []
        self.silos = {}
        self.objs = {}       # rid -> [Obj]
        self.orphans = []    # incomplete segmented objects
        self.prefix = prefix
        m = re.fullmatch(r'(.*)%(?:0(\d+))?([ux])(.*)', basename)
        base = 16 if m.group(3) == 'x' else 10
        bre = '%s([0-9%s]{%d,})%s' % (re.escape(m.group(1)), 'a-f' if base == 16 else '', int(m.group(2) or 1), re.escape(m.group(4)))
        for rel in sorted(snap.files):
            if rel.endswith('.hold') or rel.startswith('index.') or rel == '_.cache':
                continue
            no = silo_no(rel, bre, base)
            if no is None or rel != silo_path(no, basename):
                self.problems.append(f'unexpected file {rel}')
                continue
            data = snap.files[rel][2]
            if max_size is not None and len(data) > max_size:
                self.problems.append(f'silo {no} is {len(data)} bytes, silo.max_size is {max_size}')
            try:
                self.silos[no] = parse_silo(data, no, prefix, id_len, basename)
            except Bad as e:
                self.problems.append(str(e))
        self._assemble(id_len)

    def _assemble(self, id_len):
        conts = {}
        for no in sorted(self.silos):
            for r in self.silos[no]:
                if r.type == 'continuation':
                    o, n = r.get('WARC-Segment-Origin-ID'), r.get('WARC-Segment-Number')
                    if o is None or n is None or not re.fullmatch('[1-9][0-9]*', n) or int(n) < 2:
                        self.problems.append(f'silo {no} @{r.off}: continuation without origin or number')
                        continue
                    conts.setdefault(o[1 + len(self.prefix):-1].lower(), {}).setdefault(int(n), []).append(r)
        used = set()
        for no in sorted(self.silos):
            for r in self.silos[no]:
                if r.type not in ('resource', 'metadata'):
                    continue
                o = Obj()
                o.rid, o.type, o.mime, o.ref = r.rid, r.type, r.get('Content-Type'), r.get('WARC-Refers-To')
                if r.get('WARC-Segment-Number') is None:
                    for h in ('WARC-Payload-Digest', 'WARC-Segment-Total-Length', 'WARC-Segment-Origin-ID'):
                        if r.get(h) is not None:
                            self.problems.append(f'silo {no} @{r.off}: {h} on an unsegmented record')
                    o.content, o.segs, o.alts = r.body, [r], []
                    self.objs.setdefault(o.rid, []).append(o)
                    continue
                if r.get('WARC-Segment-Number') != '1':
                    self.problems.append(f'silo {no} @{r.off}: segment number {r.get("WARC-Segment-Number")} on {r.type}')
                    continue
                # depth-first over candidates (an interrupted store may have left others)
                want = r.get('WARC-Payload-Digest')
                found = None
                steps = 30000

                def rec(n, acc, total):
                    nonlocal found, steps
                    steps -= 1
                    # (in damaged archives there may be too many ways to put the segments together)
                    if found or steps < 0:
                        return
                    for c in conts.get(r.rid, {}).get(n, ()):
                        t = c.get('WARC-Segment-Total-Length')
                        tot = total + len(c.body)
                        if t is not None:
                            if t == str(tot) and want == 'sha256:' + SHA(b''.join(x.body for x in acc + [c])):
                                found = acc + [c]
                                return
                        else:
                            rec(n + 1, acc + [c], tot)
                rec(2, [r], len(r.body))
                if not found:
                    self.orphans.append(r)
                    continue
                for c in found:
                    used.add((c.silo, c.off))
                # stored twice at the same time: either copy of a segment will do
                o.alts = [[d for d in conts[r.rid].get(i + 2, ()) if self.dups_ok and d.body == c.body and (d.silo, d.off) != (c.silo, c.off)] for i, c in enumerate(found[1:])]
                for l in o.alts:
                    for c in l:
                        used.add((c.silo, c.off))
                o.segs = found
                o.content = b''.join(c.body for c in found)
                self.objs.setdefault(o.rid, []).append(o)
        for d in conts.values():
            for l in d.values():
                for c in l:
                    if (c.silo, c.off) not in used:
                        self.orphans.append(c)
        for rid, l in self.objs.items():
            for o in l:
                if o.type == 'resource' and rid != SHA(o.content)[:id_len]:
                    self.problems.append(f'resource {rid}: ID is not the digest of its content')

    def expected_index(self):
        """The index entries these silos ask for: set of (key24, flags, silo, off, cont8)"""
        out = set()
        for no, recs in self.silos.items():
            for r in recs:
                if r.type == 'warcinfo':
                    out.add((key24(r.rid), F_WARCINFO, no, r.off, '0' * 8))
        for l in self.objs.values():
            for o in l:
                n = len(o.segs)
                for i, r in enumerate(o.segs):
                    f = 0
                    if r.type == 'resource':
                        f |= F_RESOURCE
                    if r.type == 'metadata':
                        f |= F_METADATA
                    cont = '0' * 8
                    if n > 1:
                        f |= F_SEG
                        if i == 0:
                            f |= F_FIRST
                        if i == n - 1:
                            f |= F_LAST
                        else:
                            cont = o.segs[i + 1].rid[:8]
                    for q in [r] + (o.alts[i - 1] if i and o.alts else []):
                        out.add((key24(r.rid), f, q.silo, q.off, cont))
        return out


def key24(rid):
    return (rid.lower() + '0' * 24)[:24]


# --------------------------------------------------------------------- index
def parse_recs(b):
    if len(b) % 32:
        raise Bad(f'index of {len(b)} bytes')
    out = []
    for i in range(0, len(b), 32):
        r = b[i:i + 32]
        fl, si = struct.unpack('>II', r[12:20])
        off = struct.unpack('>Q', r[20:28])[0]
        out.append((r[:12].hex(), fl, si, off, r[28:].hex()))
    return out


def enc_rec(key, flags, silo, off, cont='0' * 8):
    return bytes.fromhex(key24(key)) + struct.pack('>IIQ', flags, silo, off) + bytes.fromhex((cont + '0' * 8)[:8])


def parse_sorted(b):
    h = struct.unpack('>Q', b[:8])[0]
    if h >> 48 != 0x4161:
        raise Bad('index.sorted: bad magic')
    nb = (h >> 40) & 0xff
    tl = 8 << nb
    if len(b) < tl:
        raise Bad('index.sorted: short bucket table')
    recs = parse_recs(b[tl:])
    if any(recs[i] > recs[i + 1] for i in range(len(recs) - 1)):
        raise Bad('index.sorted: not sorted')
    return recs


def read_index(snap):
    """All index entries in a snapshot, by file"""
    out = {}
    for name in ('index.sorted', 'index.appendix', 'index.housekeep'):
        if name in snap.files:
            b = snap.files[name][2]
            out[name] = parse_sorted(b) if name == 'index.sorted' else parse_recs(b)
    return out


def index_set(snap):
    s = set()
    for l in read_index(snap).values():
        s |= set(l)
    return s
