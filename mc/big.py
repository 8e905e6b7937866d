"""Objects of gigabytes (zeros), made and read without holding them in memory"""
import hashlib, os, select, signal, struct, subprocess, time, zlib
from . import warc
from .run import BASE_ENV

MB = 1 << 20
ZERO = bytes(MB)
_sha, _crc = {}, {}


def sha_zeros(n):
    """SHA-256 of n zeros"""
    if n not in _sha:
        h = hashlib.sha256()
        for _ in range(n >> 20):
            h.update(ZERO)
        h.update(ZERO[:n & (MB - 1)])
        _sha[n] = h.hexdigest()
    return _sha[n]


def crc_zeros(n):
    if n not in _crc:
        c = 0
        for _ in range(n >> 20):
            c = zlib.crc32(ZERO, c)
        _crc[n] = zlib.crc32(ZERO[:n & (MB - 1)], c)
    return _crc[n]


def zeros_member(n):
    """a gzip member, as archives have them, of n zeros"""
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    one = c.compress(ZERO) + c.flush(zlib.Z_FULL_FLUSH)
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    # the last block is empty, as the program has it
    last = c.compress(ZERO[:n & (MB - 1)]) + c.flush(zlib.Z_FULL_FLUSH) + c.flush()
    d = one * (n >> 20) + last
    return b'\x1f\x8b\x08\x04\0\0\0\0\2\3' + struct.pack('<H', 12) + b'Aa' + struct.pack('<HQ', 8, 10 + 2 + 12 + len(d) + 8) + d + struct.pack('<II', crc_zeros(n), n & 0xffffffff)


def zeros_raw(f, n):
    """write a gzip member of n zeros, as long as they are, with holes"""
    nb, rest = divmod(n, 65535)
    f.write(b'\x1f\x8b\x08\x04\0\0\0\0\2\3' + struct.pack('<H', 12) + b'Aa' + struct.pack('<HQ', 8, 24 + nb * 65540 + 5 + rest + 2 + 8))
    f.flush()
    at = f.tell()
    for i in range(nb):
        os.pwrite(f.fileno(), b'\0\xff\xff\0\0', at)
        at += 65540
    os.pwrite(f.fileno(), b'\0' + struct.pack('<HH', rest, rest ^ 0xffff), at)
    f.seek(at + 5 + rest)
    f.write(b'\3\0' + struct.pack('<II', crc_zeros(n), n & 0xffffffff))


def archive(w, a, spec_data, sizes, lies=(), raw=False):
    """store an object, and let every one of its segments have so many zeros instead; lies: [segment, header, what it says]; raw: do not compress; -> ID"""
    r = a.must_store(spec_data)
    s = a.snap()
    v = warc.View(s, a)
    o = [o for l in v.objs.values() for o in l if o.content == spec_data][0]
    if len(o.segs) != len(sizes):
        raise RuntimeError(f'{len(o.segs)} segments, not {len(sizes)}')
    total = sum(sizes)
    rid = sha_zeros(total)[:a.id_len]
    for i, (g, n) in enumerate(zip(o.segs, sizes)):
        sid = rid if i == 0 else sha_zeros(n)[:a.id_len]
        ch = {'Content-Length': str(n), 'WARC-Block-Digest': 'sha256:' + sha_zeros(n), 'WARC-Payload-Digest': 'sha256:' + sha_zeros(total), 'WARC-Segment-Total-Length': str(total),
              'WARC-Segment-Origin-ID': f'<{a.prefix}{rid}>', 'WARC-Record-ID': f'<{a.prefix}{sid}>'}
        ch.update({k: v for n, k, v in lies if n == i})
        h = b'WARC/1.1\r\n' + b''.join(f'{k}: {ch.get(k, g.get(k))}\r\n'.encode('latin-1') for k in g.names) + b'\r\n'
        p = os.path.join(a.silo, warc.silo_path(g.silo))
        with open(p, 'rb') as f:
            d = f.read()
        with open(p, 'wb') as f:
            f.write(d[:g.off] + warc.member(h, True))
            if raw:
                zeros_raw(f, n)
            else:
                f.write(zeros_member(n))
            f.write(d[g.off + g.hlen + g.blen:])
    for f in os.listdir(a.silo):
        if f.startswith('index.'):
            os.unlink(os.path.join(a.silo, f))
    a.must('reindex')
    return rid


class Out:
    __slots__ = ('rc', 'n', 'raw', 'gz', 'head', 'zeros', 'err')


def stream(a, args, env=(), stdin=None, keep=0, timeout=400, gunzip=False):
    """run the program; what it prints is counted: n bytes after the first keep (or after the empty line, if keep is None), zeros: all of them are

    gunzip: it is gzip (None: if it looks so); n is of what is in it, raw as it is
    """
    p = subprocess.Popen([a.srv.exe, '-c', a.confpath, *args], cwd=a.dir, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=dict(e.split('=', 1) for e in list(BASE_ENV) + list(env)), start_new_session=True, bufsize=0)
    o = Out()
    o.n, o.raw, o.head, o.zeros, err = 0, 0, b'', True, b''
    end = time.time() + timeout
    fo, fe = p.stdout.fileno(), p.stderr.fileno()
    fi = p.stdin.fileno() if stdin is not None else None
    if fi is not None:
        os.set_blocking(fi, False)
    left, done, dz = stdin or 0, keep == 0, None
    if gunzip:
        dz = zlib.decompressobj(31)
    try:
        opened = {fo, fe}
        while opened and time.time() < end:
            rd, wr, _ = select.select(list(opened), [fi] if fi is not None else [], [], 5)
            if wr:
                try:
                    left -= os.write(fi, ZERO[:min(left, MB)])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    left = 0
                if not left:
                    p.stdin.close()
                    fi = None
            for f in rd:
                b = os.read(f, MB)
                if not b:
                    opened.discard(f)
                elif f == fe:
                    err = (err + b)[-4000:]
                else:
                    if not done:
                        o.head += b
                        at = o.head.find(b'\n\n') + 2 if keep is None else keep
                        if at < (2 if keep is None else 1) or len(o.head) < at:
                            continue
                        o.head, b = o.head[:at], o.head[at:]
                        done = True
                    if gunzip is None and b:
                        gunzip = b[:1] == b'\x1f'
                        if gunzip:
                            dz = zlib.decompressobj(31)
                    o.raw += len(b)
                    if dz:
                        while b:
                            if dz.eof:
                                dz = zlib.decompressobj(31)
                            x = dz.decompress(b, 8 * MB)
                            o.n += len(x)
                            o.zeros = o.zeros and not x.strip(b'\0')
                            b = dz.unconsumed_tail or dz.unused_data
                    else:
                        o.n += len(b)
                        o.zeros = o.zeros and (b == ZERO[:len(b)])
        if opened:
            os.killpg(p.pid, signal.SIGKILL)
        while dz and not dz.eof:
            x = dz.decompress(b'', 8 * MB)
            if not x:
                o.zeros = False
                break
            o.n += len(x)
            o.zeros = o.zeros and not x.strip(b'\0')
        o.rc = p.wait(timeout=60)
    except zlib.error:
        o.zeros = False
        os.killpg(p.pid, signal.SIGKILL)
        o.rc = p.wait()
    finally:
        if p.poll() is None:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        for f in (p.stdin, p.stdout, p.stderr):
            if f:
                f.close()
    o.err = err
    o.gz = dz is not None
    return o


def records(a):
    """(header, offset of the body's member) of every record, the bodies not read"""
    out = []
    for d, _, fs in sorted(os.walk(a.silo)):
        for f in sorted(fs):
            if f.endswith('.warc.gz'):
                with open(os.path.join(d, f), 'rb') as fh:
                    s = fh.read()
                pos = 0
                while pos < len(s):
                    end, plain, x = warc.gz_member(s[:pos + 4000], pos)
                    hdr, _, _ = warc.parse_header(plain, f'{f}:{pos}')
                    out.append((hdr, end))
                    n = struct.unpack('<H', s[end + 10:end + 12])[0]
                    aa = s.find(b'Aa\x08\0', end + 12, end + 12 + n)
                    pos, _, _ = warc.gz_member(s, end + struct.unpack('<Q', s[aa + 4:aa + 12])[0])
    return out
