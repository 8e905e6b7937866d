"""Contents by name, so that a case is a few characters: <kind><size>[.<variant>]"""
import functools, gzip, hashlib, zlib

CRNL = bytes.fromhex('1f8b080020011966 0203e3e5e2e5020044 15c28b04000000'.replace(' ', ''))


@functools.lru_cache(maxsize=64)
def gen(spec):
    if spec[0] == '[':      # [from:to]spec
        ab, _, sub = spec[1:].partition(']')
        lo, _, hi = ab.partition(':')
        return gen(sub)[int(lo):int(hi)]
    if '+' in spec:         # one after the other
        return b''.join(gen(x) for x in spec.split('+'))
    if spec[0] == 'x':
        return bytes.fromhex(spec[1:])
    k = spec[0]
    n, _, v = spec[1:].partition('.')
    n = int(n)
    if k == 'r':      # incompressible
        return hashlib.shake_256(b'r' + v.encode()).digest(n)
    if k == 'z':      # one byte value
        return bytes([int(v or 0)]) * n
    if k == 'h':      # compresses to about half
        return hashlib.shake_256(b'h' + v.encode()).hexdigest((n + 1) // 2)[:n].encode()
    if k == 't':      # text lines
        out, i = [], 0
        l = 0
        while l < n:
            s = b'line %d of text %s\r\n' % (i * 7919 % 1000, v.encode())
            out.append(s)
            l += len(s)
            i += 1
        return b''.join(out)[:n]
    if k == 'g':      # gzip data
        d = gzip.compress(hashlib.shake_256(b'g' + v.encode()).digest(n), mtime=0)
        return (d * (n // len(d) + 1))[:n]
    if k == 'w':      # bytes that look like the archive's own framing
        d = CRNL + b'WARC/1.1\r\nWARC-Record-ID: <file://ex/%s>\r\n\r\n' % (b'0' * 32) + CRNL + b'\r\n\r\n'
        d += v.encode()
        return (d * (n // len(d) + 1))[:n]
    if k == 'm':      # alternating compressible and incompressible stretches
        out, i, l = [], 0, 0
        while l < n:
            d = hashlib.shake_256(b'm%d' % i + v.encode()).digest(700) if i & 1 else b'\0' * 3000
            out.append(d)
            l += len(d)
            i += 1
        return b''.join(out)[:n]
    raise ValueError(spec)


def sha(b):
    return hashlib.sha256(b).hexdigest()
