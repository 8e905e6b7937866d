"""FIPS 197, encryption only"""


def _tables():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ (p << 1 & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 255
        if q & 128:
            q ^= 9
        x = q
        for i in range(1, 5):
            x ^= (q << i | q >> 8 - i) & 255
        s[p] = x ^ 0x63
        if p == 1:
            break
    s[0] = 0x63
    t0 = []
    for x in s:
        x2 = x << 1 ^ (0x11b if x & 128 else 0)
        t0.append(x2 << 24 | x << 16 | x << 8 | x2 ^ x)
    rot = lambda t: [(x >> 8 | x << 24) & 0xffffffff for x in t]
    t1 = rot(t0)
    t2 = rot(t1)
    return s, t0, t1, t2, rot(t2)


S, T0, T1, T2, T3 = _tables()


def _sub(w):
    return S[w >> 24] << 24 | S[w >> 16 & 255] << 16 | S[w >> 8 & 255] << 8 | S[w & 255]


def expand(key):
    nk = len(key) // 4
    w = [int.from_bytes(key[4 * i:4 * i + 4], 'big') for i in range(nk)]
    rcon = 1
    for i in range(nk, 4 * (nk + 7)):
        t = w[-1]
        if i % nk == 0:
            t = _sub((t << 8 | t >> 24) & 0xffffffff) ^ rcon << 24
            rcon = rcon << 1 ^ (0x11b if rcon & 128 else 0)
        elif nk > 6 and i % nk == 4:
            t = _sub(t)
        w.append(w[i - nk] ^ t)
    return w


def block(w, n):
    a, b, c, d = (n >> 96 ^ w[0]), (n >> 64 & 0xffffffff) ^ w[1], (n >> 32 & 0xffffffff) ^ w[2], (n & 0xffffffff) ^ w[3]
    last = len(w) - 4
    for k in range(4, last, 4):
        a, b, c, d = (T0[a >> 24] ^ T1[b >> 16 & 255] ^ T2[c >> 8 & 255] ^ T3[d & 255] ^ w[k],
                      T0[b >> 24] ^ T1[c >> 16 & 255] ^ T2[d >> 8 & 255] ^ T3[a & 255] ^ w[k + 1],
                      T0[c >> 24] ^ T1[d >> 16 & 255] ^ T2[a >> 8 & 255] ^ T3[b & 255] ^ w[k + 2],
                      T0[d >> 24] ^ T1[a >> 16 & 255] ^ T2[b >> 8 & 255] ^ T3[c & 255] ^ w[k + 3])
    o = 0
    for i, (x, y, z, u) in enumerate(((a, b, c, d), (b, c, d, a), (c, d, a, b), (d, a, b, c))):
        o = o << 32 | (S[x >> 24] << 24 | S[y >> 16 & 255] << 16 | S[z >> 8 & 255] << 8 | S[u & 255]) ^ w[last + i]
    return o.to_bytes(16, 'big')
