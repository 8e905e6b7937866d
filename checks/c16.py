"""C16: CGI responses are complete and describe what is sent."""
import itertools
from mc.core import family
from mc.gen import gen, sha
from mc import big, warc, hist

LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration of the real program: breadth-first search over operation histories; in every archive reached every ID there is (objects, continuations, silo headers, absent and malformed ones) is requested in every form, and the response is parsed by an independent HTTP reader'
NOTE = 'Histories to depth 3 (4); all combinations of path form, method, gateway interface and Accept-Encoding over alphabets of 14, 6, 4 and 12 values for one archive; every object size 1..64 and around the page and buffer sizes; three ID lengths.'
ASSUMPTIONS = ['contents come from a fixed alphabet; histories are enumerated exhaustively to the stated depth', 'the web server passes the request in the environment, as CGI/1.1 says']

ACCEPT = [(None, False), ('', False), ('gzip', True), ('deflate', False), ('deflate, gzip', True), ('gzip, deflate, br', True), ('identity', False), ('gzip;q=1.0, identity; q=0.5', True),
          ('gzip;q=0', False), ('identity, gzip; q=0.0', False), ('x-gzip', True), ('gzip;q=0.001', True)]


def cgi(a, path, method='GET', gw='CGI/1.1', accept=None, args=()):
    env = []
    for n, v in (('PATH_INFO', path), ('REQUEST_METHOD', method), ('GATEWAY_INTERFACE', gw), ('HTTP_ACCEPT_ENCODING', accept)):
        if v is not None:
            env.append(f'{n}={v}')
    return a.op('cgi', *args, env=env)


def parse(out):
    """(headers, body) of a CGI response, or None"""
    h, sep, body = out.partition(b'\n\n')
    if not sep:
        return None
    hd = {}
    for l in h.split(b'\n'):
        l = l.rstrip(b'\r')
        n, c, v = l.partition(b':')
        if not c or n.lower() in hd:
            return None
        hd[n.lower().decode('latin-1')] = v.strip().decode('latin-1')
    return hd, body


def good(w, what, r, o, gz, seg):
    """the response must be object o"""
    p = parse(r.out)
    if not r.ok() or p is None:
        w.bad('fails', f'{what}: {r.status()} {r.out[:200]!r} {r.err[-200:]!r}')
        return
    hd, body = p
    if hd.get('status', '').split(' ')[0] != '200':
        w.bad('status', f'{what}: Status is {hd.get("status")!r}')
    if hd.get('content-type') != o['mime']:
        w.bad('type', f'{what}: Content-Type is {hd.get("content-type")!r}, stored as {o["mime"]!r}')
    if hd.get('content-length') != str(len(body)):
        w.bad('length', f'{what}: Content-Length is {hd.get("content-length")!r}, {len(body)} bytes follow')
    ce = hd.get('content-encoding')
    data = body
    if ce is not None:
        if ce != 'gzip' or not gz:
            w.bad('encoding', f'{what}: Content-Encoding is {ce!r}')
        try:
            data, n = warc.gunzip_all(body)
            if n != 1:
                w.bad('members', f'{what}: {n} gzip members')
        except warc.Bad as e:
            w.bad('gzip', f'{what}: {e}')
            return
    if data != o['content']:
        w.bad('content', f'{what}: {len(data)} bytes which are not those stored')


def refused(w, what, r, contents=()):
    p = parse(r.out)
    if r.kind != 'exit':
        w.bad('crash', f'{what}: {r.status()} {r.err[-200:]!r}')
    elif r.ok():
        if p is None:
            w.bad('no-response', f'{what}: exit 0 with {r.out[:200]!r}')
        elif not p[0].get('status', '200')[:1] in '45':
            w.bad('not-refused', f'{what}: {r.out[:200]!r}')
    for c in contents:
        if len(c) > 8 and c in r.out:
            w.bad('leaks', f'{what}: sends an object')


def forms(a, rid):
    """ways to ask for an ID"""
    yield from ('/' + rid, rid, '/' + a.prefix + rid, a.prefix + rid, '/' + rid.upper(), '/' + a.prefix.upper() + rid)


def objects(wd, a):
    return {rid: dict(content=o['content'], mime={'resource': 'application/octet-stream', 'metadata': 'text/plain'}[o['type']], seg=False) for rid, o in wd.objs.items()}


def state(w, h, wd, a):
    v = warc.View(wd.snap, a)
    obj = objects(wd, a)
    for rid, o in obj.items():
        for i, f in enumerate(forms(a, rid)):
            for acc, gz in (ACCEPT if i == 0 else ACCEPT[:3]):
                good(w, f'after {wd.path}: GET {f} (Accept-Encoding {acc!r})', cgi(a, f, accept=acc), o, gz, False)
                w.count('transitions')
    # records which are not objects
    for no, recs in v.silos.items():
        for r in recs:
            if r.rid not in obj:
                for acc in (None, 'gzip'):
                    refused(w, f'after {wd.path}: GET of {r.type} record {r.rid}', cgi(a, '/' + r.rid, accept=acc), [r.body])
                    w.count('transitions')
    for rid in ('0' * a.id_len, sha(b'absent')[:a.id_len]):
        refused(w, f'after {wd.path}: GET of {rid}', cgi(a, '/' + rid), [o['content'] for o in obj.values()])
        w.count('transitions')
    if a.snap().canon() != wd.snap.canon():
        w.bad('changed', f'after {wd.path}: cgi changed the archive')


def step(w, h, w0, op, r, w1):
    hist.step_ack(w, h, w0, op, r, w1)


H = hist.make('c16', confs=({'max_size': '4k'}, {'max_size': '15k'}), state=state, step=step)
H128 = H
H80 = hist.make('c16s', confs=({'max_size': '4k', 'id_bits': 80},), state=state, step=step)
H256 = hist.make('c16l', confs=({'max_size': '4k', 'id_bits': 256, 'prefix': 'http://x.example/a/'},), state=state, step=step)
ALPHA = [['store', 'r300.a'], ['store', 'z9'], ['store', 'r7000.d'], ['store', 'z500000'], ['meta', 'r300.a', 'r60.m'], ['meta', 'r300.a', 'r4000.s'], ['hk'], ['run', 'mksilo', '120'], ['ro', 0], ['conf', 1]]


def alphabet(wd, d):
    for op in ALPHA:
        if op[0] == 'meta' and not any(o['spec'] == op[1] for o in wd.objs.values()):
            continue
        if op[0] == 'conf' and wd.conf == op[1] or op[0] == 'hk' and 'index.appendix' not in wd.snap.files:
            continue
        yield op


@family
def c16_sizes(w, case):
    """objects of every size"""
    wd = H.build(w, [['store', s] for s in case['specs']])
    a = H.arch(w, 0)
    a.restore(wd.snap)
    obj = objects(wd, a)
    if len(obj) != len(case['specs']):
        w.bad('store', f'{case}: not all stored')
    for rid, o in obj.items():
        for acc, gz in ACCEPT[:3]:
            good(w, f'{case["specs"]}: GET {rid} (Accept-Encoding {acc!r})', cgi(a, '/' + rid, accept=acc), o, gz, False)
            w.count('transitions')
    w.seen('states', wd.key()[:16])


def acceptable(v):
    """may gzip be sent to who says so?"""
    for e in v.split(','):
        c, *ps = [x.strip(' \t') for x in e.split(';')]
        if c.lower() in ('gzip', 'x-gzip', '*'):
            q = [x[2:] for x in ps if x[:2].lower() == 'q=']
            if not q or float(q[0]) > 0:
                return True
    return False


CODINGS = ('gzip', 'GZIP', 'Gzip', 'x-gzip', 'gzipx', 'gzi', 'gz', 'g', 'xgzip', 'gzip-x', 'gzip2', 'zgzip', 'x-gzipx', 'deflate', 'identity', 'br', 'compress', 'zip')
QS = ('', ';q=0', ';q=0.0', ';q=0.00', ';q=0.000', ';q=1', ';q=1.000', ';q=0.5', ';q=0.001', ';q=0.1', ';Q=0', '; q=0', ' ;q=0', ' ; q=0.0', ';q=0.9 ', ';\tq=0')


@family
def c16_accept(w, case):
    """whatever Accept-Encoding says"""
    wd = H.build(w, [['store', 'h300.a']])
    a = H.arch(w, 0)
    a.restore(wd.snap)
    (rid, o), = objects(wd, a).items()
    for v in case['vs']:
        good(w, f'Accept-Encoding {v!r}', cgi(a, '/' + rid, accept=v), o, acceptable(v), False)
        w.count('transitions')
        w.seen('states', ('accept', v))


@family
def c16_large(w, case):
    """objects of megabytes, in one and in several segments"""
    a = w.arch('c16b', max_size=case['max'])
    a.reset()
    a.srv.big = True
    try:
        o = dict(content=gen(case['spec']), mime='application/octet-stream')
        a.must_store(o['content'])
        rid = sha(o['content'])[:a.id_len]
        for acc in (None, 'gzip'):
            good(w, f'{case}: GET (Accept-Encoding {acc!r})', cgi(a, '/' + rid, accept=acc), o, acc is not None, False)
            w.count('transitions')
        w.seen('states', ('large', str(case)))
    finally:
        a.srv.big = False
        a.reset()


@family
def c16_huge(w, case):
    """an object of more than 4 GB"""
    a = w.arch('c16g', max_size='20m')
    a.reset()
    try:
        n = case['n']
        rid = big.archive(w, a, gen('z500'), [n])
        for acc in (None, 'gzip'):
            r = big.stream(a, ['cgi'], env=[f'PATH_INFO=/{rid}', 'REQUEST_METHOD=GET', 'GATEWAY_INTERFACE=CGI/1.1'] + ([f'HTTP_ACCEPT_ENCODING={acc}'] if acc else []), keep=None, gunzip=False if acc is None else None)
            w.count('transitions')
            p = parse(r.head)
            what = f'GET of {n} zeros (Accept-Encoding {acc!r})'
            if r.rc != 0 or p is None:
                w.bad('huge-fails', f'{what}: ends with {r.rc}, {r.head[:300]!r} {r.err[-200:]!r}')
                continue
            if p[0].get('status', '').split(' ')[0] != '200' or p[0].get('content-length') != str(r.raw):
                w.bad('huge-length', f'{what}: {p[0]}, {r.raw} bytes follow')
            if r.n != n or not r.zeros or (r.gz and acc is None) or r.gz != (p[0].get('content-encoding') == 'gzip'):
                w.bad('huge-content', f'{what}: {p[0]}, {r.n} bytes, {"all" if r.zeros else "not all"} zeros')
        w.seen('states', ('huge', n))
    finally:
        a.reset()
    w.count('traces')


@family
def c16_forms(w, case):
    """every combination of what the environment may say"""
    wd = H.build(w, [['store', 'r300.a'], ['store', 'r7000.d'], ['meta', 'r300.a', 'r60.m']])
    a = H.arch(w, 0)
    a.restore(wd.snap)
    obj = objects(wd, a)
    ids = sorted(obj)
    rid = ids[case['i']]
    contents = [o['content'] for o in obj.values()]
    paths = [(f, True) for f in forms(a, rid)] + [(x, False) for x in (
        '', '/', '//' + rid, '/' + rid[:-1], '/' + rid + '0', '/' + rid + '/', '/' + rid + ' ', '/x' + rid[1:], rid[:-1] + 'g', '/file://ey/' + rid, '/file:/ex/' + rid, '/' + a.prefix, '/' + a.prefix + a.prefix + rid,
        '/../' + rid, '/' + rid + '\n', '/' + '0' * 1000, '/%' + rid, '/' + rid + '%s', None)]
    for (path, ok), (meth, m_ok), (gw, g_ok), (acc, gz) in itertools.product(
            paths, (('GET', 1), ('HEAD', 0), ('POST', 0), ('get', 0), ('', 0), (None, 0)) + tuple((m, 0) for m in ('G', 'GE', 'GETS', 'GET ', ' GET', 'Get', 'PUT', 'DELETE', 'OPTIONS', 'TRACE', 'CONNECT', 'PATCH')),
            (('CGI/1.1', 1), ('CGI/1.0', 0), ('', 0), (None, 0), ('CGI/1.10', 0), ('CGI/1.', 0), ('CGI/1.2', 0), ('CGI/2.1', 0), ('cgi/1.1', 0), ('CGI/1.1 ', 0)), ACCEPT):
        if not (m_ok or g_ok) or not ok and not (m_ok and g_ok) or not (m_ok and g_ok) and acc not in (None, 'gzip'):
            continue
        r = cgi(a, path, meth, gw, acc)
        w.count('transitions')
        w.seen('states', (rid, path, meth, gw, acc))
        what = f'{meth} {path!r} ({gw}, Accept-Encoding {acc!r})'
        if ok and m_ok and g_ok:
            good(w, what, r, obj[rid], gz, False)
        else:
            refused(w, what, r, contents)
    for args in (('x',), ('-h',), ('-x',), ('/' + rid,)):
        r = cgi(a, '/' + rid, args=args)
        w.count('transitions')
        if r.ok():
            w.bad('args', f'cgi {args}: {r.out[:100]!r}')
        refused(w, f'cgi {args}', r, contents)
    w.count('traces')


def check(ctx):
    ctx.beside(c16_huge, [dict(n=2**32 + 5)])
    one = [c + q for c in CODINGS for q in QS] + ['*' + q for q in QS]
    # as the only one, and before and after another
    vs = one + [f'{o}{sep}{v}' for v in one if 'gz' in v.lower() for o in ('deflate', 'br;q=0.5', 'gzip;q=0', 'gzipx', 'x-gzip; q=0') for sep in (', ', ',')]
    vs += [f'{v}{sep}{o}' for v in one if 'gz' in v.lower() for o in ('deflate', 'identity;q=1', 'gzip;q=0', 'gzipx;q=1', '') for sep in (', ', ' ,')]
    ctx.explore(c16_accept, [dict(vs=vs[i:i + 40]) for i in range(0, len(vs), 40)])
    ctx.bound(f'{len(vs)} values of Accept-Encoding: {len(CODINGS)} codings with {len(QS)} weights each, alone, before and after others')
    ctx.explore(c16_large, [dict(spec=s, max=m) for s, m in (('z16777215', '1m'), ('z16777216', '1m'), ('z16777217', '1m'), ('z20000000', '1m'), ('z36000000', '1m'), ('r1000000', '400k'), ('r1048577', '400k'), ('r1200000', '400k'), ('r1200000', '2m'),
                                                             ('r2400000', '400k'), ('h3000000', '400k'), ('z20000000', '15k'), ('r17000000', '20m'))])
    ctx.bound('objects of 16 MB (one segment) and of 1 to 20 MB in up to several segments; one of 2^32 + 5 zeros')
    H.bfs(ctx, alphabet, ctx.n(3, 4), limit=ctx.n(3000, 20000))
    H80.bfs(ctx, alphabet_short, 2)
    H256.bfs(ctx, alphabet_short, 2)
    sizes = list(range(1, 65)) + [127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 2850, 2881, 2882, 2883, 2884, 4000, 4095, 4096, 4097, 5750, 5751, 5752, 8191, 8192, 8193]
    specs = [f'{k}{n}.{n & 255}' for n in sizes for k in ('r' if n < 8 else 'rz')]
    specs += ['z%d' % n for n in (65535, 65536, 131071, 131072, 131073, 409599, 409600, 409601, 1000000)] + ['w3000', 'g3000', 'm30000', 'h60000', 't60000']
    seen, todo = set(), []
    for s in specs:
        if gen(s) not in seen:
            seen.add(gen(s))
            todo.append(s)
    ctx.explore(c16_sizes, [dict(specs=todo[i:i + 4]) for i in range(0, len(todo), 4)])
    ctx.explore(c16_forms, [dict(i=i) for i in range(3)])
    ctx.bound(f'{len(todo)} object sizes; all request forms')


def alphabet_short(wd, d):
    for op in alphabet(wd, d):
        if op[0] in ('store', 'meta'):
            yield op
