"""C21: the configuration means what it says."""
import itertools, os, re
from mc.core import family
from mc.gen import gen, sha
from mc import warc
from mc.run import Proc

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of configuration texts (every edit of one byte, every short sequence of lines at every place, every value of each setting and every pair), judged by a model: an independent reader of the format says whether the text is to be refused or which settings it stands for, and the real program has to refuse it, or make, byte for byte, the archive it makes with those settings written plainly'
NOTE = 'All single-byte edits of a complete configuration over 11 bytes, and all deletions, truncations and exchanged lines; all pairs (thorough: triples at one place) out of 30 lines; all ID lengths 0..300; all sizes written in all ways; pairs of settings. Each with a history of five operations. The plain forms are judged by the independent WARC reader. Every operation refuses every bad configuration with a message and leaves the archive alone. silo.directory stays inside the scratch directory, so its values are few.'
ASSUMPTIONS = ['a comment runs from # to the end of the line anywhere, names are separated from values by white space, section names match without regard to case: ARCHITECTURE.md and the code say nothing else', 'whether a silo.max_size below 2k is usable depends on the lengths of the headers; it is refused or works']

WS = ' \t\v\f\r'
BASE = ('WARC-Record-ID:\n\tfile://ex/\t128\n\n'
        'warcinfo.body:\n\tdescription:\tmodel checked\n\toperator:  me and you\n\n'
        'silo.directory:\n\ts/\n\n'
        'silo.max_size:\n\t4k\n\n'
        'silo.basename:\n\t%08u.warc.gz\n\n'
        'index.sort_size:\n\t8k\n\n'
        'resource.mime-types:\n\tapplication/octet-stream\n\ttext/plain\n\n'
        'metadata.mime-types:\n\ttext/plain\n').encode()
DIR = BASE.index(b'\ts/\n') + 1


class Refuse(Exception):
    pass


def parse(t):
    """the sections of a text: {lower case name: [(name, arg or None)]}"""
    if any(c in (0, 0xc0, 0xc1) or c > 0xf4 for c in t):
        raise Refuse('not UTF-8')
    out, sec = {}, None
    for l in t.decode('latin-1').split('\n'):
        l = l.partition('#')[0].rstrip(WS)
        if not l:
            continue
        if l[0] not in WS:
            if l.find(':') != len(l) - 1:
                raise Refuse('section')
            if l[:-1].lower() in out:
                raise Refuse('duplicate')
            sec = out[l[:-1].lower()] = []
        elif sec is None:
            raise Refuse('no section')
        else:
            m = re.match(r'[ \t\v\f\r]+([^ \t\v\f\r]+)(?:[ \t\v\f\r]+(.*))?$', l, re.S)
            sec.append((m.group(1), m.group(2)))
    return out


def size(s):
    m = re.fullmatch(r'([+-]?)(\d+\.?\d*|\.\d+)(?:[eE]([+-]?\d+))?([kKmMgGtTpP]?)([bB]?)', s)
    if not m:
        raise Refuse(f'size {s}')
    from fractions import Fraction
    if abs(int(m.group(3) or 0)) > 400:
        raise Refuse('size')
    v = Fraction(m.group(2)) * Fraction(10) ** int(m.group(3) or 0) * 1024 ** ' kmgtp'.index((m.group(4) or ' ').lower())
    if m.group(1) == '-' and v:
        raise Refuse('negative')
    if v >= 2**63:
        raise Refuse('too big')
    # bytes are whole, and the program counts in double precision
    x = float(v)
    return int(x + 0.5) if m.group(4) or m.group(5) else int(x)


def settings(t):
    """what a text stands for: a tuple of plain settings"""
    c = parse(t)

    def one(n, default):
        if n not in c:
            if default is None:
                raise Refuse(n)
            return default
        if len(c[n]) != 1 or c[n][0][1] is not None:
            raise Refuse(n)
        return c[n][0][0]
    if len(c.get('warc-record-id', ())) != 1:
        raise Refuse('ID')
    prefix, bits = c['warc-record-id'][0]
    if not prefix.endswith('/') or '<' in prefix or '>' in prefix or len(prefix) > 512:
        raise Refuse('prefix')
    if bits is None:
        bits = 128
    else:
        m = re.fullmatch(r'\+?(?:(0[xX][0-9a-fA-F]+)|(0[0-7]*)|([1-9]\d*))', bits)
        if not m:
            raise Refuse('bits')
        bits = int(m.group(1), 16) if m.group(1) else int(m.group(2), 8) if m.group(2) else int(m.group(3))
    if bits < 64 or bits > 256 or bits % 4:
        raise Refuse('bits')
    d = one('silo.directory', None)
    if not d.endswith('/'):
        raise Refuse('directory')
    mx = size(one('silo.max_size', '3.5G'))
    bn = one('silo.basename', '%08u.warc.gz')
    if '/' in bn or not re.fullmatch(r"(?:[^%]|%%)*%[-0+ ']*\d*(?:\.\d*)?[diouxX](?:[^%]|%%)*", bn, re.S):
        raise Refuse('basename')
    ss = size(one('index.sort_size', '10M')) // 32 * 32
    if ss < 4096:
        raise Refuse('sort_size')
    wi = tuple((n, a) for n, a in c.get('warcinfo.body', ()) if n.lower() not in ('conformsto:', 'format:', 'software:', 'title:'))
    return prefix, bits, d, mx, bn, ss, wi, tuple(n for n, _ in c.get('resource.mime-types', ())), tuple(n for n, _ in c.get('metadata.mime-types', ()))


def plain(s):
    """the settings written plainly"""
    prefix, bits, d, mx, bn, ss, wi, res, meta = s
    t = f'metadata.mime-types:\n' + ''.join(f'\t{x}\n' for x in meta)
    t += f'WARC-Record-ID:\n\t{prefix}\t{bits}\nsilo.directory:\n\t{d}\nsilo.max_size:\n\t{mx}\nsilo.basename:\n\t{bn}\nindex.sort_size:\n\t{ss}\n'
    t += 'warcinfo.body:\n' + ''.join(f'\t{n}' + (f'\t{a}' if a is not None else '') + '\n' for n, a in wi)
    t += 'resource.mime-types:\n' + ''.join(f'\t{x}\n' for x in res)
    return t.encode('latin-1')


OPS = (('r100.a', ()), ('h5000.q', ('-m', 'text/plain')), ('r60.m', 'meta'), (None, ('housekeeping',)), ('r200.z', ()))


def dir_ok(d):
    """stays inside the scratch directory"""
    return re.fullmatch(r'(\./)*(s|t)/+(\.\./s/|\./)*', d)


def history(w, a, text, prefix, id_len, ops=OPS):
    """-> ([status, output] of each operation, what is there afterwards)"""
    a.reset()
    with open(a.confpath, 'wb') as f:
        f.write(text)
    out = []
    for spec, opt in ops:
        if spec is None:
            r = a.op(*opt)
        elif opt == 'meta':
            r = a.op('store', '-t', 'metadata', '-m', 'text/plain', '-r', (prefix + sha(gen('r100.a'))[:id_len]).encode('latin-1'), stdin=gen(spec))
        else:
            r = a.op('store', *opt, stdin=gen(spec))
        w.count('transitions')
        out.append((r.status(), r.out, r.err))
    r = a.op('info')
    out.append((r.status(), r.out, r.err))
    return out, a.snap()


PLAIN = {}


def plainly(w, a, s):
    """the history with the plain form of the settings, judged by the WARC reader"""
    if s in PLAIN:
        return PLAIN[s]
    prefix, bits, d, mx, bn, ss, wi, res, meta = s
    n = bits // 4
    out, snap = history(w, a, plain(s), prefix, n)
    what = f'settings {s}'
    a.prefix, a.id_len = prefix, n
    w.count('traces')
    small = mx < 2048 + 4 * len(prefix) + sum(len(x) + len(y or '') for x, y in wi)
    if any(o[0] != 'exit 0' for o in out) and not small and '' not in (res, meta):
        exp = [out[0][0] == 'exit 0' or not ({'application/octet-stream', '*'} & {x.lower() for x in res}),
               out[1][0] == 'exit 0' or not ({'text/plain', '*'} & {x.lower() for x in res}),
               out[2][0] == 'exit 0' or out[0][0] != 'exit 0' or not ({'text/plain', '*'} & {x.lower() for x in meta}), out[3][0] == 'exit 0']
        if not all(exp):
            w.bad('refused', f'{what}: {[o for o in out if o[0] != "exit 0"][0]}')
    for (spec, opt), o in zip(OPS, out):
        if o[0].startswith('sig'):
            w.bad('crash', f'{what}: {spec} {opt} ends with {o[0]} {o[2][-200:]!r}')
        if spec and o[0] == 'exit 0':
            mt = 'application/octet-stream' if not opt else 'text/plain'
            allowed = {x.lower() for x in (meta if opt == 'meta' else res)}
            if not {mt, '*'} & allowed:
                w.bad('mime', f'{what}: {spec} is stored as {mt}')
    if out[-1][1] != b'id_size: %d\n' % n:
        w.bad('info', f'{what}: info says {out[-1][1]!r}')
    lbn, bn = bn, bn.encode('latin-1').decode('utf-8', 'surrogateescape')
    files = {p for p in snap.files if p not in ('_.cache', 'index.appendix', 'index.sorted')}
    seen, hold, good = 0, set(), {}
    for no in range(200):
        p = warc.silo_path(no, bn)
        if p in files:
            files.discard(p)
            data = snap.files[p][2]
            seen += 1
            try:
                recs = warc.parse_silo(data, no, prefix, n, lbn)
            except warc.Bad as e:
                w.bad('silo', f'{what}: {e}')
                break
            if len(data) > mx:
                w.bad('over-max', f'{what}: {p} has {len(data)} bytes')
            b = recs[0].body.decode('latin-1')
            for x, y in wi:
                if f'\r\n{x} {y or ""}\r\n' not in b:
                    w.bad('warcinfo', f'{what}: {x} {y} is not in {b!r}')
            for r in recs:
                good[r.rid] = r
            if mx >= 20000 and no > 0:
                w.bad('silos', f'{what}: there is a silo {no}')
    if files:
        w.bad('files', f'{what}: has left {sorted(files)}')
    for (spec, opt), o in zip(OPS, out):
        if spec and o[0] == 'exit 0':
            rid = o[1].strip().decode('latin-1')
            if not rid.startswith(prefix) or rid[len(prefix):] not in good or len(rid) != len(prefix) + n:
                w.bad('id', f'{what}: {spec} is acknowledged as {rid}, there are {sorted(good)}')
            elif opt != 'meta' and rid[len(prefix):] != sha(gen(spec))[:n]:
                w.bad('id', f'{what}: {spec} is acknowledged as {rid}')
            elif a.get(rid.encode('latin-1')).out != gen(spec):
                w.bad('get', f'{what}: {spec} is not delivered')
    if len(PLAIN) > 200:
        PLAIN.clear()
    PLAIN[s] = out, snap.canon()
    return PLAIN[s]


def judge(w, a, text, what):
    w.seen('states', text)
    try:
        s = settings(text)
    except Refuse as e:
        out, snap = history(w, a, text, 'file://ex/', 32, OPS[:1])
        for o in out:
            if o[0] in ('exit 0', 'sig 9') or o[0].startswith('sig') or not o[2]:
                w.bad('accepted', f'{what}: {text[:3000]!r} is not refused ({e}): {o}')
                return
        if snap.files:
            w.bad('written', f'{what}: {text[:3000]!r} is refused after {sorted(snap.files)} have been written')
        return
    if not dir_ok(s[2]):
        return
    s = s[:2] + ('s/',) + s[3:]
    pout, psnap = plainly(w, a, s)
    if w.bads:
        return
    out, snap = history(w, a, text, s[0], s[1] // 4)
    if out != pout:
        w.bad('differs', f'{what}: {text[:3000]!r}: {[x for x, y in zip(out, pout) if x != y][0]} and not {[y for x, y in zip(out, pout) if x != y][0]}')
    elif snap.canon() != psnap:
        w.bad('archive', f'{what}: {text[:3000]!r}: makes another archive than the same settings plainly written')


def setup(w, kind='plain'):
    a = w.arch('c21')
    a.confpath = a.dir + '/conf'
    if kind != 'plain':
        a.srv = w.server(kind)
    return a


EDIT = [b'#', b':', b' ', b'\t', b'\n', b'\r', b'\0', b'x', b'0', b'\xc3', b'\xff']


def edits(pos):
    """every edit of one byte at pos"""
    b, z = BASE[:pos], BASE[pos + 1:]
    yield BASE[:pos]
    if pos < len(BASE):
        if pos != DIR:
            yield b + z
        for c in EDIT:
            if pos != DIR:
                yield b + c + z
            yield b + c + BASE[pos:]


@family
def c21_edit(w, case):
    a = setup(w)
    for pos in range(case['lo'], min(case['hi'], len(BASE) + 1)):
        for t in edits(pos):
            w.case = dict(case, lo=pos, hi=pos + 1)
            judge(w, a, t, f'edit at {pos}')
            if w.bads:
                return


@family
def c21_asan(w, case):
    """the reader of the configuration stays inside its memory"""
    a = w.arch('c21a')
    old, a.srv = a.srv, w.server('asan')
    for pos in range(case['lo'], min(case['hi'], len(BASE) + 1)):
        for t in list(edits(pos))[pos % case['step']::case['step']]:
            with open(a.confpath, 'wb') as f:
                f.write(t)
            r = a.op('info')
            w.count('transitions')
            try:
                s = settings(t)
                ok = r.ok() and r.out == b'id_size: %d\n' % (s[1] // 4)
            except Refuse:
                ok = r.kind == 'exit' and r.code not in (0, 99)
            if not ok or b'runtime error' in r.err:
                w.bad('memory', f'{t!r}: info ends with {r.status()} {r.err[-300:]!r}')
                break
    a.srv = old


LINES = [b'', b' ', b'\t', b'#', b'# c:', b'x', b'x:', b'x: y', b':', b' x', b'\tx y', b'silo.max_size:', b'\t6k', b'SILO.MAX_SIZE:', b'\r', b'\t#', b'x:#', b'\t7k#k', b'x :', b'x:\r', b'\xc3\xa6:',
         b'index.sort_size:', b'silo.basename:', b'\t%u.gz', b'warcinfo.body:', b'resource.mime-types:', b'\t*', b'\ttitle: t', b'\tz:', b'WARC-Record-ID:', b'\thttp://a/b/ 0x80']


@family
def c21_lines(w, case):
    """lines put in between, exchanged, repeated and left out"""
    a = setup(w)
    base = BASE.split(b'\n')[:-1]
    for at, ins, cut in case['list']:
        w.case = dict(case, list=[[at, ins, cut]])
        l = base[:at] + [LINES[i] for i in ins] + base[at + cut:]
        judge(w, a, b'\n'.join(l) + b'\n', f'lines at {at}')
        if w.bads:
            return


@family
def c21_swap(w, case):
    a = setup(w)
    base = BASE.split(b'\n')[:-1]
    i = case['i']
    for j in range(len(base)):
        l = list(base)
        l[i], l[j] = l[j], l[i]
        judge(w, a, b'\n'.join(l) + b'\n', f'lines {i} and {j} exchanged')
        if i <= j:
            judge(w, a, b'\n'.join(base[:i] + base[j:]) + b'\n', f'lines {i} to {j} left out')
            judge(w, a, b'\n'.join(base + base[i:j]) + b'\n', f'lines {i} to {j} repeated')
        if w.bads:
            return


def text(**kw):
    """a complete configuration with some values changed (None: section left out)"""
    v = dict([('WARC-Record-ID', 'file://ex/\t128'), ('warcinfo.body', 'description:\tmodel checked'), ('silo.directory', 's/'), ('silo.max_size', '4k'), ('silo.basename', '%08u.warc.gz'), ('index.sort_size', '8k'),
              ('resource.mime-types', 'application/octet-stream\n\ttext/plain'), ('metadata.mime-types', 'text/plain')])
    v.update(kw)
    return ''.join(f'{k}:\n\t{x}\n\n' for k, x in v.items() if x is not None).encode('latin-1')


VAL = {
    'silo.max_size': ['4096', '4k', '4K', '4kb', '4kB', '4Kb', '4096b', '4096B', '4.0k', '4.k', '.004m', '0.00390625m', '4e0k', '40e-1k', '.4e1k', '+4k', '0004k', '4.5k', '5000.4', '5000.6', '5000.5b', '1e4', '1E4', '1e+4', '1.5e4b', '12288', '12k', '14k', '20k', '1m', '1M', '1mb', '3g', '3.5G', '1t', '1T', '1p', '1P',
                      '8191P', '8192P', '9223372036854774784', '1e18', '9.3e18', '1e19', '2e19', '1e99', '1e309', '1e400', '0', '0k', '1', '100', '700', '1000', '1100', '1300', '1350', '1500', '2k', '-1', '-4k', '-0', '', '-', '+', '.', 'k', 'b', '4q', '4kk', '4bk', '4 k', '4k x', '4,5k', '4%', '4k%', '0x1000', 'nan', 'inf', '1e', '1e+', 'e4', '1.2.3', '--4k', '4k\n\t5k', '3.5', '4k4', None],
    'index.sort_size': ['4096', '4k', '4095', '4097', '4127', '4128', '8k', '10M', '1g', '0', '1', '31', '-1', '-4k', '1e30', '2e19', '', 'x', '4k x', '4k\n\t8k', '5.5k', '4.9k', '100%', None],
    'silo.basename': ['%u', '%d', '%i', '%x', '%X', '%o', '%08u.warc.gz', '%8u', '%-8u|', '%.3u', '%+d', '%u.hold', 'a%ub', '%%%u', '%u%%', '%%u', '%', '%%', 'x', 'silo', '%s', '%c', '%n', '%p', '%e', '%f', '%lu', '%llu', '%hu', '%hhu', '%ju', '%zu', '%*u', '%1$u', '%u%u', '%u-%u', '%u %u', '%s%u', '%u%s', '%u%n', 'a/%u', '%u/a', '.%u', '\xe6%u', '%u\n\t%d', '%' + '0' * 30 + '5u', '', None],
    'WARC-Record-ID': ['file://ex/', 'file://ex', 'file://ex/ 0x80', 'file://ex/ 0200', 'file://ex/ +128', 'file://ex/ -128', 'file://ex/ 128x', 'file://ex/ 128 x', 'file://ex/ x', 'file://ex/ 4294967424', 'file://ex/ 18446744073709551744', 'file://ex/ 99999999999999999999', 'file://ex/ 1e2', 'file://ex/ 128.0', 'file://ex/ 128,', 'file://ex/ 0x', 'file://ex/\n\tfile://ey/', '/', '//', 'a:/', '%s/', '%n%n/', '%/', '</', '>/', 'a<b>c/', '"/', "'/", '\\/', '\xc3\xa6/', '&/', '?a=b/', '', None] + ['p' * (n - 1) + '/' for n in (60, 100, 200, 255, 256, 500, 511, 512, 513, 1000, 4000, 9000)],
    'warcinfo.body': ['a: b', 'a: b\n\tc: d', 'title: x', 'title: x\n\ta: b', 'TITLE: x', 'conformsTo: x\n\tformat: y\n\tsoftware: z', 'CONFORMSTO: x', 'format: y', 'software: z', 'a:', 'a', 'a: b c  d\te', '%s: %n', 'a: %s', 'a: \xc3\xa6', 'a: b\n\ta: b', 'x' * 300 + ': ' + 'y' * 300, None] + [f'{x} y' for x in ('form:', 'formal:', 'formats:', 'formatted:', 'titles:', 'titl:', 'tit:', 'subtitle:', 'soft:', 'softwares:', 'conform:', 'conformsToo:', 'conforms:', 'title', 'format', 'format::', ':format:', 'xformat:')],
    'silo.directory': ['s/', './s/', 's//', 's/./', 's/../s/', 't/../s/', 's', './s', 's/\n\ts/', 's/ x', None],
    'resource.mime-types': ['*', '*x', '**', '*/*', 'a*', 'text/plain', 'TEXT/PLAIN', 'application/octet-stream', 'Application/Octet-Stream x', 'text/*', 'text/plai', 'text/plainn', 'text', '*\n\ttext/plain', 'a/b\n\t*', '', None],
    'metadata.mime-types': ['*', 'text/plain', 'Text/Plain', 'text/plai', 'text/plainx', 'application/octet-stream', 'application/json\n\ttext/plain', '', None],
}


@family
def c21_value(w, case):
    a = setup(w)
    for kw in case['list']:
        w.case = dict(case, list=[kw])
        judge(w, a, text(**kw), str({k: (v or '')[:40] if v is not None else None for k, v in kw.items()}))
        if len(w.bads) > 3:
            return


TYPES = ['text/plain', 'TEXT/plain', 'application/octet-stream', 'text/plai', 'text/plainn', 'text', 'text/html', 'image/svg+xml', 'application/ld+json', 'text/plain;charset=utf-8', 'text/plain; charset="utf 8"', 'a/b:c', '*', '*/*', 'x', '%s%n', 'a/b  c', '/', 'WARC/1.1', 'WARC-Type: x', '\xe6/\xff', 'a/"b', "'"]
LISTS = ['*', 'text/plain', 'application/octet-stream', 'image/svg+xml\n\ttext/html', 'text/plain;charset=utf-8 x\n\ttext', 'a/b\n\t*']


@family
def c21_types(w, case):
    """the MIME type of a stored object is what was asked for, if the configuration allows it for that kind of object"""
    a = setup(w)
    a.prefix, a.id_len = 'file://ex/', 32
    res, meta = case['lists']
    names = {k: [l.split()[0].lower() for l in v.split('\n\t')] for k, v in (('resource', res), ('metadata', meta))}
    a.reset()
    with open(a.confpath, 'wb') as f:
        f.write(text(**{'resource.mime-types': res + '\n\tinit/x', 'metadata.mime-types': meta}))
    r = a.store(gen('r100.a'), '-m', 'init/x')
    if not r.ok():
        w.bad('types', f'{case["lists"]}: the first store ends with {r.status()}: {r.err[-300:]!r}')
        return
    ref = r.out.strip()
    base = a.snap()
    for m in case['types']:
        mb = m.encode('latin-1')
        for t in ('resource', 'metadata'):
            w.case = dict(case, types=[m])
            w.seen('states', (case['lists'], m, t))
            a.restore(base)
            args = ['-t', t, '-m', mb] + (['-r', ref] if t == 'metadata' else [])
            r = a.op('store', *args, stdin=gen('r200.b'))
            w.count('transitions')
            what = f'{case["lists"]}: store -t {t} -m {m[:60]!r} ({len(m)})'
            s = a.snap()
            listed = m.lower() in names[t] or '*' in names[t]
            strange = len(m) > 512 or any(ord(c) < 32 or ord(c) == 127 for c in m) or m != m.strip() or not m
            if r.ok():
                if not listed:
                    w.bad('types-accepted', f'{what}: accepted')
                try:
                    v = warc.View(s, a)
                    got = [rec for l in v.silos.values() for rec in l if rec.body == gen('r200.b')]
                    if v.problems or len(got) != 1 or got[0].get('Content-Type') != m or got[0].type != t:
                        w.bad('types-record', f'{what}: {v.problems[:1]} {[(g.type, g.get("Content-Type")) for g in got]}')
                except warc.Bad as e:
                    w.bad('types-record', f'{what}: {e}')
                g = a.get(r.out.strip())
                if g.out != gen('r200.b') or not g.ok():
                    w.bad('types-get', f'{what}: get ends with {g.status()} {g.err[-200:]!r}')
            else:
                if listed and not strange:
                    w.bad('types-refused', f'{what}: {r.status()} {r.err[-300:]!r}')
                if r.kind != 'exit' or not r.err or r.out:
                    w.bad('types-refusal', f'{what}: {r.status()} {r.out!r} {r.err[-200:]!r}')
                if s.canon() != base.canon():
                    w.bad('types-writes', f'{what}: refused, and the archive is changed')
            if len(w.bads) > 4:
                return
    w.count('traces')


OPCALLS = [('audit',), ('byid', '/0'), ('dumpindex',), ('filter',), ('get', 'file://ex/' + sha(gen('r100.a'))[:32]), ('housekeeping',), ('info',), ('mksilo', '7'), ('rebuild',), ('reindex',), ('stevedore',), ('store',), ('stow', 'x'), ('_testbytes', '5')]


@family
def c21_ops(w, case):
    """every operation refuses a bad configuration and leaves the archive alone"""
    a = setup(w)
    a.reset()
    with open(a.confpath, 'wb') as f:
        f.write(BASE)
    for s in ('r100.a', 'r5000.b'):
        if not a.store(gen(s)).ok():
            w.bad('store', 'store fails')
            return
    base = a.snap()
    for name, t in case['bad'].items():
        with open(a.confpath, 'wb') as f:
            f.write(t.encode('latin-1'))
        for op in OPCALLS:
            r = a.op(*op, stdin=b'data', timeout=3000)
            w.count('transitions')
            w.seen('states', name + op[0])
            if r.kind != 'exit' or r.code == 0 or not r.err:
                w.bad('op', f'{op} with bad configuration ({name}): {r.status()} {r.err[-200:]!r}')
            if r.out:
                w.bad('op-out', f'{op} with bad configuration ({name}) prints {r.out[:200]!r}')
            if a.snap().canon() != base.canon():
                w.bad('op-writes', f'{op} with bad configuration ({name}) changes the archive')
                a.restore(base)
    # configurations that are no files
    os.makedirs(a.dir + '/d', exist_ok=True)
    for p in ('/none', '/none/none', '/d', '/conf/x', ''):
        for op in OPCALLS:
            r = a.run([Proc(['aardwarc', '-c', (a.dir + p) if p else '', *op], stdin=b'data')])[0]
            w.count('transitions')
            if r.kind != 'exit' or r.code == 0 or not r.err or r.out:
                w.bad('op-none', f'{op} with configuration {p}: {r.status()} {r.out[:100]!r} {r.err[-200:]!r}')
    # the configuration of the user
    with open(a.dir + '/.aardwarc.conf', 'wb') as f:
        f.write(BASE.replace(b'\t128', b'\t64'))
    with open(a.confpath, 'wb') as f:
        f.write(BASE)
    for args, home, exp in ((['info'], a.dir, 16), (['-c', a.confpath, 'info'], a.dir, 32), (['-c', a.dir + '/.aardwarc.conf', '-c', a.confpath, 'info'], a.dir, 32), (['-j', 'info'], a.dir, 16)):
        r = a.run([Proc(['aardwarc', *args], env=[f'HOME={home}'])])[0]
        w.count('transitions')
        if not r.ok() or (b'%d' % exp) not in r.out:
            w.bad('home', f'{args} with HOME={home}: {r.status()} {r.out!r} {r.err[-200:]!r}')
    w.count('traces')


@family
def c21_big(w, case):
    """big sizes: a silo with a hole, up to where the size has to allow one more object"""
    a = setup(w)
    for v in case['list']:
        w.case = dict(case, list=[v])
        mx = settings(text(**{'silo.max_size': v}))[3]
        a.srv.big = True
        for free, same in ((100000, True), (3000, True), (130, False), (-1, False)):
            a.reset()
            with open(a.confpath, 'wb') as f:
                f.write(text(**{'silo.max_size': v}))
            if not a.store(gen('r100.a')).ok():
                w.bad('big', f'{v}: store fails')
            p = os.path.join(a.dir, 's', '0/00000000.warc.gz')
            if mx - free >= 2 ** 63 - 4096 or mx - free < 1000:
                continue
            try:
                os.truncate(p, mx - free)
            except OSError:
                continue
            spec = 'r500.b'
            r = a.store(gen(spec))
            w.count('transitions', 3)
            w.seen('states', (v, free))
            got = sorted(x for x in a.snap_names() if x.endswith('.gz'))
            exp = ['0/00000000.warc.gz'] + ([] if same else ['0/00000001.warc.gz'])
            if not r.ok() or got != exp:
                w.bad('big', f'silo.max_size {v} ({mx}): a store with {free} bytes left in silo 0 ends with {r.status()} and silos {got} {r.err[-200:]!r}')
                break
            if same and os.stat(p).st_size > mx:
                w.bad('big', f'silo.max_size {v} ({mx}): silo 0 has {os.stat(p).st_size} bytes')
            r = a.get(r.out.strip())
            if r.out != gen(spec):
                w.bad('big', f'silo.max_size {v} ({mx}): an object at {mx - free} is not delivered: {r.status()} {r.err[-200:]!r}')
                break
        w.count('traces')
    a.srv.big = False
    # an object as big as two of the smaller ones
    if case.get('obj'):
        for v, n in (('1m', 3), ('1.5M', 2), ('2M', 2), ('1g', 1), (None, 1), ('3m', 1)):
            a.reset()
            with open(a.confpath, 'wb') as f:
                f.write(text(**{'silo.max_size': v}))
            r = a.store(gen('r2500000.a'))
            got = sorted(x for x in a.snap_names() if x.endswith('.gz'))
            w.count('transitions')
            if not r.ok() or len(got) != n or a.get(r.out.strip()).out != gen('r2500000.a'):
                w.bad('big', f'silo.max_size {v}: 2500000 bytes are {r.status()} in silos {got}, not {n}')


def padding(kind, n):
    """n sections, lines, or a line of n bytes, that mean nothing"""
    return {'sections': ''.join(f's{i}:\n\ta b\n' for i in range(n)), 'entries': 'other:\n' + ''.join(f'\te{i} x\n' for i in range(n)), 'comments': '# comment\n' * n, 'blanks': '\n' * n,
            'long comment': '#' + 'c' * n + '\n', 'long section': 's' * n + ':\n', 'long entry': 'other:\n\t' + 'e' * n + '\n', 'long argument': 'other:\n\te ' + 'a' * n + '\n', 'spaces': ' ' * n + '\n'}[kind].encode()


@family
def c21_long(w, case):
    """long texts"""
    a = setup(w)
    base = text(**{'silo.max_size': '6k'})
    cut = base.index(b'silo.max_size')
    pad = padding(case['kind'], case['n'])
    for t in (pad + base, base[:cut] + pad + base[cut:], base + pad):
        judge(w, a, t, f'{case}')
        if w.bads:
            return
    if case['kind'] == 'entries':
        types = ''.join(f'\n\tx/y{i}' for i in range(case['n']))
        for l in (['application/octet-stream', types], ['x/y', types + '\n\tapplication/octet-stream']):
            judge(w, a, text(**{'resource.mime-types': ''.join(l)}), f'{case}, MIME types')


def check(ctx):
    per = lambda l, n: [l[i:i + n] for i in range(0, len(l), n)]
    # values
    vals = [{k: v} for k, l in VAL.items() for v in l]
    vals += [{'WARC-Record-ID': f'file://ex/ {b}'} for b in range(0, 301)]
    vals += [{'silo.max_size': str(n)} for n in range(1000, 6000, ctx.n(61, 7))]
    vals += [{'silo.max_size': str(n)} for n in range(400, 1500, ctx.n(7, 1))]
    body = [{'silo.max_size': '40k', 'warcinfo.body': '\n\t'.join(f'a{i}: ' + 'y' * min(n - i * 500, 500) for i in range((n + 499) // 500))} for n in (*range(100, 4300, ctx.n(97, 11)), 8000, 16000, 30000, 33000)]
    body += [dict(b, **{'silo.max_size': str(len(b['warcinfo.body']) + k)}) for b in body[::10] for k in range(700, 1300, ctx.n(20, 7))]
    vals += body
    for n in ('WARC-Record-ID', 'warcinfo.body', 'silo.directory', 'silo.max_size', 'silo.basename', 'index.sort_size', 'resource.mime-types', 'metadata.mime-types'):
        for v in (n.upper(), n.lower(), n.title(), n.swapcase(), *(n[:i] + n[i:i + 1].swapcase() + n[i + 1:] for i in range(len(n)) if n[i].isalpha())):
            if v != n:
                vals.append({n: None, v: {'WARC-Record-ID': 'file://ey/\t80', 'warcinfo.body': 'q: z', 'silo.directory': 's/', 'silo.max_size': '5k', 'silo.basename': 'q%u', 'index.sort_size': '4k', 'resource.mime-types': 'application/octet-stream', 'metadata.mime-types': '*'}[n]})
    pairs = []
    red = {k: [v for v in l if v is None or len(v) < 14][:: ctx.n(7, 2)] for k, l in VAL.items()}
    for k, m in itertools.combinations(VAL, 2):
        pairs += [{k: x, m: y} for x in red[k] for y in red[m]]
    ctx.explore(c21_value, [dict(list=l) for l in per(vals, 8)])
    if not ctx.stop():
        ctx.explore(c21_value, [dict(list=l) for l in per(pairs, 12)])
    ctx.bound(f'{len(vals)} single values, {len(pairs)} pairs')
    ctx.explore(c21_big, [dict(list=[v], obj=v is None) for v in ('8k', '1m', '4095k', '2g', '3g', '4294967296', '4294971392', '6G', '3.5G', '1t', '1.5T', '1p', '4P', '8191P', None)])
    ctl = [p + chr(c) + q for c in range(1, 256) for p, q in (('a', 'b'), ('', 'ab'), ('ab', ''))] + ['a' + x + 'WARC-Type: y' for x in ('\r\n', '\n', '\r\n\r\n')]
    ctl += ['a/' + 'b' * (n - 2) for n in (*range(2, 700, ctx.n(3, 1)), *range(508, 517), 800, 1000, 1023, 1024, 2000, *range(3300, 4300, ctx.n(9, 1)), 5000, 6000, 9000, 70000)] + ['']
    ctl += ['a/' + gen(f't{n}.m').decode('latin-1')[:n].translate({ord(c): 'q' for c in ' \t\r\n'}) for n in (100, 500, 600, 1000, 2000, 3000, 4000, 5000)] + ['a/' + ''.join(sha(b'%d' % i) for i in range(n)) for n in (1, 7, 8, 10, 20, 40, 60, 62, 70, 80)]
    ctx.explore(c21_types, [dict(lists=(r, m), types=TYPES) for r in LISTS for m in LISTS] + [dict(lists=('*', '*'), types=l) for l in per(ctl, 24)])
    ctx.bound(f'{len(TYPES)} MIME types for both kinds of object with {len(LISTS) ** 2} pairs of lists; every byte in a MIME type, {len(ctl)} others')
    pads = [dict(kind=k, n=n) for k in ('sections', 'entries', 'comments', 'blanks', 'long comment', 'long section', 'long entry', 'long argument', 'spaces')
            for n in ctx.n((15, 33, 65, 130, 260, 1030, 4100, 8200, 70000), (*range(1, 140), 200, 255, 256, 257, 260, 512, 1023, 1024, 1030, 4095, 4096, 4100, 8191, 8192, 8200, 32767, 65535, 65536, 70000, 300000))]
    # sections are looked up one by one, each time
    ctx.explore(c21_long, [p for p in pads if p['kind'] != 'sections' or p['n'] < 10000])
    ctx.bound(f'{len(pads)} texts with up to {max(p["n"] for p in pads)} lines or bytes that mean nothing, before, between and after the others')
    # operations
    bad = {'no ID': text(**{'WARC-Record-ID': None}), 'no directory': text(**{'silo.directory': None}), 'size': text(**{'silo.max_size': 'x'}), 'sizes': text(**{'silo.max_size': '4 k'}), 'basename': text(**{'silo.basename': 'x'}),
           'sort': text(**{'index.sort_size': '1'}), 'syntax': BASE + b'x\n', 'nul': BASE + b'\0', 'twice': BASE + b'silo.MAX_size:\n\t5k\n', 'bits': text(**{'WARC-Record-ID': 'file://ex/ 60'}), 'empty': b''}
    ctx.explore(c21_ops, [dict(bad={k: v.decode('latin-1')}) for k, v in bad.items()])
    # edits
    ctx.explore(c21_edit, [dict(lo=i, hi=i + 4) for i in range(0, len(BASE) + 1, 4)])
    ctx.bound(f'all edits of one byte of a text of {len(BASE)} bytes: deleted, replaced by or behind each of {len(EDIT)} bytes, cut there')
    ctx.explore(c21_asan, [dict(lo=i, hi=i + 8, step=ctx.n(6, 1)) for i in range(0, len(BASE) + 1, 8)])
    n = len(BASE.split(b'\n')) - 1
    ctx.explore(c21_swap, [dict(i=i) for i in range(n)])
    L = range(len(LINES))
    lines = [[at, [x], cut] for at in range(n + 1) for x in L for cut in (0, 1)]
    lines += [[at, [x, y], 0] for at in (range(n + 1) if not ctx.quick else (0, 1, 8, 11, n)) for x in L for y in L]
    if not ctx.quick:
        lines += [[at, [x, y, z], 0] for at in (0, n) for x in L for y in L for z in L]
    ctx.explore(c21_lines, [dict(list=l) for l in per(lines, 16)])
    ctx.bound(f'{len(lines)} insertions of up to {ctx.n(2, 3)} of {len(LINES)} lines')
