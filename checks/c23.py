"""C23: refused requests leave no trace."""
import itertools, os
from mc.core import family
from mc.gen import gen, sha
from mc import warc, hist
from mc.run import snapshot, restore

LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of requests against the real program: every combination of type, MIME type, -i, -r and input (and of arguments of every reading operation) over alphabets of valid, boundary and invalid values, in every one of a range of archive states; a model of the requirement says which are to be refused, and the whole archive directory is compared before and after'
NOTE = 'All combinations of 7 types, 8 MIME types, 10 values of -i, 15 of -r and 4 inputs in eight archives (quick: the full product in two of them, all pairs of values in the rest); all single arguments and pairs of arguments of the reading operations over alphabets of 20-30; stores with the standard descriptors closed.'
ASSUMPTIONS = ['a MIME type which differs from a configured one in case only, and an -i or -r in another case, may be refused or taken; if taken, everything else has to hold',
               'standard output and error stay as they are; an operation whose standard descriptors are closed may fail, but leaves no trace then']

REF, MREF, BIG = 'r300.a', 'r200.m', 'r7000.d'
BASES = {
    'none': None,
    'empty': [],
    'one': [['store', REF]],
    'mix': [['store', BIG], ['store', REF], ['meta', REF, MREF]],
    'hk': [['store', REF], ['store', BIG], ['hk'], ['meta', REF, MREF], ['store', 't500.b']],
    'left': [['store', REF], ['hk'], ['meta', REF, MREF], ['mv', 'index.appendix', 'index.housekeep'], ['store', 'r100.c']],
    'held': [['store', REF], ['meta', REF, MREF], ['touch', '0/00000000.warc.gz.hold', '00'], ['touch', '0/00000001.warc.gz.hold', '00'], ['touch', 'index.hold', '']],
    'ro': [['store', REF], ['meta', REF, MREF], ['ro', 0], ['rm', '_.cache']],
}
H = hist.make('c23', confs=({'max_size': '4k'},))


def setup(w, base):
    """archive, its snapshot, and the IDs there are"""
    key = ('c23', base)
    if getattr(w, '_c23', None) and w._c23[0] == key:
        return w._c23[1:]
    a = w.arch('c23', max_size='4k')
    if BASES[base] is None:
        wd = hist.World()
        a.reset()
    else:
        wd = H.build(w, BASES[base])
        a = w.arch('c23', max_size='4k')
        a.restore(wd.snap)
    v = warc.View(wd.snap, a, dups_ok=True)
    ids = {'res': hist.res_id(gen(REF), a.id_len), 'absent': sha(b'absent')[:32]}
    ids['meta'] = next((x for x, o in wd.objs.items() if o['type'] == 'metadata'), sha(b'no metadata')[:32])
    ids['cont'] = next((r.rid for l in v.silos.values() for r in l if r.type == 'continuation'), sha(b'no continuation')[:32])
    ids['info'] = next((r.rid for l in v.silos.values() for r in l if r.type == 'warcinfo'), sha(b'no warcinfo')[:32])
    ids['seg'] = hist.res_id(gen(BIG), a.id_len)
    w._c23 = (key, a, wd, v, ids)
    return w._c23[1:]


TYPES = [None, 'resource', 'metadata', 'MetaData', 'warcinfo', '', 'x', 'twice']
MIMES = [None, 'application/octet-stream', 'text/plain', 'application/json', 'TEXT/PLAIN', '', 'text/plain ', 'text', 'image/png\r\nX: y']
IARGS = [None, 'new', 'newuri', 'res', 'short', 'long', 'nonhex', 'prefix', '', 'twice', 'upper']
RARGS = [None, 'res', 'resuri', 'meta', 'seg', 'cont', 'info', 'absent', 'absenturi', 'short', 'long', 'nonhex', 'prefix', 'angle', '', 'twice', 'upper']
INPUTS = ['data', 'empty', 'nofile', 'dir', 'file', 'two', 'dash', 'emptyfile']
NEW = sha(b'new')[:32]


def idarg(a, ids, k):
    p = a.prefix
    return {'new': NEW, 'newuri': p + NEW, 'res': ids['res'], 'resuri': p + ids['res'], 'meta': p + ids['meta'], 'seg': p + ids['seg'], 'cont': p + ids['cont'], 'info': p + ids['info'],
            'absent': ids['absent'], 'absenturi': p + ids['absent'], 'short': ids['res'][:-1], 'long': p + ids['res'] + '0', 'nonhex': ids['res'][:-1] + 'g', 'prefix': 'http://ex/' + ids['res'],
            'angle': '<' + p + ids['res'] + '>', '': '', 'upper': (ids['res'] if k == 'upper' else '').upper()}[k]


def request(a, ids, t, m, i, r, inp, content):
    """(argv, stdin, verdict): verdict refuse, accept or either"""
    av, v = ['store'], 'accept'

    def no(cond, what='refuse'):
        nonlocal v
        if cond and v != 'refuse':
            v = what
    if t == 'twice':
        av += ['-t', 'resource', '-t', 'resource']
    elif t is not None:
        av += ['-t', t]
    no(t in ('warcinfo', '', 'x', 'twice'))
    meta = t is not None and t.lower() == 'metadata'
    if m is not None:
        av += ['-m', m]
    known = ('text/plain', 'application/json') if meta else ('application/octet-stream', 'text/plain', 'application/x-mtree')
    mm = m if m is not None else 'application/octet-stream'
    no(mm not in known, 'either' if mm.lower() in known else 'refuse')
    if i is not None:
        av += ['-i', NEW, '-i', NEW] if i == 'twice' else ['-i', NEW.upper() if i == 'upper' else idarg(a, ids, i)]
        no(not meta or i in ('short', 'long', 'nonhex', 'prefix', '', 'twice'))
        no(i == 'upper', 'either')
    if r is not None:
        av += ['-r', ids['res'], '-r', ids['res']] if r == 'twice' else ['-r', idarg(a, ids, r)]
        no(not meta or r in ('absent', 'absenturi', 'short', 'long', 'nonhex', 'prefix', 'angle', '', 'twice', 'cont', 'info'))
        no(r == 'upper', 'either')
    no(meta and r is None)
    stdin = content
    if inp == 'empty':
        stdin = b''
    elif inp == 'nofile':
        av += [a.dir + '/not/there']
    elif inp == 'dir':
        av += [a.dir]
    elif inp == 'file':
        stdin = b''
        av += [a.dir + '/c23in']
    elif inp == 'emptyfile':
        av += [a.dir + '/c23empty']
    elif inp == 'two':
        av += [a.dir + '/c23in', a.dir + '/c23in']
    elif inp == 'dash':
        av += ['-']
    no(inp in ('empty', 'nofile', 'dir', 'two', 'emptyfile'))
    return av, stdin, v


def refs_ok(v):
    """every metadata is about an object that is there"""
    have = {x.lower() for x in v.objs}
    for l in v.objs.values():
        for o in l:
            if o.type == 'metadata':
                x = (o.ref or '').strip('<>').lower()
                if not any(x.endswith('/' + h) for h in have):
                    return o
    return None


def judge(w, a, wd, v0, ids, what, meta, content, r, verdict, before, iarg, there=True):
    """is the result of a store right? Restores the archive"""
    top = snapshot(a.dir) if not there else None
    after = a.snap() if os.path.isdir(a.silo) else None
    same = (after is None and before is None) or (after is not None and before is not None and after.canon() == before.canon())
    if r.kind != 'exit':
        w.bad('died', f'{what}: ends with {r.status()} {r.err[-300:]!r}')
    elif r.code == 0 and verdict == 'refuse':
        w.bad('accepted', f'{what}: is accepted: {r.out!r} {r.err[-200:]!r}')
    elif r.code != 0 and verdict == 'accept':
        w.bad('refused', f'{what}: is refused: {r.status()} {r.err[-300:]!r}')
    if r.code != 0 or r.kind != 'exit':
        if not r.err:
            w.bad('silent', f'{what}: {r.status()} without a message')
        if a.prefix.encode() in r.out:
            w.bad('id-printed', f'{what}: {r.status()}, but prints {r.out!r}')
        if not same:
            w.bad('trace', f'{what}: {r.status()}, but the archive is changed: {diff(before, after)}')
    else:
        v = warc.View(after, a, dups_ok=True)
        for p in v.problems[:1]:
            w.bad('silo', f'{what}: {p}')
        rid = r.out.decode('latin-1').strip().rpartition('/')[2]
        o = refs_ok(v)
        if o:
            w.bad('dangling', f'{what}: metadata {o.rid} is about {o.ref}, which is not there')
        if not meta and rid != hist.res_id(content, a.id_len):
            w.bad('id', f'{what}: prints {r.out!r}')
        if meta and iarg not in (None, 'twice') and rid.lower() != (NEW if iarg in ('new', 'newuri', 'upper') else ids['res']):
            w.bad('id', f'{what}: prints {r.out!r}')
        q = a.get(r.out.decode('latin-1').strip(), '-q')
        have = {x.lower() for x in v0.objs}
        if not q.ok() or q.out != content and rid.lower() not in have:
            w.bad('get', f'{what}: then get {rid} ends with {q.status()} {q.err[-200:]!r}')
        if rid.lower() in have and not same:
            w.bad('again', f'{what}: the ID {rid} was there already, but the archive is changed: {diff(before, after)}')
        if len(v.objs) != len(v0.objs) + (rid.lower() not in have):
            w.bad('count', f'{what}: {len(v0.objs)} objects before and {len(v.objs)} after')
    if not same:
        if before is None:
            a.reset()
            os.rmdir(a.silo)
        else:
            a.restore(before)


def diff(b, a):
    b, a = (x.files if x else {} for x in (b, a))
    return [n for n in sorted({*a, *b}) if n not in a or n not in b or a[n][0] != b[n][0] or a[n][2] != b[n][2]][:5] or 'directories'


@family
def c23_store(w, case):
    """stores of one type and MIME type"""
    a, wd, v0, ids = setup(w, case['base'])
    content = gen(case.get('spec', 'r250.new'))
    for n, d in (('c23in', content), ('c23empty', b'')):
        with open(a.dir + '/' + n, 'wb') as f:
            f.write(d)
    if BASES[case['base']] is None:
        a.reset()
        os.rmdir(a.silo)
        before = None
    else:
        a.restore(wd.snap)
        before = wd.snap
    try:
        for i, r, inp in itertools.product(case['i'], case['r'], case['inp']):
            av, stdin, verdict = request(a, ids, case['t'], case['m'], i, r, inp, content)
            if case['base'] in ('none', 'empty') and r in ('res', 'resuri', 'meta', 'seg', 'twice', 'upper'):
                verdict = 'refuse'
            elif r == 'seg' and ids['seg'] not in wd.objs or r == 'meta' and ids['meta'] not in wd.objs:
                verdict = 'refuse'
            q = a.op(*av, stdin=stdin)
            w.count('transitions')
            w.seen('states', (case['base'], case['t'], case['m'], i, r, inp))
            w.seen(verdict, (case['base'], case['t'], case['m'], i, r, inp))
            judge(w, a, wd, v0, ids, f'{case["base"]}: {" ".join(av)!r} with input {inp}', (case['t'] or '').lower() == 'metadata', content, q, verdict, before, i, before is not None)
    finally:
        os.makedirs(a.silo, exist_ok=True)
    w.count('traces')


def read_ops(a, ids):
    """arguments for reading operations"""
    p = a.prefix
    X = [ids['res'], p + ids['res'], ids['meta'], p + ids['cont'], p + ids['info'], p + ids['seg'], ids['absent'], ids['res'][:-1], ids['res'][:8], ids['res'] + '0', '', 'xyz', p, 'http://ex/' + ids['res'], ids['res'].upper(), '-', '--', '-x',
         '0', 'f', '/', a.dir, a.dir + '/conf', a.silo + '/0/00000000.warc.gz', a.silo + '/0/00000009.warc.gz', a.silo + '/index.appendix', a.silo + '/_.cache', a.silo]
    out = []
    for op, opts in (('get', ([], ['-z'], ['-q'], ['-n'], ['-o', a.dir + '/out'], ['-o', '/not/there/x'], ['-x'], ['-h'])), ('byid', ([], ['-e'], ['-h'], ['-x'])), ('dumpindex', ([], ['-t', 'metadata'], ['-t', 'x'], ['-h'])),
                     ('info', ([], ['-h'], ['-x'])), ('audit', ([], ['-i', 'ignore-metadata-record-id'], ['-i', 'x'], ['-h'])), ('filter', ([], ['-s'], ['-r'], ['-v'], ['-o', a.dir + '/out'], ['-o', '/not/there/x'], ['-h'], ['-x'])),
                     ('cgi', ([],)), ('nonsense', ([],)), ('', ([],)), ('mksilo', (['-x'], ['-h'])), ('housekeeping', (['-h'], ['-x'])), ('reindex', (['-h'], ['-x'])), ('rebuild', (['-h'], ['-x'])), ('stow', (['-h'], ['-x'])), ('stevedore', (['-h'], ['-x']))):
        for o in opts:
            for args in [()] + [(x,) for x in X] + ([(X[0], X[1]), (X[0], X[0]), (X[6], X[0]), (X[1], 'xyz')] if op not in ('mksilo', 'housekeeping', 'reindex', 'rebuild') else []):
                out.append([op, *o, *args])
    return out


@family
def c23_read(w, case):
    """operations which only read, or are refused"""
    a, wd, v0, ids = setup(w, case['base'])
    if BASES[case['base']] is None:
        a.reset()
        os.rmdir(a.silo)
        before = None
    else:
        a.restore(wd.snap)
        before = wd.snap
    try:
        for av in read_ops(a, ids)[case['part']::case['parts']]:
            env = []
            if av[0] == 'cgi':
                env = ['GATEWAY_INTERFACE=CGI/1.1', 'REQUEST_METHOD=GET', 'SCRIPT_NAME=/x', 'PATH_INFO=/' + (av[1] if len(av) > 1 else ''), 'REQUEST_URI=/' + (av[1] if len(av) > 1 else '')]
            q = a.op(*av, stdin=(av[-1] + '\n').encode() * 2, env=env)
            w.count('transitions')
            w.seen('states', (case['base'], tuple(x.replace(a.dir, '') for x in av)))
            after = a.snap() if os.path.isdir(a.silo) else None
            what = f'{case["base"]}: {av}'
            if (after is None) != (before is None) or after is not None and after.canon() != before.canon():
                w.bad('trace', f'{what}: {q.status()}, and the archive is changed: {diff(before, after)}')
                if before is not None:
                    a.restore(before)
                else:
                    a.reset()
                    os.rmdir(a.silo)
            if q.kind != 'exit' and (q.kind, q.code) != ('sig', 6):
                w.bad('died', f'{what}: ends with {q.status()} {q.err[-200:]!r}')
            if ('-x' in av[1:2] or '-h' in av[1:2] or av[0] in ('nonsense', '') or av[1:3] == ['-t', 'x'] or '/not/there/x' in av) and q.ok():
                w.bad('accepted', f'{what}: {q.status()}')
            if av[0] == 'get' and q.ok():
                x = [y for y in av[1:] if not y.startswith('-') and y != a.dir + '/out']
                if len(x) != 1 or x[0].lower().rpartition('/')[2] not in wd.objs:
                    w.bad('accepted', f'{what}: {q.status()}, {len(q.out)} bytes')
    finally:
        os.makedirs(a.silo, exist_ok=True)
    w.count('traces')


def check(ctx):
    jobs = []
    for b in BASES:
        full = not ctx.quick or b in ('mix',)
        for t in TYPES:
            for m in MIMES:
                if full:
                    jobs.append(dict(base=b, t=t, m=m, i=IARGS, r=RARGS, inp=INPUTS if not ctx.quick else INPUTS[:4]))
                else:
                    if t not in (None, 'metadata') and m not in (None, 'text/plain'):
                        continue
                    jobs.append(dict(base=b, t=t, m=m, i=[None, 'new'], r=RARGS, inp=['data', 'empty']))
                    jobs.append(dict(base=b, t=t, m=m, i=IARGS, r=[None, 'res'], inp=['data', 'file']))
                    jobs.append(dict(base=b, t=t, m=m, i=[None], r=[None, 'resuri', 'absent'], inp=INPUTS))
        for t, m, r in (('metadata', 'text/plain', 'res'), ('metadata', 'text/plain', 'absent'), (None, None, None), ('metadata', None, 'res')):
            # segmented, and the same as something that is there
            for spec in ('r9000.new', REF, BIG, MREF):
                jobs.append(dict(base=b, t=t, m=m, i=[None], r=[r], inp=INPUTS, spec=spec))
    ctx.explore(c23_store, jobs, chunk=2)
    ctx.explore(c23_read, [dict(base=b, part=i, parts=4) for b in BASES for i in range(4)])
    ctx.bound(f'{len(BASES)} archives; {len(TYPES)} types x {len(MIMES)} MIME types x {len(IARGS)} -i x {len(RARGS)} -r x {len(INPUTS)} inputs; {len(read_ops_n())} requests of other kinds')


def read_ops_n():
    class A:
        prefix, dir, silo = 'p/', '/d', '/d/s'
    return read_ops(A, dict.fromkeys(('res', 'meta', 'cont', 'info', 'seg', 'absent'), '0' * 32))
