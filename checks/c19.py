"""C19: stow archives a directory tree completely."""
import itertools, json, os, re, signal, subprocess, time
from mc.core import family
from mc.gen import gen, sha
from mc import build, core, hist, stow, stv, warc
from mc.stow import Run, mkspec, mktree, files

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of the real program under a controlled environment: a scripted mtree and a model stevedore hold every descriptor of stow, and every order in which their output can reach it (in pieces, with every grouping of filter answers) is enumerated, as is every helper failure at every point; enumeration of trees and names end to end with the real stevedore'
NOTE = 'Trees of up to three files for all orders (bounded deviations from the default order for larger ones), every helper failure at every step of the default orders; end-to-end runs over names, sizes, nestings and connections cut at every byte. stow is deterministic between two deliveries, so that orders of deliveries are all the schedules there are.'
ASSUMPTIONS = ['mtree prints the format of FreeBSD mtree -c -K sha256digest with names encoded by vis(3)', 'files do not change while stow runs, except where a case says so', 'the stevedore answers as its protocol says, or is broken off']

A, B, C = gen('r300.a'), gen('r5.b'), gen('t700.c')
TREES = {
    'none': {},
    'empty': {b'e': b''},
    'one': {b'a': A},
    'two': {b'a': A, b'b': B},
    'same': {b'a': A, b'b': A},
    'sub': {b'a': A, b'd': {b'b': B}},
    'three': {b'a': A, b'b': B, b'd': {b'c': C}},
    'mix': {b'a': A, b'l': ('link', b'a'), b'd': {b'f': ('fifo',), b'b': B, b'dd': {b'e': b'', b'c': C}}, b'x': {}},
    'big': {b'a': gen('r9000.g'), b'b': gen('z70000'), b'c': A},
    'wide': {b'f%02d' % i: b'content %d' % (i // 2) for i in range(25)},
}
HS = {b: hist.make(f'c19_{b}', confs=({'max_size': '15k', 'id_bits': b},)) for b in (128, 64, 256)}


def chunking(spec, how):
    if how == 'one':
        return [spec]
    if how == 'lines':
        l = spec.splitlines(True)
        return l
    if how == 'half':
        n = len(spec) // 2
        return [spec[:n], spec[n:]]
    if how == 'third':      # inside a word, and between \ and newline
        k = spec.find(b'\\\n')
        k = k + 1 if k >= 0 else len(spec) // 3
        return [x for x in (spec[:k], spec[k:k + 30], spec[k + 30:]) if x]
    if how[0] == '@':
        n = int(how[1:])
        return [spec[i:i + n] for i in range(0, len(spec), n)]
    raise ValueError(how)


def setup(w, case):
    a = w.arch(f'st{case.get("bits", 128)}', max_size='15k', id_bits=case.get('bits', 128))
    t = TREES[case['tree']]
    d = a.dir + '/' + 'T-' + case['tree']
    if not os.path.isdir(d):
        mktree(d, t)
    spec = mkspec(t, case.get('style', 0))
    base = []
    if 'a' in case.get('base', ''):
        base.append(sha(A))
    if 'b' in case.get('base', ''):
        base.append(sha(B))
    if 's' in case.get('base', ''):
        base.append(sha(spec))
    stow.conf(a, {'j': {'directory': d, 'cmd': 'exec $MC_RELAY stv'}})
    return a, t, spec, base


def start(w, case, **kw):
    a, t, spec, base = setup(w, case)
    return Run(w, a, t, spec, base, id_len=a.id_len, prefix=a.prefix, chunks=chunking(spec, case.get('chunks', 'one')), timeout=5 * w.slow, **kw), base


def judge(w, r, base, what, must=True):
    """r has ended"""
    rc = r.finish()
    w.count('executions')
    w.count('transitions', len(r.log))
    text = r.text.decode('latin-1')
    for k, m in r.problems:
        w.bad(k, f'{what}: {m}; after {" ".join(r.log)}')
    want = [c for _, c in files(r.tree) if c]
    if rc == 0:
        n = r.id_len
        have = {x[:n] for x in base} | {sha(c)[:n] for c in r.sent}
        for path, c in files(r.tree):
            if c and sha(c)[:n] not in have:
                w.bad('missing', f'{what}: status 0, but {b"/".join(path)!r} was not sent; after {" ".join(r.log)}')
        if sha(r.spec)[:n] not in have:
            w.bad('missing', f'{what}: status 0, but the mtree specification was not sent; after {" ".join(r.log)}')
        if not r.acked_meta:
            w.bad('early', f'{what}: status 0, but no metadata was acknowledged; after {" ".join(r.log)}')
        if not r.clean and not r.either:
            w.bad('success', f'{what}: status 0 although a helper failed; after {" ".join(r.log)}')
    elif must and r.clean and not any(k == 'hang' for k, _ in r.problems):
        w.bad('fails', f'{what}: status {rc} though nothing went wrong; after {" ".join(r.log)}: {text[-300:]}')
    for c in r.sent:
        if c not in want and c != r.spec:
            w.bad('sent', f'{what}: sends {len(c)} bytes which are no file of the tree; after {" ".join(r.log)}')
    if r.late:
        w.bad('order', f'{what}: sends a file after the metadata; after {" ".join(r.log)}')
    for ref, body in r.metas:
        if ref.decode('latin-1') != sha(r.spec) and ref.decode('latin-1') != sha(r.spec)[:r.id_len]:
            w.bad('meta', f'{what}: metadata refers to {ref!r}, the specification is {sha(r.spec)}')
        try:
            j = json.loads(body)
            assert j[0] == 'STOW3.0' and j[1]['mtree'] == 'sha256:' + sha(r.spec) and j[1]['target'] == 'j' and 'changed' not in j[1] and 'missing' not in j[1]
        except (ValueError, KeyError, AssertionError, TypeError) as e:
            w.bad('meta', f'{what}: metadata {body[:300]!r}: {e!r}')
    if len(r.metas) > 1:
        w.bad('meta', f'{what}: {len(r.metas)} metadata')
    w.seen('states', (what, rc == 0, tuple(r.log)))
    return rc


def name(case):
    return f'{case["tree"]} ({case.get("chunks", "one")}, {case.get("bits", 128)} bits, in the archive: {case.get("base", "") or "-"})'


def play(w, case, prefix, dev=99):
    """prefix, then always the first action; -> other choices behind the prefix"""
    r, base = start(w, case)
    alts = []
    i = 0
    while True:
        acts = r.actions()
        if not acts or r.problems or len(r.log) > 300:
            break
        if i < len(prefix):
            x = prefix[i]
            if x not in acts:
                # another run went another way
                w.bad('unsteady', f'{name(case)}: action {x} is not possible after {r.log}: {acts}')
                break
        else:
            x = acts[0]
            for y in acts[1:]:
                alts.append(list(r.log) + [y])
        r.act(x)
        i += 1
    judge(w, r, base, name(case))
    w.count('schedules')
    w.sample(f'{name(case)}: {" ".join(r.log)}')
    return alts, r.log


def dev_of(case, seq):
    """deviations from the first choice cannot be counted without running; kept in the case"""
    return 0


@family
def c19_env(w, case):
    """all orders behind a prefix, with at most dev deviations from the default order"""
    todo = [(list(case['prefix']), case['dev'])]
    while todo and len(w.bads) < 3:
        p, d = todo.pop()
        alts, log = play(w, case, p)
        if d > 0:
            if case.get('split'):
                return [(x, d - 1) for x in alts]
            todo += [(x, d - 1) for x in alts]
    w.count('traces')


@family
def c19_fault(w, case):
    """a helper fails at one point of an order"""
    def run(fault, at):
        r, base = start(w, case)
        n = 0
        while True:
            acts = r.actions()
            if n == at and not r.done:
                r.act(fault)
                at = -1
                continue
            if not acts and at == -1 and fault and not r.done and not r.sgone:
                # whatever it waits for will not come
                r.act('K0')
                continue
            if not acts or r.problems or n > 300:
                break
            # the order: mtree first, last, or the usual one
            x = acts[0]
            if case['order'] == 'late':
                x = acts[-1]
            elif case['order'] == 'mtree':
                x = next((y for y in acts if y in ('m', 'e')), x)
            r.act(x)
            n += 1
        return r, base, n
    r, base, n = run(None, -1)
    judge(w, r, base, name(case))
    for at in range(n):
        for f in case['faults']:
            if len(w.bads) > 3:
                return
            if not applicable(w, case, f, at):
                continue
            r, base, _ = run(f, at)
            judge(w, r, base, f'{name(case)} with {f} at {at}', must=f)
            w.count('faults')
    w.count('traces')


def applicable(w, case, f, at):
    return True


@family
def c19_cut(w, case):
    """answers that arrive in pieces"""
    r, base = start(w, case)
    n = 0
    while True:
        acts = r.actions()
        if not acts or r.problems:
            break
        r.act(acts[case['pick'] % len(acts)], cuts=case['cuts'])
    judge(w, r, base, f'{name(case)}, answers cut at {case["cuts"]}')
    w.count('traces')


# ------------------------------------------------------------------ end to end
def env(a):
    d, r = stow.relay()
    return {'PATH': f'{d}:/usr/bin:/bin', 'MC_SPEC': a.dir + '/spec', 'LC_ALL': 'C', 'TZ': 'UTC', 'HOME': '/nonexistent'}


def run_stow(w, a, jobs, timeout=10, environ=None):
    stv.subreaper()
    p = subprocess.Popen([w.srv.exe, '-c', a.confpath, 'stow', *jobs], cwd=a.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, env=environ or env(a))
    hung = False
    try:
        out, err = p.communicate(timeout=timeout * w.slow)
    except subprocess.TimeoutExpired:
        hung = True
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
    if stv.reap(p.pid, 5):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        stv.reap(p.pid, 2)
    w.count('executions')
    w.count('transitions')
    return ('hung' if hung else p.returncode), out, err


def put(a, j, tree, style=0, digests=None, real=None):
    """a tree and its specification; -> the specification"""
    d = f'{a.dir}/{j}'
    subprocess.run(['rm', '-rf', d], check=True) if os.path.lexists(d) else None
    mktree(d, tree)
    spec = mkspec(tree, style, digests)
    os.makedirs(a.dir + '/spec', exist_ok=True)
    with open(a.dir + '/spec/' + j, 'wb') as f:
        f.write(spec)
    return spec


def complete(w, a, tree, spec, j, what, changed=None, time_ok=True):
    """everything is retrievable, and the metadata say so"""
    snap = a.snap()
    v = warc.View(snap, a, dups_ok=True)
    for p in v.problems[:2]:
        w.bad('archive', f'{what}: {p}')
    n = a.id_len
    todo = [(b'/'.join(p), c) for p, c in files(tree) if c]
    for p, c in todo + [(b'${MTREE}', spec)]:
        x = sha(c)[:n]
        if x not in v.objs or v.objs[x][0].content != c:
            w.bad('missing', f'{what}: status 0, but {p!r} is not in the archive')
    for p, c in todo[:3] + [(b'${MTREE}', spec)]:
        r = a.get(a.prefix + sha(c)[:n], '-q')
        if not r.ok() or r.out != c:
            w.bad('missing', f'{what}: status 0, but get of {p!r}: {r.status()} {len(r.out)} bytes')
    ref = '<' + a.prefix + sha(spec)[:n] + '>'
    ms = [o for l in v.objs.values() for o in l if o.type == 'metadata' and o.ref == ref]
    good = 0
    for o in ms:
        try:
            m = json.loads(o.content)
            assert m[0] == 'STOW3.0' and m[1]['mtree'] == 'sha256:' + sha(spec), 'head'
            assert m[1]['target'] == j and isinstance(m[1]['time'], int), 'target'
            if m[1].get('changed', {}) == (changed or {}) and 'missing' not in m[1]:
                good += 1
        except (ValueError, KeyError, AssertionError, TypeError) as e:
            w.bad('meta', f'{what}: metadata {o.content[:300]!r}: {e!r}')
    if not good:
        w.bad('meta', f'{what}: status 0, but no metadata about the specification with changed={changed}: {[o.content[:300] for o in ms]}')
    return v


def stow_ok(w, a, j, tree, spec, what, **kw):
    rc, out, err = run_stow(w, a, [j])
    if rc == 'hung':
        w.bad('hang', f'{what}: stow does not end; {err[-200:]!r}')
    elif rc != 0:
        w.bad('fails', f'{what}: stow ends with {rc}: {err[-400:]!r}')
    else:
        return complete(w, a, tree, spec, j, what, **kw)


def arch(w, case, jobs=('j',), cmd=None, extra=None):
    kw = {'max_size': case.get('max', '15k'), 'id_bits': case.get('bits', 128)}
    a = w.arch(f'e2e-{kw["max_size"]}-{kw["id_bits"]}', **kw)
    cmd = cmd or f'{w.srv.exe} -c {a.confpath} stevedore'
    stow.conf(a, {j: {'directory': f'{a.dir}/{j}', 'cmd': cmd, **(extra or {})} for j in jobs})
    return a


NAMES = [b'a', b'-a', b'.a', b'..a', b'...', b'a b', b' ', b'  x ', b'a#b', b'#', b'#a', b'\\', b'\\\\', b'a\\', b'\\n', b'a\nb', b'\n', b'\t', b'a\rb', b'\x01', b'\x7f', b'*', b'a?[b]', b'%s%n', b'a=b', b'type=dir', b'type=file', b'x type=dir',
         b'size=0', b'sha256digest=e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855', b'"', b"'", b'$(x)', b'{', b'a,b', b'\xc3\xa9', b'\xff', b'\xe9', b'\x80\x81', b'\xa0', b'\\M-a', b'\\^A', b'\\012', b'\\s', b'&amp;', b'%41', b'a' * 255, b'\x01' * 200, b'\xff' * 255, b' ' * 255,
         b'set', b'^A', b'M-a', b'^', b'M', b'~', b'@', b'!', b'a;b', b'a|b', b'a&b', b'<x>']


@family
def c19_names(w, case):
    """one name in all places: file, directory, beside others"""
    a = arch(w, case)
    n = bytes.fromhex(case['name'])
    for style in range(5):
        for i, tree in enumerate(({n: A}, {n: {b'f': B}}, {n: {n: {n: A}}, b'zz': B}, {b'd': {n: A, b'b': B}, b'0': C})):
            if style and i > 1 and case['quick']:
                continue
            a.reset()
            spec = put(a, 'j', tree, style)
            v = stow_ok(w, a, 'j', tree, spec, f'name {n!r} place {i} style {style}')
            if v:
                w.seen('states', ('names', n, i, style))
    w.count('traces')


@family
def c19_trees(w, case):
    """all small trees: each file may have each content, each directory be there or not"""
    a = arch(w, case)
    cont = {'-': None, 'a': A, 'b': B, 'e': b'', 's': gen('r16000.s'), 'L': ('link', b'x'), 'F': ('fifo',)}
    for combo in case['combos']:
        tree, d, dd = {}, {}, {}
        for (t, nm), k in zip(((tree, b'x'), (tree, b'y'), (d, b'x'), (dd, b'z')), combo):
            if cont[k] is not None:
                t[nm] = cont[k]
        if case['dirs'] & 1:
            tree[b'd'] = d
            if case['dirs'] & 2:
                d[b'dd'] = dd
        a.reset()
        what = f'tree {combo} {case["dirs"]}'
        spec = put(a, 'j', tree, case.get('style', 0))
        v = stow_ok(w, a, 'j', tree, spec, what)
        if v is None:
            continue
        if case['again']:
            # again: nothing but the time may be new
            ids = set(v.objs)
            v = stow_ok(w, a, 'j', tree, spec, what + ' again')
            if v is not None and len([1 for x, l in v.objs.items() if x not in ids and l[0].type == 'resource']):
                w.bad('again', f'{what}: the second run stores resources anew')
            # one file more
            tree[b'new'] = C
            spec = put(a, 'j', tree, case.get('style', 0))
            stow_ok(w, a, 'j', tree, spec, what + ' with one more')
        w.seen('states', ('trees', combo, case['dirs']))
    w.count('traces')


@family
def c19_sizes(w, case):
    a = arch(w, case)
    for n in case['sizes']:
        tree = {b'a': gen(f'{case["kind"]}{n}.7'), b'b': B}
        spec = put(a, 'j', tree)
        stow_ok(w, a, 'j', tree, spec, f'file of {n} bytes {case["kind"]}, silos of {case.get("max", "15k")}')
        w.seen('states', ('sizes', n, case['kind']))
    w.count('traces')


def wide(n, deep, same):
    tree = {}
    t = tree
    for i in range(deep):
        t[b'dir%d' % i] = {}
        t = t[b'dir%d' % i]
        t[b'f'] = b'in %d' % i
    for i in range(n):
        t[b'file %d' % i] = b'x%d' % (i // same)
    return tree


@family
def c19_many(w, case):
    """many files, deep trees, long names"""
    a = arch(w, case)
    n, deep, same = case['n'], case['deep'], case['same']
    tree = wide(n, deep, same) if not case.get('long') else {}
    t = tree
    for i in range(case.get('long', 0)):
        t[b'%03d' % i + b'\x01' * 200] = {}
        t = t[b'%03d' % i + b'\x01' * 200]
        t[b'f'] = b'long %d' % i
        t[b'l'] = ('link', b'\x02' * case.get('target', 0)) if case.get('target') else B
    spec = put(a, 'j', tree)
    stow_ok(w, a, 'j', tree, spec, f'{n} files (every {same} the same), {deep} deep, {case.get("long", 0)} long names')
    if case.get('again'):
        rc, out, err = run_stow(w, a, ['j'])
        if rc != 0:
            w.bad('fails', f'{n} files again: {rc} {err[-300:]!r}')
    w.seen('states', ('many', n, deep, same, case.get('long'), case.get('target')))
    w.count('traces')


@family
def c19_broken(w, case):
    """the connection is cut after so many bytes; then once more, uncut"""
    tree = TREES[case['tree']]
    for k in range(*case['range']):
        if len(w.bads) > 2:
            return
        for how in case['how']:
            a0 = w.arch('e2e-15k-128', max_size='15k', id_bits=128)
            real = f'{w.srv.exe} -c {a0.confpath} stevedore'
            rl = stow.relay()[1]
            cmd = {'in': f'{rl} cut {k} | {real}', 'none': f'{rl} cut {k} > /dev/null', 'fail': f'{real} && exit {k}'}[how]
            a = arch(w, {}, cmd=cmd)
            spec = put(a, 'j', tree)
            rc, out, err = run_stow(w, a, ['j'])
            what = f'{case["tree"]}, connection cut: {how} {k}'
            if rc == 'hung':
                w.bad('hang', f'{what}: stow does not end; {out[-200:]!r} {err[-200:]!r}')
                continue
            v = warc.View(a.snap(), a, dups_ok=True)
            if v.problems:
                w.bad('archive', f'{what}: {v.problems[:2]}')
            allowed = {sha(c)[:32] for _, c in files(tree)} | {sha(spec)[:32]}
            for x, l in v.objs.items():
                if l[0].type == 'resource' and x not in allowed:
                    w.bad('partial', f'{what}: stores {x}, {len(l[0].content)} bytes which are no whole file')
            if rc == 0:
                complete(w, a, tree, spec, 'j', what + ' (status 0)')
                if how == 'fail' and k:
                    w.bad('success', f'{what}: status 0')
            a = None
            a = arch_keep(w)
            stow_ok(w, a, 'j', tree, spec, what + f' (ended with {rc}), then once more')
            w.seen('states', ('broken', how, k, rc, tuple(sorted(v.objs))))
            w.count('faults')
    w.count('traces')


def arch_keep(w):
    """the same archive, with the proper command"""
    k = ('e2e-15k-128', (('id_bits', 128), ('max_size', '15k')))
    a = w._arch[k]
    stow.conf(a, {'j': {'directory': f'{a.dir}/j', 'cmd': f'{w.srv.exe} -c {a.confpath} stevedore'}})
    return a


@family
def c19_change(w, case):
    """files that changed or went away since mtree looked"""
    a = arch(w, case)
    tree = {b'a': A, b'b': B, b'd': {b'c': C}}
    paths = [(b'a',), (b'b',), (b'd', b'c')]
    for i, p in enumerate(paths):
        for new in (gen('r77.new'), A + b'x', B, gen('r20000.new')):
            old = dict(files(tree))[p]
            if new == old:
                continue
            a.reset()
            import copy
            t2 = copy.deepcopy(tree)
            d = t2
            for q in p[:-1]:
                d = d[q]
            d[p[-1]] = new
            spec = put(a, 'j', t2, 0, {p: sha(old)})
            what = f'{b"/".join(p)!r} changed to {len(new)} bytes'
            # found under its new ID, and the metadata tell
            stow_ok(w, a, 'j', t2, spec, what, changed={'sha256:' + sha(old): 'id:' + sha(new)[:a.id_len]})
        # two changed
    a.reset()
    t2 = {b'a': gen('r10.n1'), b'b': gen('r11.n2'), b'd': {b'c': C}}
    spec = put(a, 'j', t2, 0, {(b'a',): sha(A), (b'b',): sha(B)})
    stow_ok(w, a, 'j', t2, spec, 'two files changed', changed={'sha256:' + sha(A): 'id:' + sha(gen('r10.n1'))[:a.id_len], 'sha256:' + sha(B): 'id:' + sha(gen('r11.n2'))[:a.id_len]})
    for i, p in enumerate(paths):
        for how in ('gone', 'dir', 'empty', 'nodir'):
            a.reset()
            spec = put(a, 'j', tree)
            f = f'{a.dir}/j/' + b'/'.join(p).decode()
            os.unlink(f)
            if how == 'dir':
                os.mkdir(f)
            elif how == 'empty':
                open(f, 'w').close()
            elif how == 'nodir' and len(p) > 1:
                os.rmdir(os.path.dirname(f))
            rc, out, err = run_stow(w, a, ['j'])
            what = f'{b"/".join(p)!r} {how}'
            if rc == 'hung':
                w.bad('hang', f'{what}: stow does not end')
            elif rc == 0:
                w.bad('success', f'{what}: status 0')
            put(a, 'j', tree)
            stow_ok(w, a, 'j', tree, spec, what + ', then once more')
    w.count('traces')


@family
def c19_jobs(w, case):
    """several jobs in one run, in all orders; broken ones among them"""
    a = arch(w, case, jobs=('j', 'k', 'l'))
    trees = {'j': TREES['three'], 'k': TREES['same'], 'l': TREES['mix']}
    specs = {j: put(a, j, t) for j, t in trees.items()}
    for n in (1, 2, 3):
        for p in itertools.permutations('jkl', n):
            a.reset()
            rc, out, err = run_stow(w, a, list(p))
            if rc != 0:
                w.bad('fails', f'jobs {p}: {rc} {err[-300:]!r}')
                continue
            for j in p:
                complete(w, a, trees[j], specs[j], j, f'jobs {p}: {j}')
    # the second fails
    for p in (('j', 'x'), ('x', 'j')):
        a.reset()
        rc, out, err = run_stow(w, a, list(p))
        if rc == 0:
            w.bad('success', f'jobs {p}, one of which does not exist: status 0')
    os.unlink(a.dir + '/spec/k')
    for p in itertools.permutations('jk'):
        a.reset()
        rc, out, err = run_stow(w, a, list(p))
        if rc == 0:
            w.bad('success', f'jobs {p}, mtree fails for k: status 0')
        elif rc == 'hung':
            w.bad('hang', f'jobs {p}, mtree fails for k: does not end')
        elif p[0] == 'j':
            complete(w, a, trees['j'], specs['j'], 'j', f'jobs {p}: j')
    w.count('traces')


REALM = '/opt/vp/compat/bin/mtree'


@family
def c19_real(w, case):
    """the mtree of this system, exclusion lists"""
    if not os.path.exists(REALM) or not os.path.exists('/usr/bin/mtree'):
        return
    a = arch(w, case)
    e = env(a)
    e['PATH'] = os.path.dirname(REALM) + ':/usr/bin:/bin'
    bad = {b'\xff', b'\xe9', b'\x80\x81', b'\xa0', b'\xc3\xa9'}       # its vis(3) encodes these as characters
    trees = [TREES[t] for t in TREES] + [{n: A if i & 1 else sha(n).encode() for i, n in enumerate(NAMES) if not set(n) & set(range(128, 256))}]
    for t in trees:
        a.reset()
        d = a.dir + '/j'
        if os.path.lexists(d):
            subprocess.run(['rm', '-rf', d], check=True)
        mktree(d, t)
        rc, out, err = run_stow(w, a, ['j'], environ=e)
        if rc != 0:
            w.bad('fails', f'with the real mtree, {sorted(t)[:5]}...: {rc} {err[-300:]!r}')
            continue
        v = warc.View(a.snap(), a, dups_ok=True)
        for p, c in files(t):
            if c and sha(c)[:32] not in v.objs:
                w.bad('missing', f'with the real mtree: {p} is not in the archive')
        ms = [o for l in v.objs.values() for o in l if o.type == 'metadata']
        if len(ms) != 1 or ms[0].ref[1:-1].rsplit('/')[-1] not in v.objs:
            w.bad('meta', f'with the real mtree: metadata {[m.content for m in ms]}')
    # exclusion
    with open(a.dir + '/excl', 'w') as f:
        f.write('./b\n*.skip\n')
    a = arch(w, case, extra={'exclude': a.dir + '/excl'})
    d = a.dir + '/j'
    subprocess.run(['rm', '-rf', d], check=True)
    t = {b'a': A, b'b': B, b'c.skip': C, b'd': {b'b': gen('r9.db'), b'x.skip': gen('r8.x')}}
    mktree(d, t)
    rc, out, err = run_stow(w, a, ['j'], environ=e)
    v = warc.View(a.snap(), a, dups_ok=True)
    if rc != 0 or sha(A)[:32] not in v.objs or sha(B)[:32] in v.objs or sha(C)[:32] in v.objs:
        w.bad('exclude', f'exclusion list: {rc} {sorted(v.objs)}')
    w.count('traces')


def check(ctx):
    q = ctx.quick
    # --- orders
    env_cases = []
    full = [('none', 'one', 9), ('empty', 'one', 9), ('one', 'one', 9), ('one', 'third', 9), ('two', 'one', 9), ('two', 'half', 9), ('same', 'one', 9), ('sub', 'third', 3 if q else 9), ('three', 'one', 3 if q else 6), ('three', 'lines', 1 if q else 2), ('mix', 'half', 2 if q else 4), ('big', 'one', 2 if q else 3), ('wide', 'one', 1 if q else 2)]
    for t, c, d in full:
        for b in ('', 'a', 's', 'as', 'abs'):
            if ('b' in b or 'a' in b) and t in ('none', 'empty', 'wide'):
                continue
            if b in ('as', 'abs') and q and t not in ('one', 'two'):
                continue
            env_cases.append({'tree': t, 'chunks': c, 'base': b, 'prefix': [], 'dev': d, 'split': 1})
    for b in (64, 256):
        env_cases.append({'tree': 'two', 'chunks': 'half', 'base': 'a', 'bits': b, 'prefix': [], 'dev': 2, 'split': 1})
    for rnd in range(2):
        nxt = []
        for c, r in sorted(ctx.explore(c19_env, env_cases), key=lambda x: core.case_json(x[0])):
            for p, d in r or []:
                nxt.append(dict(c, prefix=p, dev=d, split=1 if rnd == 0 else 0))
        if rnd == 0:
            env_cases = nxt
    ctx.explore(c19_env, nxt, chunk=2)
    ctx.bound('orders of deliveries to stow (deviations from the default order): ' + ', '.join(f'{t}/{c} {d if d < 9 else "all"}' for t, c, d in full))
    cut = []
    for t in ('two', 'three', 'mix'):
        for pick in (0, -1):
            for c in ([1], [2], [3], [1, 2], [5], [1, 2, 3, 4, 5, 6], [20], [30], [33], [34]):
                cut.append({'tree': t, 'chunks': 'one', 'base': 'a', 'cuts': c, 'pick': pick})
    for t in TREES:
        for n in (1, 2, 3, 7, 64, 100, 1000):
            if n == 1 and t in ('wide',) and q:
                continue
            cut.append({'tree': t, 'chunks': f'@{n}', 'style': n % 5, 'base': '', 'cuts': [], 'pick': 0})
    ctx.explore(c19_cut, cut)
    ctx.bound('answers and specifications cut into pieces of every small size')
    # --- failures
    fl = []
    for t in ('none', 'one', 'two', 'three') if q else TREES:
        for c in ('one', 'half'):
            for o in ('first', 'late', 'mtree'):
                for b in ('', 'a', 's'):
                    for f in ('K0', 'K1', 'K255', 'N1', 'N255', 'c1', 'R80', 'R8010', 'Rc1', 'Rc1000001', 'R41', 'R8104', 'R81040000', 'R82', 'R8220', 'R822066696c65', 'R83', 'R8320', 'R832066696c65'):
                        if b and (q and t not in ('one', 'two') or t in ('none', 'empty')):
                            continue
                        if q and f[0] == 'R' and (b or c != 'one'):
                            continue
                        fl.append({'tree': t, 'chunks': c, 'order': o, 'base': b, 'faults': [f]})
    ctx.explore(c19_fault, fl, chunk=2)
    ctx.bound('each helper failing in each way at every point of three orders')
    # --- end to end
    ctx.explore(c19_names, [{'name': n.hex(), 'quick': q} for n in NAMES])
    kinds = ctx.n('-abesL', '-abesLF')
    for dirs, w_ in ((0, 2), (1, 3), (3, 4)):
        combos = [''.join(c) + '-' * (4 - w_) for c in itertools.product(kinds, repeat=w_)]
        if q and w_ > 2:
            combos = combos[::{3: 1, 4: 5}[w_]]
        ctx.explore(c19_trees, [{'combos': combos[i:i + 6], 'dirs': dirs, 'again': 1 if w_ == 2 or not q else 0, 'style': i // 6 % 5} for i in range(0, len(combos), 6)])
    ctx.bound('trees with up to 4 files of %d kinds in 3 directories%s; %d names in 4 places' % (len(kinds), ' (every fifth of the largest ones)' if q else '', len(NAMES)))
    sizes = sorted({x + k for x in (1, 3072, 4096, 6144, 8192, 15360, 65536, 131072) for k in (-1, 0, 1) if x + k > 0})
    ctx.explore(c19_sizes, [{'sizes': [s], 'kind': k, 'max': m} for s in sizes for k in 'rz' for m in (('15k',) if q else ('4k', '15k', '2m'))])
    ctx.explore(c19_many, [{'n': n, 'deep': d, 'same': s} for n in (9, 10, 11, 100) + (() if q else (1000,)) for d in (0, 1, 30) for s in (1, 2, 50)]
                + [{'n': 0, 'deep': 0, 'same': 1, 'long': l, 'target': t} for l in (1, 3, 4) for t in (0, 255, 1000)]
                + [{'n': 3000, 'deep': 0, 'same': 3000, 'again': 1}] + ([] if q else [{'n': 20000, 'deep': 2, 'same': 20000, 'again': 1}]))
    br = []
    for t in ('one', 'three') if q else ('none', 'one', 'three', 'mix', 'big'):
        n = {'none': 700, 'one': 1200, 'three': 2700, 'mix': 3000, 'big': 3000}[t]
        st = 7 if q else 1
        for i in range(0, n, st * 4):
            br.append({'tree': t, 'range': [i, i + st * 4, st], 'how': ['in']})
        br.append({'tree': t, 'range': [0, 4, 1], 'how': ['none', 'fail']})
    ctx.explore(c19_broken, br)
    ctx.bound('connection cut at every %s byte on the way to the stevedore, then run again' % ('7th' if q else ''))
    ctx.explore(c19_change, [{}, {'bits': 64}, {'bits': 256}])
    ctx.explore(c19_jobs, [{}])
    ctx.explore(c19_real, [{}])
