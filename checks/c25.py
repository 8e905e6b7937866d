"""C25: staged backups are complete and reach every silo."""
import hashlib, hmac, os, re, sys
from mc.core import family
from mc.gen import gen, sha
from mc import build, faults, run as mrun

sys.path.insert(0, os.path.join(build.VERIF, 'src/pystub'))
sys.dont_write_bytecode = True
from cryptography.hazmat.primitives.ciphers import aes, Cipher, algorithms, modes      # noqa: E402  (ours, see src/pystub)

LEVEL = 'fault_enumeration'
RULE = 'a run of select_silos.py killed before each system call that changes something and inside each write, or one of its system calls failing in every way in mc/faults.py, from several states and followed by runs without fault; and every history of growth, loss, new silos and runs up to a depth; distinct: states of silos, staging directory and notes'
TECHNIQUE = 'explicit-state exploration and fault enumeration of the real script: breadth-first search over histories of silo changes and backup runs, each run also killed or made to fail at every system call, judged by a reference scheduler and an independent decryption'
NOTE = 'The script runs under the Python interpreter with a stand-in for the cryptography package (src/pystub: AES256-CTR after FIPS 197, checked against its test vector; the package is not installed here) and a clock that stands still during a run. Histories to depth 4 (5) over three silos of sizes around the quota. A silo which grows while it is being read is outside.'
ASSUMPTIONS = ['the cryptography package does what its documentation says', 'kill, not power loss: what system calls did before the kill stays done', 'the silos do not change while the script runs']

assert aes.block(aes.expand(bytes(range(32))), 0x00112233445566778899aabbccddeeff).hex() == '8ea2b7ca516745bfeafc49904b496089'

PKEY, SKEY = sha(b'pkey'), sha(b'skey')[:32]
NAMES = {'A': '0/00000000.warc.gz', 'B': '0/00000001.warc.gz', 'C': '1/01/00000100.warc.gz', 'D': '0/00000002.warc.gz', 'E': '0/00000003.warc.gz'}
LETTER = {os.path.basename(v): k for k, v in NAMES.items()}


def body(k, size):
    return gen(f'r{size}.{k}')


def crypt(name, data):
    iv = hmac.new(bytes.fromhex(SKEY), name.encode(), 'sha256').digest()[:16]
    return Cipher(algorithms.AES(bytes.fromhex(PKEY)), modes.CTR(iv)).encryptor().update(data)


class B:
    """a scratch directory: silos in s/, staging directory st, notes in cwd/"""

    def __init__(self, w, quota):
        self.w, self.quota = w, quota
        self.dir = w.dir('bk')
        self.now = 1000
        for d in ('s', 'cwd'):
            os.makedirs(self.dir + '/' + d, exist_ok=True)

    def put(self, sizes, others=()):
        mrun.restore(self.dir, mrun.Snap())
        for d in ('s', 'cwd'):
            os.makedirs(self.dir + '/' + d, exist_ok=True)
        with open(self.dir + '/cwd/secrets.txt', 'w') as f:
            f.write(PKEY + '\n' + SKEY + '\n')
        self.sizes = {}
        self.change(sizes)

    def change(self, sizes):
        for k in self.sizes:
            if k not in sizes:
                os.unlink(f'{self.dir}/s/{NAMES[k]}')
        for k, n in sizes.items():
            if self.sizes.get(k) != n:
                p = f'{self.dir}/s/{NAMES[k]}'
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(body(k, n))
        self.sizes = dict(sizes)
        # what is none of the backup's business
        os.makedirs(self.dir + '/s/0', exist_ok=True)
        for p in ('0/00000009.warc.gz.hold', '_.cache', 'index.sorted', '0/00000000.warc.gz_'):
            with open(f'{self.dir}/s/{p}', 'wb') as f:
                f.write(b'no silo')

    def run(self, fs=(), trace=0):
        self.now += 10
        env = ['AA_STAGING=' + self.dir + '/st', 'AA_SILODIR=' + self.dir + '/s', f'AA_QUOTA={self.quota}']
        p = mrun.Proc(['python3', '-S', '-I', '-B', os.path.join(build.VERIF, 'src/pystub/run.py'), os.path.join(build.REPO, 'utilities/select_silos.py'), self.dir, str(self.now)],
                      exe='/usr/bin/python3', env=env, faults=[tuple(f) for f in fs])
        return self.w.server('plain').run([p], root=self.dir, cwd=self.dir + '/cwd', trace=trace or (1 if fs else 0), timeout=30000)

    def staged(self):
        """name -> files in the staging directory, None if there is none"""
        d = self.dir + '/st'
        if not os.path.isdir(d):
            return None
        out = {}
        for n in os.listdir(d):
            with open(d + '/' + n, 'rb') as f:
                out[n] = f.read()
        return out


def judge_files(b, st, sizes):
    """letters of the silos completely staged; raises ValueError"""
    sel = set()
    for n in st:
        m = re.fullmatch(r'(\d{8}\.warc\.gz)\.bin(|\.hmac|\.sha256)', n)
        if not m or m.group(1) not in LETTER:
            raise ValueError(f'{n} in the staging directory')
        sel.add(m.group(1))
    out = {}
    for n in sel:
        e = st.get(n + '.bin')
        if e is None or n + '.bin.hmac' not in st or n + '.bin.sha256' not in st:
            raise ValueError(f'{n}: only {sorted(x for x in st if x.startswith(n))}')
        if st[n + '.bin.hmac'] != hmac.new(bytes.fromhex(SKEY), e, 'sha256').hexdigest().encode() + b'\n':
            raise ValueError(f'{n}: .hmac holds {st[n + ".bin.hmac"][:80]!r}, not the HMAC of the {len(e)} bytes of .bin')
        if st[n + '.bin.sha256'] != f'SHA256 ({n}.bin) = {sha(e)}\n'.encode():
            raise ValueError(f'{n}: .sha256 holds {st[n + ".bin.sha256"][:120]!r}, not the digest of .bin')
        k = LETTER[n]
        d = crypt(n, e)
        if d not in [body(k, x[k]) for x in sizes if k in x]:
            raise ValueError(f'{n}: decrypts to {len(d)} bytes which are not the silo of {[x.get(k) for x in sizes]}')
        out[k] = len(d)
    return out


def valid(sel, sizes, last, quota):
    """is this a selection that the rules allow?"""
    if sum(sizes[k] for k in sel) > quota:
        return 'more than the quota'
    rank = {k: (-abs(sizes[k] - last.get(k, (0, 0))[0]), last.get(k, (0, 0))[1]) for k in sizes}

    def blocker(u):
        return sizes[u] <= quota and sizes[u] + sum(sizes[s] for s in sel if rank[s] <= rank[u]) > quota
    for u in sizes:
        if u in sel or sizes[u] > quota:
            continue
        if not any(blocker(x) for x in sizes if x not in sel and rank[x] <= rank[u]):
            return f'{u} should have been taken'
    return None


class Model:
    """what is known: the possible notes of size and time per silo"""

    def __init__(self):
        self.poss = [{}]


def after(w, b, m, r, what, key, must):
    """judge a run; must: it has to succeed"""
    st = b.staged()
    if r.end != 'ok':
        w.bad(key + 'hang', f'{what}: {r.end}')
        return False
    q = r[0]
    if must and not q.ok():
        w.bad(key + 'fails', f'{what}: ends with {q.status()} {q.err[-300:]!r}')
        return False
    for k in b.sizes:
        with open(f'{b.dir}/s/{NAMES[k]}', 'rb') as f:
            if f.read() != body(k, b.sizes[k]):
                w.bad(key + 'silo', f'{what}: silo {k} has changed')
                return False
    old = getattr(b, 'before', None)
    if st is None:
        if q.ok() or old is None:
            if q.ok():
                w.bad(key + 'no-staging', f'{what}: ends with 0 and no staging directory')
                return False
        return True
    if old is not None and st == old[0] and not q.ok():
        # nothing new is seen: nothing counts as staged, except when the same has been staged again
        try:
            sel = judge_files(b, st, [b.sizes])
        except ValueError:
            return True
        if valid(sel, b.sizes, m.poss[0], b.quota) is None:
            new = [dict(p, **{k: (n, b.now) for k, n in sel.items()}) for p in m.poss]
            m.poss += [x for x in new if x not in m.poss]
        return True
    try:
        sel = judge_files(b, st, [b.sizes])
    except ValueError as e:
        w.bad(key + 'files', f'{what}: {q.status()}, {e}')
        return False
    new = []
    why = set()
    for p in m.poss:
        x = valid(sel, b.sizes, p, b.quota)
        if x is None:
            new.append(dict(p, **{k: (n, b.now) for k, n in sel.items()}))
            if not q.ok():
                new.append(p)
        else:
            why.add(x)
    if not new:
        w.bad(key + 'selection', f'{what}: of {b.sizes}, quota {b.quota}, last staged {m.poss[:2]}, {sorted(sel)} are staged: {sorted(why)[:2]}')
        return False
    m.poss = new
    if q.ok():
        left = [x for x in os.listdir(b.dir) if x not in ('s', 'st', 'cwd')]
        if left and must:
            w.bad(key + 'left', f'{what}: leaves {left}')
            return False
    return True


def settle(w, b, m, what, key):
    """as many runs as there are silos: all are staged"""
    seen = set()
    for i in range(len(b.sizes)):
        b.before = None
        r = b.run()
        w.count('evaluations')
        if not after(w, b, m, r, f'{what}, then run {i + 1} more', key, True):
            return
        seen |= {LETTER[n[:-4]] for n in b.staged() if n.endswith('.bin')}
    miss = [k for k in b.sizes if k not in seen and b.sizes[k] <= b.quota]
    if miss:
        w.bad(key + 'starved', f'{what}: {miss} of {b.sizes} are not staged in {len(b.sizes)} runs, quota {b.quota}')


def play(w, b, case):
    """runs a history; -> model or None"""
    b.put({})
    m = Model()
    b.before = None
    sizes = {}
    for i, op in enumerate(case['ops']):
        k = op[0]
        if k == 'set':
            sizes = {a: n for a, n in dict(sizes, **op[1]).items() if n is not None}
            b.change(sizes)
            continue
        b.before = (b.staged(),)
        fs = op[1:] if k == 'fault' else ()
        r = b.run(fs)
        w.count('evaluations')
        if not after(w, b, m, r, f'{case["ops"][:i + 1]}', 'fault-' if fs else '', not fs):
            return None
    return m


@family
def c25_hist(w, case):
    b = B(w, case['quota'])
    m = play(w, b, case)
    if m is None:
        return
    w.seen('distinct', mrun.snapshot(b.dir).canon() if case['ops'] else '')
    settle(w, b, m, str(case['ops']), '')


@family
def c25_plan(w, case):
    b = B(w, case['quota'])
    if play(w, b, case) is None:
        return None
    snap = mrun.snapshot(b.dir)
    r = b.run(trace=2)
    out = [list(f) for f in faults.crashes(r.trace, snap, b.dir)]
    errs = [list(f) for f in faults.errors(r.trace, snap, b.dir, only=lambda s: s.p1.startswith(b.dir))]
    if case.get('few'):        # to Python all errors are much the same
        one = {(f[0], f[1]): f for f in reversed(errs)}
        errs = [f for f in errs if f[1] == 'short' or f is one[f[0], f[1]]]
    return out + errs


@family
def c25_refuse(w, case):
    """a run that cannot work ends in an error, and leaves what is staged alone"""
    b = B(w, 1000)
    m = play(w, b, dict(ops=START + [['run']]))
    if m is None:
        return
    before = b.staged()
    sec, extra = b.dir + '/cwd/secrets.txt', []
    k = case['k']
    if k == 'silodir':
        os.rename(b.dir + '/s', b.dir + '/cwd/s')
    elif k.startswith('secret:'):
        with open(sec, 'w') as f:
            f.write(k[7:])
    elif k == 'nosecret':
        os.unlink(sec)
    elif k.startswith('quota:'):
        b.quota = k[6:]
    elif k == 'isfile':
        os.unlink(f'{b.dir}/s/{NAMES["A"]}')
        os.symlink('nowhere', f'{b.dir}/s/{NAMES["A"]}')
    r = b.run()
    w.count('evaluations')
    w.seen('distinct', k)
    if k.startswith('quota:') and k[6:] in ('', '10240'):
        # the default is more than enough
        if not r[0].ok() or set(judge_files(b, b.staged(), [b.sizes])) != set(b.sizes):
            w.bad('quota', f'{k}: {r[0].status()}, {sorted(b.staged())}')
        return
    if r[0].ok() or r[0].kind != 'exit':
        w.bad('accepted', f'{k}: {r[0].status()}')
    if b.staged() != before:
        w.bad('replaced', f'{k}: {r[0].status()}, and the staging directory is replaced by {sorted(b.staged() or ())}')
    if k == 'silodir':
        os.rename(b.dir + '/cwd/s', b.dir + '/s')
    elif 'secret' in k:
        with open(sec, 'w') as f:
            f.write(PKEY + '\n' + SKEY + '\n')
    elif k == 'isfile':
        os.unlink(f'{b.dir}/s/{NAMES["A"]}')
        b.sizes.pop('A')
    b.quota = 1000
    settle(w, b, m, k, 'after-')


@family
def c25_fault(w, case):
    b = B(w, case['quota'])
    m = play(w, b, case)
    if m is None:
        return
    w.seen('distinct', mrun.snapshot(b.dir).canon())
    settle(w, b, m, str(case['ops']), 'after-')


START = [['set', {'A': 300, 'B': 500}]]
ALPHA = [['run'], ['set', {'A': 700}], ['set', {'B': 600}], ['set', {'C': 200}], ['set', {'A': None}], ['set', {'B': 100}], ['set', {'C': 1100}]]


def histories(depth):
    """up to a depth, without steps that change nothing or could be exchanged"""
    out, level = [], [([], ())]
    for d in range(depth):
        nxt = []
        for ops, _ in level:
            for o in ALPHA:
                if ops and ops[-1][0] == 'set' and o[0] == 'set' and str(o) <= str(ops[-1]):
                    continue
                nxt.append((ops + [o], ()))
        out += [o for o, _ in nxt]
        level = nxt
    return out


def check(ctx):
    hs = [START + h for h in histories(ctx.n(4, 5))]
    # what ends in a change is settled by its runs; histories which do not run are all alike
    ctx.explore(c25_hist, [dict(ops=h, quota=q) for h in hs for q in ((1000,) if len(h) > ctx.n(4, 5) else (1000, 550, 10000))])
    ctx.bound(f'{len(hs)} histories')
    ctx.explore(c25_refuse, [dict(k=k) for k in ('silodir', 'nosecret', 'isfile', 'quota:x', 'quota:1k', 'quota:', 'quota:10240', 'secret:', 'secret:' + PKEY, f'secret:{PKEY} {SKEY} x', f'secret:{PKEY[1:]} {SKEY}', f'secret:{PKEY} {SKEY[1:]}', f'secret:{SKEY} {PKEY}', f'secret:{PKEY[:-1]}x {SKEY}')])
    sizes = [0, 1, 15, 16, 17, 4095, 8191, 8192, 65535, 65536, 65537, 70000, 131072, 131073] + ([] if ctx.quick else [1 << 20, 262145])
    ctx.explore(c25_hist, [dict(ops=[['set', {'A': n, 'B': 40}], ['run']], quota=q) for n in sizes for q in (n, n + 39, n + 40, 1 << 30) if q])
    bases = [START, START + [['run']], START + [['run'], ['set', {'C': 200, 'A': 700}]], START + [['run'], ['set', {'A': 700}], ['run'], ['set', {'B': 600}]], [['set', {'A': 70000, 'B': 9000}]]]
    todo = []
    for c, plan in ctx.explore(c25_plan, [dict(ops=b, few=int(ctx.quick), quota=1000 if b[0][1]['A'] < 1000 else 100000) for b in bases]):
        for f in plan or ():
            todo.append(dict(c, ops=c['ops'] + [['fault', f]]))
    ctx.explore(c25_fault, todo)
    ctx.bound(f'{len(todo)} faults')
    if not ctx.quick:
        # a second fault in the run after
        ctx.explore(c25_fault, [dict(c, ops=c['ops'] + [['fault', g]]) for c in todo if c['ops'][-1][1][1] in ('crash', 'torn') for g in [x['ops'][-1][1] for x in todo if x['ops'][:-1] == c['ops'][:-1] and x['ops'][-1][1][1] == 'crash']])
