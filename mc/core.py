"""What every check shares: workers, violations, evidence, known findings."""
import ctypes, hashlib, json, os, pickle, signal, sys, time, traceback, shutil
from multiprocessing import connection
from . import build, run
from .run import Server, Arch, Proc

VERIF = build.VERIF
FAMILIES = {}


def family(f):
    FAMILIES[f.__name__] = f
    return f


class Worker:
    """What a family function gets: a server, scratch archives and a place for results"""

    def __init__(self, slow=1):
        self.srv = Server()
        self._arch = {}
        self._srv2 = {}
        self.slow = slow          # time limits are multiplied by this on confirmation
        self.clear()

    def clear(self):
        self.bads, self.counts, self.sets, self.samples = [], {}, {}, []
        self.case = None
        self.fam = None

    def server(self, kind):
        if kind == 'plain':
            return self.srv
        if kind not in self._srv2:
            self._srv2[kind] = Server(exe=build.aardwarc(kind))
        return self._srv2[kind]

    def arch(self, tag='a', **kw):
        """A scratch archive with this configuration, emptied"""
        k = (tag, tuple(sorted(kw.items())))
        if k not in self._arch:
            self._arch[k] = Arch(self.srv, tag, **kw)
        a = self._arch[k]
        a.reset()
        return a

    def dir(self, tag='d'):
        if ('dir', tag) not in self._arch:
            self._arch[('dir', tag)] = run.scratch(tag)
        d = self._arch[('dir', tag)]
        for n in os.listdir(d):
            p = os.path.join(d, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        return d

    def bad(self, key, msg, case=None, fam=None):
        c = strip(case if case is not None else self.case)
        self.bads.append((fam or self.fam, c, key, msg[:1500]))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, k, v):
        if not isinstance(v, bytes):
            v = repr(v).encode()
        if len(v) > 16:
            v = hashlib.sha256(v).digest()[:12]
        self.sets.setdefault(k, set()).add(v)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:400])

    def close(self):
        self.srv.close()
        for s in self._srv2.values():
            s.close()


_w = None


def _init():
    global _w
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    run._cleanup.clear()
    _w = Worker()


def _one(w, fam, case):
    w.clear()
    w.fam, w.case = fam, case
    ret = None
    if w.srv.p is None:
        w.srv._start()
    err = None
    r0, s0 = w.srv.runs, w.srv.steps
    try:
        ret = FAMILIES[fam](w, case)
    except (run.ServerError, OSError, MemoryError):
        err = traceback.format_exc()
    except Exception as e:
        # the oracle could not make sense of what the program did
        tb = traceback.extract_tb(e.__traceback__)[-1]
        w.bad(f'unreadable:{type(e).__name__}', f'the oracle cannot interpret the outcome: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
    w.count('executions', w.srv.runs - r0)
    w.count('steps', w.srv.steps - s0)
    return (fam, strip(case), ret, w.bads, w.counts, w.sets, w.samples, err)


def _task(t):
    return [_one(_w, t[0], c) for c in t[1]]


class CheckError(Exception):
    pass


def adopt():
    """what the workers leave running when they are ended becomes ours"""
    ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)


class Pool:
    """Worker processes, each with a pipe of its own: one that is ended while it answers harms no other"""

    def __init__(self, n):
        self.n = n
        self.ws = {}            # our end of its pipe -> (pid, tasks it has, with how often each was lost)

    def _more(self):
        ours, theirs = connection.Pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid:
            theirs.close()
            self.ws[ours] = (pid, [])
            return
        try:
            ctypes.CDLL(None).prctl(1, signal.SIGKILL, 0, 0, 0)
            for c in self.ws:
                c.close()
            ours.close()
            os.dup2(os.open('/dev/null', os.O_RDONLY), 0)
            _init()
            while True:
                theirs.send(_task(theirs.recv()))
        except BaseException as e:
            if not isinstance(e, (EOFError, OSError)):
                traceback.print_exc()
        finally:
            os._exit(1)

    def run(self, tasks, deadline):
        """yields the results of the tasks, None when the time is up"""
        todo = [(t, 0) for t in reversed(tasks)]
        left = len(todo)
        while left:
            while len(self.ws) < self.n:
                self._more()
            for c, (_, has) in self.ws.items():
                while todo and len(has) < 2 and not (has and len(todo) < 2 * self.n):
                    b = pickle.dumps(todo[-1][0])
                    if has and len(b) > 20000:
                        # it may be busy sending an answer, which we would not read before this is sent
                        break
                    has.append(todo.pop())
                    try:
                        c.send_bytes(b)
                    except OSError:
                        break
            ready = connection.wait(list(self.ws), max(deadline - time.time(), 0.1))
            for c in ready:
                pid, has = self.ws[c]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    # this worker was ended; what it had is done by others, but not again and again
                    del self.ws[c]
                    c.close()
                    os.waitpid(pid, 0)
                    for (t, lost) in reversed(has):
                        if lost < 2 or t is not has[0][0]:
                            todo.append((t, lost + (t is has[0][0])))
                        else:
                            left -= 1
                            yield [(t[0], strip(k), None, [], {}, {}, [], 'the worker was ended three times') for k in t[1]]
                    continue
                has.pop(0)
                left -= 1
                yield r
            if left and time.time() >= deadline:
                yield None
                return

    def end(self):
        for c, (pid, _) in self.ws.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            c.close()
        self.ws = {}


def sweep():
    """end all our children and theirs; to be called when no worker runs"""
    for _ in range(200):
        left = []
        for p in os.listdir('/proc'):
            if p.isdigit():
                try:
                    with open(f'/proc/{p}/stat') as f:
                        t = f.read().rpartition(')')[2].split()
                except OSError:
                    continue
                if int(t[1]) == os.getpid():
                    left.append(int(p))
        if not left:
            return
        for p in left:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except (ProcessLookupError, ChildProcessError, PermissionError):
                pass


class Ctx:
    def __init__(self, pid, tier, seed, budget=None):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.deadline = self.t0 + (budget or (600 if self.quick else 6 * 3600))
        self.counts, self.sets, self.samples, self.bads = {}, {}, [], []
        self.bounds = []
        self.capped = []
        self.errors = []
        base = run.SHM
        self.scratch = os.path.join(base, 'mcv.%d' % os.getpid())
        os.makedirs(self.scratch, exist_ok=True)
        os.environ['MC_SCRATCH'] = self.scratch
        adopt()
        # build before forking, so that a build failure is seen once
        build.tool('mcrun')
        build.aardwarc()
        self.pool = None
        self.also = []
        self.famtime = {}

    def _pool(self):
        if self.pool is None:
            self.pool = Pool(int(os.environ.get('MC_JOBS', '8')))
        return self.pool

    def end_pool(self):
        if self.pool:
            self.pool.end()
            self.pool = None
            sweep()

    def n(self, q, t):
        return q if self.quick else t

    def bound(self, s):
        self.bounds.append(s)

    def stop(self):
        """so many distinct violations that there is no point in going on"""
        return len(self.bads) >= 40

    def beside(self, fam, cases):
        """long cases, to be run along with those of the next explore()"""
        self.also += [(fam.__name__, [c]) for c in cases]

    def explore(self, fam, cases, chunk=1):
        """Run a family over all cases; returns the (case, return value) pairs"""
        t0 = time.time()
        fam = fam.__name__ if callable(fam) else fam
        out = []
        cases = list(cases)
        tasks = self.also + [(fam, cases[i:i + chunk]) for i in range(0, len(cases), chunk)]
        self.also = []
        done, want = 0, sum(len(l) for _, l in tasks)
        for rs in self._pool().run(tasks, self.deadline):
            if rs is None:
                self.capped.append(f'{fam}: time limit after {done} of {want} cases')
                self.end_pool()
                break
            for r in rs:
                done += 1
                if r[0] == fam:
                    out.append((r[1], r[2]))
                self.take(r)
            if len(self.bads) >= 40 and done < want:
                # enough to report; do not spend minutes on more of the same
                self.capped.append(f'{fam}: {len(self.bads)} violations after {done} of {want} cases')
                self.end_pool()
                break
        if os.environ.get('MC_TIMES'):
            print(f'  {fam}: {len(cases)} cases {time.time() - t0:.1f}s', file=sys.stderr, flush=True)
        self.famtime[fam] = round(self.famtime.get(fam, 0) + time.time() - t0, 1)
        return out

    def take(self, r):
        fam, case, ret, bads, counts, sets, samples, err = r
        self.bads += bads
        for k, v in counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in sets.items():
            self.sets.setdefault(k, set()).update(v)
        for s in samples:
            if len(self.samples) < 12:
                self.samples.append(f'{fam}: {s}')
        if err:
            self.errors.append((fam, case, err))

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def seen(self, k, v):
        if not isinstance(v, bytes):
            v = repr(v).encode()
        self.sets.setdefault(k, set()).add(v)

    def close(self):
        self.end_pool()
        sweep()
        shutil.rmtree(self.scratch, ignore_errors=True)


def known():
    """known findings: {(property, key): text}"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: '):
                f = l[7:].strip().split(' ', 2)
                if len(f) == 3 and f[0].startswith('property=') and f[1].startswith('key='):
                    out[(f[0][9:], f[1][4:])] = f[2]
    return out


def strip(c):
    """a case without its working data (keys that start with an underscore)"""
    if isinstance(c, dict):
        return {k: strip(v) for k, v in c.items() if not (isinstance(k, str) and k.startswith('_'))}
    if isinstance(c, (list, tuple)):
        return [strip(x) for x in c]
    return c


def case_json(c):
    c = strip(c)
    return json.dumps(c, sort_keys=True, default=lambda o: {'__hex__': o.hex()} if isinstance(o, (bytes, bytearray)) else list(o))


def case_unjson(s):
    def h(d):
        return bytes.fromhex(d['__hex__']) if set(d) == {'__hex__'} else d
    return json.loads(s, object_hook=h)


def confirm(fam, case, key):
    """Run a failing case again, alone and with more time; the messages if it fails again"""
    c = case_unjson(case_json(case))
    w = Worker(slow=4)
    try:
        r = _one(w, fam, c)
    finally:
        w.close()
    return [b for b in r[3] if b[2] == key], r[7]


def run_check(mod, pid, tier, seed):
    ctx = None
    level = getattr(mod, 'LEVEL', 'model_checking')
    try:
        ctx = Ctx(pid, tier, seed)
        mod.check(ctx)
    except build.BuildError as e:
        print('cannot build /repo:\n' + str(e))
        if ctx:
            ctx.close()
        return 3
    rc = 0
    try:
        ctx.end_pool()
        kn = known()
        groups = {}
        for fam, case, key, msg in ctx.bads:
            groups.setdefault(key, []).append((fam, case, msg))
        nviol, unconfirmed = 0, []
        tconf = time.time()
        for key in sorted(groups):
            if (pid, key) in kn:
                print(f'KNOWN-FINDING: property={pid} {kn[(pid, key)]}')
                continue
            if nviol >= 5 or (nviol and time.time() - tconf > 60):
                break
            ok = None
            tried = sorted(groups[key], key=lambda t: len(case_json(t[1])))[:3]
            for fam, case, msg in tried:
                again, err = confirm(fam, case, key)
                if again:
                    ok = (fam, case, again[0][3])
                    break
            if ok is None:
                unconfirmed.append((key, tried[0][2]))
                continue
            fam, case, msg = ok
            nviol += 1
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            body = json.dumps({'property': pid, 'family': fam, 'key': key, 'message': msg,
                               'case': json.loads(case_json(case))}, indent=1)
            path = os.path.join(d, f'{pid}-{hashlib.sha256(body.encode()).hexdigest()[:10]}.json')
            with open(path, 'w') as f:
                f.write(body + '\n')
            print(f'VIOLATION property={pid} replay={path}')
            print(f'  {key}: {msg}')
        if ctx.errors:
            fam, case, err = ctx.errors[0]
            print(f'{len(ctx.errors)} cases could not be run; first: {fam} {case_json(case)[:300]}\n{err}')
        for k, m in unconfirmed:
            print(f'not reproduced, not reported: {k}: {m[:300]}')
        rc = 1 if nviol else (2 if ctx.errors else 0)
        write_evidence(ctx, pid, tier, seed, level, nviol, unconfirmed, mod)
        cov = {k: v for k, v in sorted(ctx.counts.items())}
        print(f'{pid} {tier}: {time.time() - ctx.t0:.1f}s {cov} distinct={ {k: len(v) for k, v in ctx.sets.items()} }'
              + (f' CAPPED {ctx.capped}' if ctx.capped else ''))
        if os.environ.get('MC_TIMES'):
            print(ctx.famtime)
    finally:
        ctx.close()
    return rc


def write_evidence(ctx, pid, tier, seed, level, nviol, unconfirmed, mod):
    c = dict(ctx.counts)
    sets = {k: len(v) for k, v in ctx.sets.items()}
    cov = {}
    if level == 'model_checking':
        cov['states'] = sets.get('states', 0)
        cov['transitions'] = c.get('transitions', 0)
        cov['traces_validated_against_impl'] = c.get('traces', 0)
    elif level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = c.get('evaluations', 0)
        cov['distinct_nontrivial'] = sets.get('distinct', 0)
        cov['rule'] = getattr(mod, 'RULE', '')
    cov['samples'] = ctx.samples[:12]
    cov['executions_of_the_program'] = c.get('executions', 0)
    cov['system_call_steps_controlled'] = c.get('steps', 0)
    for k, v in c.items():
        if k not in ('executions', 'steps', 'transitions', 'traces', 'evaluations'):
            cov['n_' + k] = v
    for k, v in sets.items():
        if k not in ('states', 'distinct'):
            cov['distinct_' + k] = v
    cov['bounds'] = ctx.bounds
    if ctx.capped:
        cov['capped'] = ctx.capped
    if unconfirmed:
        cov['unconfirmed'] = [k for k, _ in unconfirmed]
    cov['exhaustive'] = not ctx.capped and not ctx.errors
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - ctx.t0, 2),
          'violations': nviol}
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
