"""All interleavings of several real processes, up to a number of preemptions.

A process is preempted only before a system call on an object that another
process also uses, one of them changing it (a call that conflicts with nothing
commutes with what the others do, so preempting before it gives no new
outcome).  Which objects those are is learned from the runs themselves, and
the exploration is repeated until nothing new is learned.  When the running
process blocks or ends, every other one that can run is tried.
"""
import os
from . import core, warc


DATA = {'read', 'write', 'pread', 'pwrite', 'readv', 'writev', 'preadv', 'pwritev', 'lseek', 'fstat', 'ftruncate', 'truncate', 'mmap', 'fallocate', 'sendfile', 'copy_file_range', 'fsync', 'fdatasync', 'fchmod'}
NONE = {'start', 'exit', 'wait4', 'poll', 'ppoll', 'select', 'pselect6', 'sched_yield', 'nanosleep', 'clock_nanosleep'}


def name(p):
    if p.endswith(' (deleted)'):
        p = p[:-10]
    b = os.path.basename(p)
    return p[:-len(b)] + 'index.tmp' if b.startswith('index.tmp.') else p


def annotate(trace):
    """for every step the objects it is about: [(object, changes it)]

    Names and contents are objects of their own.  What is written into a hold
    or temporary file is private to its writer until the file gets its final
    name, and from then on is the contents of that file.
    """
    alias = {'/index.housekeep': '/index.appendix'}
    locked = {name(s.p1) for s in trace if s.cls == 'L'}
    out = []

    gen = {}

    def data(p):
        q = alias.get(p, p)
        return f'{q}#{gen.get(q, 0)}'
    for s in trace:
        o = []
        if s.sc.startswith('open') and s.len & 0o300 == 0o300:
            # O_CREAT | O_EXCL: another file, whatever had this name before
            p = name(s.p1)
            alias.pop(p, None)
            gen[p] = gen.get(p, 0) + 1
        if s.sc not in NONE:
            ps = [name(p) for p in (s.p1, s.p2) if p and not p.startswith('/memfd:')]
            wr = s.cls in 'WL'
            if s.sc == 'close':
                o = [(data(p), True) for p in ps if p in locked]
            elif ps and ps[0].startswith('pipe:'):
                o = [(ps[0], True)]
            elif s.sc in DATA or s.sc == 'flock' or s.sc == 'fcntl':
                o = [(data(p), wr) for p in ps]
            else:
                for i, p in enumerate(ps):
                    # link() does not change the name it links from
                    o.append((p, wr and not (s.sc.startswith('link') and i == 0 and len(ps) == 2)))
                    o.append((os.path.dirname(p), False))
                    if s.sc not in ('unlink', 'unlinkat', 'link', 'linkat', 'rename', 'renameat', 'renameat2', 'mkdir', 'mkdirat'):
                        # stat shows what it contains, O_TRUNC (and creating) changes it, chmod too
                        o.append((data(p), wr and (s.cls != 'W' or bool(s.len & 0o1100) or not s.sc.startswith('open'))))
                if len(ps) == 2 and (s.sc.startswith('link') or s.sc.startswith('rename')):
                    alias[ps[0]] = alias.get(ps[1], ps[1])
        out.append(o)
    return out


def plain(o):
    return o.rpartition('#')[0] + '#' if '#' in o else o


def learn(trace, acc):
    """acc: the objects that two processes have used in one run, one of them changing it"""
    use = {}
    for s, os_ in zip(trace, annotate(trace)):
        for o, wr in os_:
            d = use.setdefault(o, {})
            d[s.proc] = d.get(s.proc, False) or wr
    acc |= {plain(o) for o, d in use.items() if len(d) > 1 and any(d.values())}
    return acc


def children(trace, prefix, left, sh):
    """schedules that differ from this run at one later place: (prefix, preemptions left)"""
    last = prefix[-1][0] if prefix else -1
    an = annotate(trace)
    out = []
    for i, s in enumerate(trace):
        if s.n <= last:
            continue
        others = [q for q in range(32) if s.mask >> q & 1 and q != s.proc]
        if not others:
            continue
        prev = trace[i - 1].proc if i else None
        if prev is None or not s.mask >> prev & 1:
            free = True         # the one that ran cannot go on: any other may
        elif prev != s.proc:
            free = False        # cannot be: without a prefix entry the running process goes on
            continue
        else:
            free = False
        if free:
            out += [(prefix + [(s.n, q)], left) for q in others]
        elif left > 0 and any(plain(o) in sh for o, _ in an[i]):
            out += [(prefix + [(s.n, q)], left - 1) for q in others]
    return out


class Scenario:
    """name, base world maker, procs maker, oracle(w, sc, a, res, snap, what)"""

    def __init__(self, name, prepare, procs, oracle, conf=None, pipes=0):
        self.name, self.prepare, self.procs, self.oracle, self.pipes = name, prepare, procs, oracle, pipes


SCN = {}


def scenario(name, *a, **kw):
    SCN[name] = Scenario(name, *a, **kw)
    return SCN[name]


_base = {}


def _setup(w, name):
    """per worker: the prepared archive and its snapshot"""
    if getattr(w, '_sc', None) != name:
        w._sc = name
        w._sc_ctx = SCN[name].prepare(w)      # (arch, snap, anything)
        w._sc_seen = {}
    return w._sc_ctx


def one(w, name, prefix):
    sc = SCN[name]
    c = _setup(w, name)
    a, snap = c[0], c[1]
    a.restore(snap)
    res = a.run(sc.procs(a, c), trace=2, sched=prefix, pipes=sc.pipes, timeout=30000, maxsteps=20000)
    for s in res.trace:         # as seen from the archive, the same in every worker
        if s.p1.startswith(a.silo):
            s.p1 = s.p1[len(a.silo):]
        if s.p2.startswith(a.silo):
            s.p2 = s.p2[len(a.silo):]
    return c, a, res


def judge(w, name, c, a, res, prefix):
    sc = SCN[name]
    what = f'{name}, schedule {prefix}'
    w.count('evaluations')
    if res.end != 'ok':
        if res.end.startswith('schedule:'):
            w.bad('nondeterministic', f'{what}: {res.end}', case={'name': name, 'prefix': prefix}, fam='sched_one')
        else:
            w.bad('stuck', f'{what}: {res.end}: {[p.status() for p in res.procs]}', case={'name': name, 'prefix': prefix}, fam='sched_one')
        return
    snap = a.snap()
    k = (snap.canon(), tuple((p.kind, p.code, p.out) for p in res.procs))
    w.seen('distinct', (name, k))
    if k in w._sc_seen:
        n0 = w._sc_seen[k]
        if not n0:
            return
    nb = len(w.bads)
    f, cs = w.fam, w.case
    w.fam, w.case = 'sched_one', {'name': name, 'prefix': prefix}
    sc.oracle(w, c, a, res, snap, what)
    w.fam, w.case = f, cs
    w._sc_seen[k] = len(w.bads) - nb


@core.family
def sched_one(w, case):
    """one schedule (replay)"""
    prefix = [tuple(x) for x in case['prefix']]
    w._sc = None
    c, a, res = one(w, case['name'], prefix)
    judge(w, case['name'], c, a, res, prefix)


@core.family
def sched_learn(w, case):
    """the processes one after the other, in the order given"""
    name, order = case['name'], case['order']
    c, a, res = one(w, name, [])
    acc = learn(res.trace, set())
    # same, in another order: switch at the start
    for first in order[1:]:
        c, a, res = one(w, name, [(0, first)])
        learn(res.trace, acc)
    return acc


@core.family
def sched_tree(w, case):
    """every schedule that starts with a prefix"""
    name = case['name']
    sh = set(case['_sh'] if '_sh' in case else case['sh'])
    stack = [([tuple(x) for x in case['prefix']], case['left'])]
    acc = set()
    n = 0
    kids = []
    while stack:
        prefix, left = stack.pop()
        c, a, res = one(w, name, prefix)
        judge(w, name, c, a, res, prefix)
        learn(res.trace, acc)
        n += 1
        ch = children(res.trace, prefix, left, sh)
        if case.get('root') or n > 400:
            kids += ch       # hand out the work
        else:
            stack += ch
        if len(w.bads) > 20:
            break
    return {'acc': acc, 'kids': kids}


def explore(ctx, name, preempt, nproc):
    """every schedule of the scenario with at most preempt preemptions"""
    acc = set()
    t0 = ctx.famtime.get('sched_tree', 0)
    for _, r in ctx.explore('sched_learn', [{'name': name, 'order': list(range(nproc))}]):
        acc |= r or set()
    rounds = 0
    total0 = ctx.counts.get('evaluations', 0)
    while True:
        rounds += 1
        sh = sorted(acc)
        todo = [{'name': name, 'prefix': [], 'left': preempt, 'root': 1, '_sh': sh, 'nshared': len(sh)}]
        first = True
        while todo and not ctx.stop():
            res = ctx.explore('sched_tree', todo)
            todo = []
            for c, r in res:
                if r is None:
                    continue
                acc |= r['acc']
                todo += [{'name': name, 'prefix': [list(x) for x in p], 'left': l, '_sh': sh, 'nshared': len(sh)} for p, l in r['kids']]
            if acc - set(sh):
                break
        if ctx.stop() or not acc - set(sh) or rounds > 6:
            break
    n = ctx.counts.get('evaluations', 0) - total0
    if os.environ.get('MC_TIMES'):
        print(name, n, sh, round(ctx.famtime.get('sched_tree', 0) - t0, 1))
    ctx.bound(f'{name}: {n} schedules with up to {preempt} preemptions, at calls on {len(sh)} shared objects ({rounds} rounds)')
