"""Breadth-first exploration of operation histories on the real program.

A world is the archive directory (byte for byte, with modes and hard links),
the configuration in force, and the reference model: what has been
acknowledged.  A transition runs one operation of the real program on a
restored world.  Worlds are merged when directory, configuration and model
are equal, in which case every future is equal too.
"""
import os, stat
from . import run, warc, core
from .gen import gen, sha
from .run import Snap


class O(dict):
    """what is known about a stored object; 'content' comes from its spec"""

    def __missing__(self, k):
        if k == 'content':
            return gen(self['spec'])
        raise KeyError(k)


class World:
    __slots__ = ('snap', 'objs', 'conf', 'path')

    def __init__(self, snap=None, objs=None, conf=0, path=()):
        self.snap, self.objs, self.conf, self.path = snap or Snap(), objs or {}, conf, list(path)

    def key(self):
        return self.snap.canon() + repr((self.conf, sorted((k, v['type'], v['spec'], v.get('ref')) for k, v in self.objs.items()))).encode()


def res_id(content, n=32):
    return sha(content)[:n]


def meta_id(refuri, content, n=32):
    """refuri as it stands in WARC-Refers-To, with its angle brackets"""
    return sha((refuri + '\n' + sha(content) + '\n').encode())[:n]


class Hist:
    """confs: list of configuration keyword dicts; step/state: oracles"""

    def __init__(self, name, confs=({},), step=None, state=None, kind='plain'):
        self.name, self.confs, self.step, self.state = name, list(confs), step, state
        self.kind = kind

        def fam_step(w, case):
            return self._fam_step(w, case)

        def fam_state(w, case):
            return self._fam_state(w, case)
        fam_step.__name__ = name + '_step'
        fam_state.__name__ = name + '_state'
        core.family(fam_step)
        core.family(fam_state)

    # ------------------------------------------------------------- running
    def arch(self, w, conf):
        kw = self.confs[conf]
        return w.arch(self.name, **kw)

    def expect(self, a, world, op):
        """(rid, type, content, ref) the operation should acknowledge, or None"""
        if op[0] in ('store', 'storef'):
            c = gen(op[1])
            return res_id(c, a.id_len), 'resource', c, None
        if op[0] == 'meta':
            ref = '<' + a.prefix + self.refid(a, op[1]) + '>'
            c = gen(op[2])
            return meta_id(ref, c, a.id_len), 'metadata', c, ref
        if op[0] == 'metai':
            ref = '<' + a.prefix + self.refid(a, op[1]) + '>'
            return op[3][-a.id_len:], 'metadata', gen(op[2]), ref
        return None

    def proc(self, a, op, **kw):
        """the program run for an operation (not for those done to the files)"""
        k = op[0]
        if k == 'store':
            return a.proc('store', *op[2:], stdin=gen(op[1]), **kw)
        if k == 'storef':
            with open(a.dir + '/in', 'wb') as f:
                f.write(gen(op[1]))
            return a.proc('store', *op[2:], a.dir + '/in', **kw)
        if k == 'meta':
            return a.proc('store', '-t', 'metadata', '-m', 'text/plain', '-r', a.prefix + self.refid(a, op[1]), stdin=gen(op[2]), **kw)
        if k == 'metai':
            return a.proc('store', '-t', 'metadata', '-m', 'text/plain', '-r', a.prefix + self.refid(a, op[1]), '-i', op[3], stdin=gen(op[2]), **kw)
        if k == 'hk':
            return a.proc('housekeeping', **kw)
        if k == 'run':
            return a.proc(*op[1:], **kw)
        if k == 'get':
            return a.proc('get', *op[2:], a.prefix + self.refid(a, op[1]), **kw)
        raise ValueError(op)

    def refid(self, a, spec):
        return spec[1:] if spec[0] == '=' else res_id(gen(spec), a.id_len)

    def apply(self, w, world, op):
        """-> (new world, result or None)"""
        k = op[0]
        n = World(None, dict(world.objs), world.conf, world.path + [op])
        if k == 'conf':
            n.conf = op[1]
            n.snap = world.snap
            return n, None
        a = self.arch(w, world.conf)
        a.restore(world.snap)
        r = None
        if k in ('store', 'storef', 'meta', 'metai', 'hk', 'run', 'get'):
            r = a.run([self.proc(a, op)])[0]
        elif k == 'ro':
            p = os.path.join(a.silo, warc.silo_path(op[1]))
            if os.path.exists(p):
                os.chmod(p, 0o440)
        elif k == 'rm':
            p = os.path.join(a.silo, op[1])
            if os.path.exists(p):
                os.unlink(p)
        elif k == 'mv':
            p, q = os.path.join(a.silo, op[1]), os.path.join(a.silo, op[2])
            if os.path.exists(p) and not os.path.exists(q):
                os.rename(p, q)
        elif k == 'touch':
            p = os.path.join(a.silo, op[1])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'ab') as f:
                f.write(bytes.fromhex(op[2]) if len(op) > 2 else b'')
        elif k == 'old':
            # as if a program from before WARC 1.1 had written the silos, or some of their records
            v = warc.View(world.snap, a)
            for no in v.silos:
                p = os.path.join(a.silo, warc.silo_path(no))
                d = warc.old(world.snap.files[warc.silo_path(no)][2], no, a.prefix, a.id_len, *op[1:])
                with open(p, 'wb') as f:
                    f.write(d)
            for f in world.snap.files:
                if f.startswith('index.'):
                    os.unlink(os.path.join(a.silo, f))
            with open(a.silo + '/index.appendix', 'wb') as f:
                f.write(b''.join(warc.enc_rec(*e) for e in sorted(warc.View(a.snap(), a).expected_index())))
        elif k == 'put':
            p = os.path.join(a.silo, op[1])
            with open(p, 'wb') as f:
                f.write(bytes.fromhex(op[2]))
        else:
            raise ValueError(op)
        n.snap = a.snap()
        e = self.expect(a, world, op)
        if e and r is not None and r.ok() and e[0] not in n.objs:
            n.objs[e[0]] = O(type=e[1], spec=op[2] if op[0] in ('meta', 'metai') else op[1], ref=e[3])
        return n, r

    def build(self, w, ops):
        world = World()
        for op in ops:
            world, _ = self.apply(w, world, op)
        return world

    def get_world(self, w, case):
        wd = case.get('_world')
        if wd is None:
            wd = self.build(w, case['ops'][:-1] if case.get('last') else case['ops'])
        return wd

    def _fam_step(self, w, case):
        op = case['ops'][-1]
        wd = self.get_world(w, dict(case, last=True))
        n, r = self.apply(w, wd, op)
        w.count('transitions')
        if self.step:
            self.step(w, self, wd, op, r, n)
        return n

    def _fam_state(self, w, case):
        wd = self.get_world(w, case)
        a = self.arch(w, wd.conf)
        a.restore(wd.snap)
        if self.state:
            self.state(w, self, wd, a)
        return None

    # ----------------------------------------------------------------- BFS
    def bfs(self, ctx, alphabet, depth, inits=((),), limit=None):
        """alphabet: list of ops or function(world, depth) -> ops. Returns the worlds."""
        w = core.Worker()
        seen, all_worlds = set(), []
        frontier = []
        try:
            for ops in inits:
                wd = self.build(w, list(ops))
                k = wd.key()
                if k not in seen:
                    seen.add(k)
                    frontier.append(wd)
        finally:
            w.close()
        deepest = frontier
        shared = {}
        d = 0
        while frontier:
            deepest = frontier
            ctx.explore(self.name + '_state', [{'ops': wd.path, '_world': wd} for wd in frontier], chunk=4)
            for wd in frontier:
                ctx.seen('states', wd.key()[:16])
            all_worlds += frontier
            if d >= depth or ctx.stop() or ctx.capped:
                break
            tasks = []
            for wd in frontier:
                ops = alphabet(wd, d) if callable(alphabet) else alphabet
                for op in ops:
                    tasks.append({'ops': wd.path + [list(op)], '_world': wd})
            frontier = []
            res = ctx.explore(self.name + '_step', tasks, chunk=4)
            order = {core.case_json(t): i for i, t in enumerate(tasks)}
            for case, wd in sorted(res, key=lambda cr: order[core.case_json(cr[0])]):
                if wd is None:
                    continue
                k = wd.key()
                if k in seen:
                    continue
                seen.add(k)
                wd.snap.files = {n: (m, g, shared.setdefault(b, b)) for n, (m, g, b) in wd.snap.files.items()}
                if limit and len(seen) > limit:
                    ctx.capped.append(f'{self.name}: state limit {limit}')
                    break
                frontier.append(wd)
            d += 1
        # bind the explored worlds to unbroken runs of the program: replay histories from scratch
        reps = deepest[:: max(1, len(deepest) // 40)][:40]
        ctx.explore('hist_replay', [{'h': self.name, 'ops': wd.path, '_key': wd.key()} for wd in reps])
        ctx.bound(f'{self.name}: histories to depth {d}, {len(all_worlds)} distinct worlds')
        if all_worlds:
            ctx.samples.append(f'{self.name}: history {all_worlds[-1].path}')
        return all_worlds


HISTS = {}


def make(name, *a, **kw):
    h = Hist(name, *a, **kw)
    HISTS[name] = h
    return h


@core.family
def hist_replay(w, case):
    """The whole history in one go gives the same world"""
    h = HISTS[case['h']]
    a = h.arch(w, 0)
    wd = h.build(w, case['ops'])
    w.count('traces')
    if '_key' in case and wd.key() != case['_key']:
        w.bad('nondeterministic', f'history {case["ops"]} does not lead to the same archive twice')


# ---------------------------------------------------------------- common oracles
def step_ack(w, h, w0, op, r, w1):
    """store acknowledges with the right ID, or (same object) acknowledges again"""
    a = h.arch(w, w0.conf)
    e = h.expect(a, w0, op)
    if e is None:
        if r is not None and op[0] == 'hk' and not r.ok():
            w.bad('hk-fails', f'after {w0.path}: housekeeping ends with {r.status()}: {r.err[-300:]!r}')
        return
    if not r.ok():
        w.bad('store-fails', f'after {w0.path}: {op} ends with {r.status()}: {r.err[-300:]!r}')
    elif r.out != (a.prefix + e[0] + '\n').encode():
        w.bad('wrong-id', f'after {w0.path}: {op} printed {r.out!r}, not {e[0]}')


def check_gets(w, wd, a, modes=('',), tag=''):
    for rid, o in wd.objs.items():
        full = a.prefix + rid
        for m in modes:
            r = a.get(full, *([m] if m else []))
            if not r.ok():
                w.bad(f'get{m}-fails', f'after {wd.path}{tag}: get {m} {rid} ends with {r.status()}: {r.err[-300:]!r}')
                continue
            got = r.out
            if m == '-z':
                try:
                    got, n = warc.gunzip_all(r.out)
                    if n != 1:
                        w.bad('get-z-members', f'after {wd.path}{tag}: get -z {rid} delivers {n} gzip members')
                except warc.Bad as e:
                    w.bad('get-z-bad', f'after {wd.path}{tag}: get -z {rid}: {e}')
                    continue
            if got != o['content']:
                w.bad(f'get{m}-differs', f'after {wd.path}{tag}: get {m} {rid} delivers {len(got)} bytes, not the {len(o["content"])} stored')


def max_bytes(s):
    if s is None:
        return int(3.5 * 2**30)
    u = {'k': 1 << 10, 'm': 1 << 20, 'g': 1 << 30}.get(s[-1].lower())
    return int(float(s[:-1]) * u) if u else int(s)


def state_silos(w, h, wd, a, strict_max=True):
    """Every silo is well-formed and holds exactly the acknowledged objects, once each"""
    v = warc.View(wd.snap, a, max_size=max(max_bytes(c.get('max_size', '15k')) for c in h.confs) if strict_max else None)
    for p in v.problems[:3]:
        w.bad('silo:' + p.split(':')[0].split(' ')[0], f'after {wd.path}: {p}')
    return v


def collisions(wd, a):
    """specs of contents that equal a segment or warcinfo body in this world"""
    v = warc.View(wd.snap, a)
    full = [op[i] for op in wd.path for i in (1, 2) if op[0] in ('store', 'storef', 'meta', 'metai') and len(op) > i and op[i][0] in 'rhztgwm' and op[i][1:2].isdigit()]
    out = []
    for no in sorted(v.silos):
        for r in v.silos[no]:
            if r.type == 'warcinfo':
                out.append('x' + r.body.hex())
            elif r.get('WARC-Segment-Number'):
                for s in full:
                    i = gen(s).find(r.body)
                    if i >= 0 and len(gen(s)) > len(r.body):
                        out.append(f'[{i}:{i + len(r.body)}]{s}')
                        break
    return sorted(set(out))


def objset(wd, a):
    """every complete object in the silos: sorted list of (rid, type, content digest, ref)"""
    v = warc.View(wd.snap, a)
    return v, sorted((o.rid, o.type, sha(o.content), o.ref or '') for l in v.objs.values() for o in l)


def archive_files(snap):
    """everything but the cache"""
    return {k: v for k, v in snap.files.items() if k != '_.cache'}
