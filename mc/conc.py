"""Several operations at the same time on one archive: what has to hold whatever the schedule."""
from mc.gen import gen
from mc import warc, hist, sched
from mc.states import BASES

H = hist.make('conc', confs=({'max_size': '4k'}, {'max_size': '15k'}, {'max_size': '4k', 'sort_size': '4k'}))


def make(name, base, ops, conf=0, hk=False):
    """ops: store/meta/get/run operations run at the same time"""

    def prepare(w):
        wd = hist.World(conf=conf)
        for op in BASES[base]:
            wd, _ = H.apply(w, wd, op)
        return (H.arch(w, conf), wd.snap, wd)

    def procs(a, c):
        out = []
        for op in ops:
            if op[0] == 'filter':
                out.append(a.proc(*op, stdin=''.join(x + '\n' for x in list(c[2].objs) + newids(a, c)).encode()))
            else:
                out.append(H.proc(a, op))
        return out

    def newids(a, c):
        return [H.expect(a, c[2], op)[0] for op in ops if op[0] in ('store', 'meta')]

    def oracle(w, c, a, res, snap, what):
        wd = c[2]
        objs = dict(wd.objs)
        for op, p in zip(ops, res.procs):
            if op[0] in ('store', 'meta'):
                e = H.expect(a, wd, op)
                if not p.ok() or p.out != (a.prefix + e[0] + '\n').encode():
                    w.bad('store-fails', f'{what}: {op} ends with {p.status()} {p.out!r} {p.err[-300:]!r}')
                    continue
                objs.setdefault(e[0], hist.O(type=e[1], spec=op[2] if op[0] == 'meta' else op[1], ref=e[3]))
        new = newids(a, c)
        for op, p in zip(ops, res.procs):
            if op[0] == 'get':
                rid = H.refid(a, op[1])
                got = p.out
                if '-z' in op and p.ok():
                    try:
                        got = warc.gunzip_all(p.out)[0]
                    except warc.Bad:
                        got = None
                if rid in wd.objs:
                    if not p.ok() or got != wd.objs[rid]['content']:
                        w.bad('get-acked', f'{what}: {op} of an object stored before ends with {p.status()} {p.err[-200:]!r}')
                elif p.ok():
                    if got != gen(op[1]):
                        w.bad('get-new', f'{what}: {op} delivers wrong bytes')
                elif p.kind != 'exit' or p.out:
                    w.bad('get-new', f'{what}: {op} of an object being stored ends with {p.status()} after {len(p.out)} bytes {p.err[-200:]!r}')
            elif op[0] == 'filter':
                lines = p.out.decode().split()
                if not p.ok() or any(x in lines for x in wd.objs) or any(x not in new for x in lines):
                    w.bad('filter', f'{what}: filter ends with {p.status()} {lines} {p.err[-200:]!r}')
            elif op[0] == 'hk' and not p.ok():
                w.bad('hk', f'{what}: housekeeping ends with {p.status()} {p.err[-300:]!r}')
            elif op[0] == 'run' and op[1] == 'dumpindex':
                have = p.out.decode('latin-1')
                if not p.ok() or any(e[0] not in have for e in warc.index_set(wd.snap)):
                    w.bad('dumpindex', f'{what}: dumpindex ends with {p.status()} {p.err[-200:]!r}')
            elif op[0] == 'run' and op[1] in ('audit', 'reindex') and not p.ok():
                w.bad(op[1], f'{what}: {op} ends with {p.status()} {(p.out + p.err)[-300:]!r}')
        v = warc.View(snap, a, max_size=hist.max_bytes(H.confs[conf]['max_size']), dups_ok=True)
        for pr in v.problems[:1]:
            w.bad('silo', f'{what}: {pr}')
        if v.orphans:
            w.bad('orphan', f'{what}: a record belongs to no complete object')
        for n in snap.files:
            if (n.endswith('.hold') or n in ('index.hold',)) and n not in wd.snap.files:
                w.bad('hold-left', f'{what}: {n} is left')
        for no in v.silos:
            p = warc.silo_path(no)
            if p in wd.snap.files and not snap.files[p][2].startswith(wd.snap.files[p][2]):
                w.bad('silo-changed', f'{what}: bytes of silo {no} changed')
        try:
            idx = warc.index_set(snap)
        except warc.Bad as e:
            w.bad('index', f'{what}: {e}')
            return
        want = v.expected_index()
        if not warc.index_set(wd.snap) <= idx:
            w.bad('index-lost', f'{what}: index entries lost: {sorted(warc.index_set(wd.snap) - idx)[:2]}')
        again = {H.expect(a, wd, op)[0] for op in ops if op[0] in ('store', 'meta')} & set(wd.objs)
        old = warc.index_set(wd.snap)
        new_rows = [e for e in idx - old if any(rid.startswith(e[0]) or e[0].startswith(rid) for rid in again)]
        if new_rows:
            w.bad('stored-again', f'{what}: an object that was in the archive is stored again: {new_rows[:2]}')
        if not idx - warc.index_set(wd.snap) <= want:
            w.bad('index-wrong', f'{what}: index entries for records that are not there: {sorted(idx - want)[:2]}')
        a.restore(snap)
        for rid, o in objs.items():
            for m in ('-q', '-z'):
                r = a.get(a.prefix + rid, m)
                try:
                    got = warc.gunzip_all(r.out)[0] if m == '-z' and r.ok() else r.out
                except warc.Bad:
                    got = None
                if not r.ok() or got != o['content']:
                    w.bad('lost', f'{what}: then get {m} {rid}: {r.status()} {r.err[-200:]!r}')
        r = a.op('housekeeping')
        if not r.ok():
            w.bad('hk-after', f'{what}: then housekeeping: {r.status()} {r.err[-200:]!r}')
        for rid, o in objs.items():
            r = a.get(a.prefix + rid, '-q')
            if not r.ok() or r.out != o['content']:
                w.bad('lost-hk', f'{what}: then housekeeping and get {rid}: {r.status()} {r.err[-200:]!r}')
        r = a.op('audit')
        if not r.ok() or b'ERROR' in r.out + r.err:
            w.bad('audit', f'{what}: then audit: {r.status()} {(r.out + r.err)[-300:]!r}')
        w.sample(what)
    sched.scenario(name, prepare, procs, oracle)
    return len(ops)
