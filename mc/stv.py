"""The stevedore protocol: messages, a model of what they ask for, and a driver
which talks to the real program."""
import fcntl, os, select, signal, struct, subprocess, termios, time
from .run import BASE_ENV
from .hist import res_id, meta_id

MSG, FILTER, DATA, META = 0, 1, 2, 3


def msg(cmd, data=b'', cls=None):
    """one message, in the shortest form or in the size class asked for"""
    n = len(data)
    if cls is None:
        cls = 0 if n == 0 else 1 if n == 32 else 2 if n < 256 else 3
    h = bytes([cls << 6 | cmd])
    if cls == 2:
        h += bytes([n])
    elif cls == 3:
        h += struct.pack('>I', n)
    return h + data


class Short(Exception):
    pass


def frames(b, start=0):
    """[(cmd, data, end)], and whether something is left over (None, 'head', 'body')"""
    out, p = [], start
    while p < len(b):
        cls, cmd = b[p] >> 6, b[p] & 7
        q = p + 1
        if cls == 0:
            n = 0
        elif cls == 1:
            n = 32
        elif cls == 2:
            if q + 1 > len(b):
                return out, ('head', cmd, 0, p)
            n = b[q]
            q += 1
        else:
            if q + 4 > len(b):
                return out, ('head', cmd, 0, p)
            n = struct.unpack('>I', b[q:q + 4])[0]
            q += 4
        if q + n > len(b):
            return out, ('body', cmd, n, p)
        out.append((cmd, bytes(b[q:q + n]), q + n))
        p = q + n
    return out, None


class Plan:
    """What a stream of requests asks for"""
    __slots__ = ('end', 'why', 'at', 'jobs', 'ids', 'sure', 'acked_before', 'unknown')


HEX = set(b'0123456789abcdefABCDEF')


def plan(stream, base, id_len, prefix):
    """base: IDs in the archive. end is 'clean', 'refused' or 'either'"""
    pl = Plan()
    pl.end, pl.why, pl.at = 'clean', None, len(stream)
    pl.jobs = []         # (kind, id, content, ref, number of the message that ended it)
    pl.ids = []          # (id as sent, True|False|None) or ('', None) for the end of a batch
    pl.unknown = 0
    pl.sure = True       # no job of metadata can have failed before the end
    data = meta = None
    have = set(base)
    may = set()
    fs, rest = frames(stream)

    def refuse(why, at):
        pl.end, pl.why, pl.at = 'refused', why, at
        return pl
    pos = 0
    for i, (cmd, d, end) in enumerate(fs):
        n = len(d)
        if cmd == MSG:
            return refuse('a message', i)
        elif cmd == FILTER:
            if n == 0:
                pl.ids.append((b'', None, i))
            else:
                if n < id_len or n > 64 or not set(d) <= HEX:
                    return refuse('not an ID', i)
                x = d[:id_len].decode().lower()
                pl.ids.append((d[:id_len], True if x in have else None if x in may else False, i))
        elif cmd == DATA:
            if n:
                data = (data or b'') + d
            else:
                if data is None:
                    return refuse('end of no file', i)
                x = res_id(data, id_len)
                # earlier filters may or may not have seen it
                pl.ids = [(y, None if z is False and y.decode().lower() == x else z, k) for y, z, k in pl.ids]
                pl.jobs.append((DATA, x, data, None, i))
                have.add(x)
                data = None
        elif cmd == META:
            if meta is None:
                if n >= 8191:
                    return refuse('oversized reference', i)
                ref = d.split(b'\0')[0][:id_len]
                if len(ref) != id_len or not set(ref) <= HEX:
                    pl.sure = False
                    meta = ('bad', b'')
                else:
                    x = ref.decode().lower()
                    meta = (x, b'')
                    if x not in have:
                        # the store may look for it only after it has come in
                        if x not in may and not any(c == DATA for c, _, _ in fs[i:]):
                            meta = ('bad', b'')
                        else:
                            meta = ('may', b'', x)
                        pl.sure = False
            elif n:
                meta = (meta[0], meta[1] + d) + meta[2:]
            else:
                if meta[0] == 'bad' or not meta[1]:
                    pl.sure = False
                    if pl.end != 'refused':
                        pl.end, pl.why = 'refused', 'bad metadata'
                else:
                    if meta[0] == 'may' and pl.end == 'clean':
                        pl.end, pl.why = 'either', 'reference to something on its way'
                    r = meta[2] if meta[0] == 'may' else meta[0]
                    ref = '<' + prefix + r + '>'
                    x = meta_id(ref, meta[1], id_len)
                    pl.ids = [(y, None if z is False and y.decode().lower() == x else z, k) for y, z, k in pl.ids]
                    pl.jobs.append((META, x, meta[1], ref, i))
                    may.add(x)
                meta = None
        else:
            pl.unknown += 1
    if rest is not None:
        k, cmd, n, p = rest
        if k == 'body' and cmd == META and meta is None:
            return refuse('cut short', len(fs))
        return refuse('cut short', len(fs))
    if data is not None or meta is not None:
        return refuse('ends inside a file', len(fs))
    return pl


class Talk:
    __slots__ = ('rc', 'out', 'err', 'hung', 'frames', 'rest')


def spawn(exe, args, cwd, stdin=subprocess.PIPE, env=()):
    return subprocess.Popen([exe] + args, cwd=cwd, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                            env=dict(e.split('=', 1) for e in list(BASE_ENV) + list(env)), bufsize=0)


_reaper = False


def subreaper():
    """what stevedore leaves behind becomes our child, not that of a slow init"""
    global _reaper
    if not _reaper:
        import ctypes
        ctypes.CDLL(None, use_errno=True).prctl(36, 1, 0, 0, 0)
        _reaper = os.getpid()


def reap(pgid, wait=0):
    """collect the children of a process group; -> number still running"""
    end = time.time() + wait
    while True:
        try:
            pid, st = os.waitpid(-pgid, os.WNOHANG)
        except ChildProcessError:
            return 0
        if pid == 0:
            if time.time() >= end:
                return 1
            time.sleep(0.001)


def fionread(fd):
    b = fcntl.ioctl(fd, termios.FIONREAD, b'\0' * 4)
    return struct.unpack('i', b)[0]


def talk(exe, conf, cwd, pieces, timeout=10, on_frame=None, env=(), eof=True, gates=()):
    """Send the pieces, each only when the one before has been read, then end of
    file; until everybody who has our pipes is gone. on_frame(n, cmd, data) is
    called with every message as it comes. gates: {number of a piece: (kinds of
    answers, how many of them there have to be before it is sent)}"""
    subreaper()
    gates = dict(gates)
    ends = {DATA: 0, META: 0, FILTER: 0}
    p = spawn(exe, ['-c', conf, 'stevedore'], cwd, env=env)
    t = Talk()
    t.hung = False
    out, err = bytearray(), bytearray()
    fi, fo, fe = p.stdin.fileno(), p.stdout.fileno(), p.stderr.fileno()
    for f in (fi, fo, fe):
        os.set_blocking(f, False)
    todo = [bytes(x) for x in pieces if len(x)]
    np = len(todo)
    cur, sent_any = b'', False
    end = time.time() + timeout
    opened = {fo, fe}
    wr = True
    nf, pf = 0, 0
    # the pieces may only be sent once the program waits for the first byte
    while opened:
        if time.time() > end:
            t.hung = True
            break
        poll = select.poll()
        for f in opened:
            poll.register(f, select.POLLIN)
        tmo = 1000
        if wr:
            if not cur and any(ends[k] < n for k, n in gates.get(np - len(todo), ())):
                pass
            elif not cur and todo:
                if not sent_any or fionread(fi) == 0:
                    cur = todo.pop(0)
                    sent_any = True
                else:
                    tmo = 0
                    poll.register(fi, 0)
            if cur:
                poll.register(fi, select.POLLOUT)
            elif not todo and not any(ends[k] < n for k, n in gates.get(np, ())):
                if eof:
                    p.stdin.close()
                wr = False
        for f, ev in poll.poll(tmo):
            if f == fi and wr:
                if ev & select.POLLERR:
                    p.stdin.close()
                    wr = False
                elif ev & select.POLLOUT:
                    try:
                        k = os.write(fi, cur[:65536])
                        cur = cur[k:]
                    except BlockingIOError:
                        pass
                    except BrokenPipeError:
                        p.stdin.close()
                        wr = False
            elif f in (fo, fe):
                b = os.read(f, 65536)
                if not b:
                    opened.discard(f)
                elif f == fo:
                    out += b
                    if on_frame or gates:
                        fs, _ = frames(out, pf)
                        for cmd, d, e in fs:
                            if cmd in (DATA, META) or cmd == FILTER and not d:
                                ends[cmd] += 1
                            if on_frame:
                                on_frame(nf, cmd, d)
                            nf += 1
                            pf = e
                else:
                    err += b
    if t.hung:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    t.rc = p.wait()
    reap(p.pid, 2)
    for f in (p.stdin, p.stdout, p.stderr):
        if not f.closed:
            f.close()
    t.out, t.err = bytes(out), bytes(err)
    t.frames, t.rest = frames(t.out)
    return t


def judge(bad, t, pl, prefix, id_len, what):
    """The answers. bad(key, text)"""
    if t.hung:
        bad('hang', f'{what}: does not end (requests: {pl.end} {pl.why}); {t.err[-200:]!r}')
        return None
    if b'Sanitizer' in t.err or b'runtime error' in t.err:
        bad('memory', f'{what}: {t.err[:600]!r}')
    if pl.end == 'clean' and t.rc != 0:
        bad('refuses', f'{what}: exit status {t.rc} for well-formed requests; {t.err[-300:]!r}')
    if pl.end == 'refused' and t.rc == 0:
        bad('accepts', f'{what}: exit status 0 although: {pl.why}')
    clean = t.rc == 0
    if t.rest is not None:
        bad('answer', f'{what}: the answers end inside a message')
    fs = t.frames
    if not fs or fs[0][0] != MSG or b'stevedore' not in fs[0][1]:
        bad('answer', f'{what}: no greeting {fs[:1]}')
    nmsg = sum(1 for c, _, _ in fs[1:] if c == MSG)
    if (nmsg != pl.unknown) if clean else (nmsg > pl.unknown + 1):
        bad('answer', f'{what}: {nmsg} messages for {pl.unknown} unknown requests')
    # files, in order
    want = [(prefix + j[1]).encode() for j in pl.jobs if j[0] == DATA]
    got = [d for c, d, _ in fs if c == DATA]
    if got != want[:len(got)]:
        bad('ack', f'{what}: files acknowledged as {got}, sent were {want}')
    if clean and len(got) != len(want):
        bad('ack', f'{what}: {len(want)} files sent, {len(got)} acknowledged')
    if not clean and pl.sure and pl.end == 'refused':
        # it reads on only when the file is stored
        if len(got) < len(want):
            bad('ack', f'{what}: {len(want)} files sent, only {len(got)} acknowledged before {pl.why}')
    mw = [(prefix + j[1]).encode() for j in pl.jobs if j[0] == META]
    mg = [d for c, d, _ in fs if c == META]
    left = list(mw)
    for x in mg:
        if x in left:
            left.remove(x)
        else:
            bad('ack', f'{what}: metadata acknowledged as {x}, sent were {mw}')
    if clean and left:
        bad('ack', f'{what}: metadata {left} not acknowledged')
    for c, d, _ in fs:
        if c not in (MSG, FILTER, DATA, META):
            bad('answer', f'{what}: answer of kind {c}')
    # filter: read as the client reads it
    ids, p = pl.ids, 0
    for c, d, _ in fs:
        if c != FILTER:
            continue
        if d == b'':
            while p < len(ids) and ids[p][0] != b'':
                if ids[p][1] is False:
                    bad('filter', f'{what}: {ids[p][0]} is not in the archive, answered as present')
                p += 1
            if p == len(ids):
                bad('filter', f'{what}: end of a batch that was not asked for')
                break
            p += 1
        elif len(d) == 4:
            for _ in range(struct.unpack('>I', d)[0]):
                if p == len(ids) or ids[p][0] == b'':
                    bad('filter', f'{what}: counts more IDs than were sent')
                    break
                if ids[p][1] is False:
                    bad('filter', f'{what}: {ids[p][0]} is not in the archive, counted as present')
                p += 1
        else:
            while p < len(ids) and ids[p][0] != b'' and ids[p][0] != d:
                if ids[p][1] is False:
                    bad('filter', f'{what}: {ids[p][0]} is not in the archive, passed over')
                p += 1
            if p == len(ids) or ids[p][0] != d:
                bad('filter', f'{what}: answer {d!r} was not asked for')
                break
            if ids[p][1] is True:
                bad('filter', f'{what}: {d!r} is in the archive, answered as missing')
            p += 1
    if clean:
        while p < len(ids):
            if ids[p][0] == b'' or ids[p][1] is False:
                bad('filter', f'{what}: no answer for {ids[p][0]!r}')
                break
            p += 1
    return got, mg


def judge_archive(bad, v, base, pl, t, prefix, what):
    """v: View afterwards; base: View before"""
    if v.problems:
        bad('archive', f'{what}: {v.problems[:3]}')
    before = {x: [(o.type, o.content, o.ref) for o in l] for x, l in base.objs.items()}
    jobs = {}
    for j in pl.jobs:
        jobs[j[1]] = ('resource' if j[0] == DATA else 'metadata', j[2], j[3])
    for x, l in v.objs.items():
        for o in l:
            k = (o.type, o.content, o.ref)
            if k in before.get(x, ()):
                continue
            if x not in jobs:
                bad('stored', f'{what}: the archive has {o.type} {x} ({len(o.content)} bytes), which was not sent (whole)')
            elif jobs[x] != k:
                bad('stored', f'{what}: {x} is stored as {o.type} of {len(o.content)} bytes about {o.ref}, sent was {jobs[x][0]} of {len(jobs[x][1])} bytes about {jobs[x][2]}')
    for x in before:
        if x not in v.objs:
            bad('lost', f'{what}: {x} is gone')
    acked = {d.decode('latin-1')[len(prefix):] for c, d, _ in t.frames if c in (DATA, META)}
    for x in acked:
        if x not in v.objs:
            bad('ackedlost', f'{what}: {x} was acknowledged and is not in the archive')
    if t.rc == 0:
        for x in jobs:
            if x not in v.objs:
                bad('lost', f'{what}: {x} was sent and is not in the archive')
