"""Trees, mtree specifications, and stow under a scripted mtree and stevedore."""
import array, json, os, signal, socket, struct, subprocess, time
from . import build, stv
from .gen import gen, sha
from .run import BASE_ENV, config
from .stv import MSG, FILTER, DATA, META, msg


def vis(name):
    """a name as mtree writes it (vis(3) with VIS_CSTYLE | VIS_WHITE and '#')"""
    out = []
    c = {0x0a: '\\n', 0x0d: '\\r', 0x08: '\\b', 0x07: '\\a', 0x0b: '\\v', 0x09: '\\t', 0x0c: '\\f', 0x20: '\\s', 0x5c: '\\\\', 0x23: '\\#'}
    for b in name:
        if b in c:
            out.append(c[b])
        elif 0x21 <= b < 0x7f:
            out.append(chr(b))
        else:
            s = '\\'
            if b & 0x80:
                s += 'M'
                b &= 0x7f
            if b < 0x20 or b == 0x7f:
                s += '^' + ('?' if b == 0x7f else chr(b + 0x40))
            elif b == 0x20:
                s = '\\240'
            else:
                s += '-' + chr(b)
            out.append(s)
    return ''.join(out)


def mkspec(tree, style=0, digests=None):
    """tree: nested {name: content | dict | ('link', target) | ('fifo',)}

    style 3: directories first, and the default type; 4: all mixed, the default type changes
    """
    out = ['/set type=file uid=0 gid=0 mode=0644 nlink=1 flags=none' if style != 3 else '/set uid=0 type=dir mode=0755']
    typ = [None]

    def default(t):
        if typ[0] != t:
            out.append(f'/set type={t} mode=0644')
            typ[0] = t

    def one(d, depth, path):
        if style > 2:
            for n in sorted(d, key=lambda n: (style == 3 and not isinstance(d[n], dict), n)):
                v = d[n]
                if style == 4 and not isinstance(v, tuple):
                    default('dir' if isinstance(v, dict) else 'file')
                if isinstance(v, dict):
                    out.append(f'{vis(n)} nlink=2')
                    one(v, depth + 1, path + (n,))
                    out.append('..')
                elif isinstance(v, tuple):
                    out.append(f'{vis(n)} type={v[0]}' + (f' link={vis(v[1])}' if v[0] == 'link' else ''))
                else:
                    h = (digests or {}).get(path + (n,)) or sha(v)
                    out.append(f'{vis(n)} ' + ('type=file ' if style == 3 else '') + f'sha256digest={h}')
            return
        pad = '' if style == 1 else '    ' * min(depth, 3)
        files = sorted(n for n in d if not isinstance(d[n], dict))
        for n in files:
            v = d[n]
            if isinstance(v, tuple):
                out.append(f'{pad}    {vis(n)}  type={v[0]} mode=0777 time=1.0' + (f' link={vis(v[1])}' if v[0] == 'link' else ''))
                continue
            h = (digests or {}).get(path + (n,)) or sha(v)
            if style == 0:
                out.append(f'{pad}    {vis(n)}  size={len(v)} time=1.0 \\')
                out.append(f'{pad}                sha256digest={h}')
            elif style == 1:
                out.append(f'{vis(n)} size={len(v)} sha256digest={h}')
            else:
                out.append(f'{pad}{vis(n)}\ttype=file \\')
                out.append(f'size={len(v)} \\')
                out.append(f'\tsha256digest={h} time=1.0')
                out.append('')
        for n in sorted(n for n in d if isinstance(d[n], dict)):
            out.append(f'{pad}{vis(n)}  type=dir mode=0755 nlink=2 time=1.0')
            one(d[n], depth + 1, path + (n,))
            out.append(f'{pad}..')
    out.append('.   type=dir mode=0755 nlink=3 time=1.0')
    one(tree, 0, ())
    out.append('..')
    return ('\n'.join(out) + '\n').encode()


def mktree(d, tree):
    d = os.fsencode(d)
    os.makedirs(d, exist_ok=True)
    for n, v in tree.items():
        p = d + b'/' + n
        if isinstance(v, dict):
            mktree(p, v)
        elif isinstance(v, tuple):
            if v[0] == 'link':
                os.symlink(v[1], p)
            else:
                os.mkfifo(p)
        else:
            with open(p, 'wb') as f:
                f.write(v)


def files(tree, path=()):
    for n, v in sorted(tree.items()):
        if isinstance(v, dict):
            yield from files(v, path + (n,))
        elif isinstance(v, bytes):
            yield path + (n,), v


_relay = None


def relay():
    """a directory with our mtree in it, and the relay"""
    global _relay
    if _relay is None:
        r = build.tool('relay')
        d = r + '.d'
        os.makedirs(d, exist_ok=True)
        try:
            os.symlink(r, d + '/mtree')
        except FileExistsError:
            pass
        _relay = (d, r)
    return _relay


class Killed(Exception):
    pass


class Run:
    """stow, its mtree and its stevedore held by us. Actions are chosen one at a
    time, each when stow waits for one."""

    def __init__(self, w, a, tree, spec, base, id_len=32, prefix='file://ex/', chunks=None, timeout=5, answer=None, chunkings=('1', 'all')):
        self.dir = a.dir
        self.prefix, self.id_len = prefix, id_len
        self.tree, self.spec = tree, spec
        self.have = {x[:id_len] for x in base}
        self.mchunks = list(chunks if chunks is not None else [spec])
        self.timeout = timeout
        self.chunkings = chunkings
        self.sent = []           # contents of the files stow sent
        self.metas = []          # (ref, body)
        self.log = []
        self.inp = bytearray()
        self.pend = []           # filter requests not yet answered
        self.greeted = self.mend = False
        self.cur = None
        self.meta = None
        self.wait_ack = False
        self.meta_ack = 0
        self.problems = []
        self.eof = False
        self.done = False
        self.mgone = self.sgone = False
        self.reqs = 0
        self.late = False
        self.acked_meta = False
        self.clean = True
        self.ended = set()
        self.either = False      # the fault came when all was done
        d, r = relay()
        sock = a.dir + '/sock'
        if os.path.exists(sock):
            os.unlink(sock)
        ls = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        ls.bind(sock)
        ls.listen(4)
        ls.settimeout(timeout)
        stv.subreaper()
        self.fout = open(a.dir + '/stow.out', 'w+b')
        self.p = subprocess.Popen([w.srv.exe, '-c', a.confpath, 'stow', 'j'], cwd=a.dir, stdin=subprocess.DEVNULL, stdout=self.fout, stderr=self.fout, start_new_session=True,
                                  env=dict(e.split('=', 1) for e in BASE_ENV if not e.startswith('PATH=')) | {'PATH': d + ':/usr/bin:/bin', 'MC_SOCK': sock, 'MC_RELAY': r})
        self.rc = None
        try:
            got = {}
            for _ in range(2):
                c, _x = ls.accept()
                m, fds, fl, ad = socket.recv_fds(c, 8192, 3)
                args = m.split(b'\1')
                pid = struct.unpack('3i', c.getsockopt(socket.SOL_SOCKET, socket.SO_PEERCRED, 12))[0]
                c.settimeout(timeout)
                got['m' if args[0] == b'mtree' else 's'] = ((c, pid), fds, args)
        except OSError:
            self.kill()
            raise
        finally:
            ls.close()
        self.mc, f, self.margs = got['m']
        os.close(f[0])
        os.close(f[2])
        self.mfd = f[1]
        self.sc, (self.s0, self.s1, self.s2), _ = got['s']
        os.set_blocking(self.s0, False)
        os.set_blocking(self.s1, False)
        os.set_blocking(self.mfd, False)
        self.settle()

    # ------------------------------------------------------------ observing
    def state(self):
        try:
            with open(f'/proc/{self.p.pid}/stat', 'rb') as f:
                b = f.read()
            return chr(b[b.rindex(b')') + 2])
        except (FileNotFoundError, ProcessLookupError):
            return 'X'

    def in_wait(self):
        """about to be told that a child has ended"""
        if not self.ended:
            return False
        try:
            with open(f'/proc/{self.p.pid}/syscall') as f:
                x = f.read().split()
        except OSError:
            time.sleep(0.001)
            return False
        return x[0] == 'running' or x[0] == '61' and int(x[1], 16) & 0xffffffff in self.ended

    def drain(self):
        n = 0
        while self.s0 is not None and not self.eof:
            try:
                b = os.read(self.s0, 65536)
            except BlockingIOError:
                break
            if not b:
                self.eof = True
                n += 1
                break
            self.inp += b
            n += len(b)
        return n

    def settle(self):
        """until stow can do nothing without us"""
        end = time.time() + self.timeout
        calm = 0
        while True:
            n = self.drain()
            st = self.state()
            if st in 'ZX':
                self.drain()
                self.done = True
                break
            if st == 'S' and not n and not self.in_wait():
                calm += 1
                if calm >= 2:
                    break
            else:
                calm = 0
                time.sleep(0.0002 if st != 'R' else 0)
            if time.time() > end:
                self.problems.append(('hang', f'busy for {self.timeout} s'))
                break
        self.parse()

    def parse(self):
        """What the stevedore does with what has come: nothing while a file is
        being stored"""
        while self.inp and not self.wait_ack:
            fs, rest = stv.frames(self.inp)
            if not fs:
                break
            cmd, d, e = fs[0]
            del self.inp[:e]
            self.reqs += 1
            if cmd == FILTER:
                if d and (len(d) < self.id_len or len(d) > 64):
                    self.problems.append(('request', f'filter request {d!r}'))
                self.pend.append(d)
            elif cmd == DATA:
                if d:
                    self.cur = (self.cur or b'') + d
                elif self.cur is None:
                    self.problems.append(('request', 'end of no file'))
                else:
                    self.sent.append(self.cur)
                    self.have.add(sha(self.cur)[:self.id_len])
                    self.cur = None
                    self.wait_ack = True
                    if self.metas or self.meta is not None:
                        self.late = True
            elif cmd == META:
                if self.meta is None:
                    self.meta = (d, b'')
                    if self.cur is not None:
                        self.problems.append(('request', 'metadata inside a file'))
                elif d:
                    self.meta = (self.meta[0], self.meta[1] + d)
                else:
                    self.metas.append(self.meta)
                    # what it refers to must be there
                    self.meta = None
                    self.meta_ack += 1
            else:
                self.problems.append(('request', f'request of kind {cmd}'))

    # -------------------------------------------------------------- actions
    def actions(self):
        """what the outside can do next"""
        if self.done:
            return []
        out = []
        if not self.sgone and not self.greeted:
            out.append('g')
        if not self.mgone:
            out.append('m' if self.mchunks else 'e')
        if not self.sgone and self.greeted:
            if self.pend:
                if self.pend[0] == b'':
                    out.append('fe')
                else:
                    n = 0
                    while n < len(self.pend) and self.pend[n] != b'':
                        n += 1
                    out += ['f%d' % n]
                    if n > 1 and '1' in self.chunkings:
                        out.append('f1')
            if self.wait_ack:
                out.append('d')
            if self.meta_ack:
                out.append('M')
            if self.eof and not self.wait_ack and not self.meta_ack and not self.pend:
                out.append('x')
        return out

    def wr(self, fd, b, cuts=()):
        p = 0
        if fd is None:
            return
        for c in list(cuts) + [len(b)]:
            c = min(c, len(b))
            if c > p:
                try:
                    k = os.write(fd, b[p:c])
                except (BrokenPipeError, BlockingIOError):
                    return
                p = c
                if c < len(b):
                    self.settle()

    def act(self, x, cuts=()):
        self.log.append(x)
        if x == 'g':
            self.greeted = True
            self.wr(self.s1, msg(MSG, b'Hi there, from the stevedore'), cuts)
        elif x == 'm':
            self.wr(self.mfd, self.mchunks.pop(0))
        elif x == 'e':
            self.mtree_end(0)
        elif x == 'fe':
            self.pend.pop(0)
            self.wr(self.s1, msg(FILTER), cuts)
        elif x[0] == 'f':
            n = int(x[1:])
            ids = [self.pend.pop(0) for _ in range(n)]
            miss = [i for i in ids if i[:self.id_len].decode() not in self.have]
            if miss:
                b = b''.join(msg(FILTER, i[:self.id_len]) for i in miss)
            else:
                b = msg(FILTER, struct.pack('>I', n))
            self.wr(self.s1, b, cuts)
        elif x == 'd':
            self.wait_ack = False
            self.wr(self.s1, msg(DATA, (self.prefix + sha(self.sent[-1])[:self.id_len]).encode()), cuts)
        elif x == 'M':
            self.meta_ack -= 1
            self.acked_meta = True
            self.have.add('meta')
            self.wr(self.s1, msg(META, (self.prefix + 'e' * self.id_len).encode()), cuts)
        elif x == 'x':
            self.stv_end(0)
        # what can go wrong
        elif x[0] == 'N' and self.mgone or x[0] in 'KcR' and (self.sgone or self.s1 is None and x[0] != 'K'):
            self.log.pop()
        elif x[0] == 'K':        # stevedore ends: with a status, or killed
            self.either = x == 'K0' and self.acked_meta
            self.clean = False
            self.stv_end(int(x[1:]))
        elif x[0] == 'N':        # mtree ends
            self.clean = self.clean and int(x[1:]) == 0 and not self.mchunks
            self.mtree_end(int(x[1:]))
        elif x == 'c1':          # stevedore closes its output
            self.either = self.acked_meta
            self.clean = False
            os.close(self.s1)
            self.s1 = None
        elif x[0] == 'R':        # raw bytes from the stevedore
            # part of an answer
            self.either = self.acked_meta
            self.clean = False
            self.wr(self.s1, bytes.fromhex(x[1:]))
            self.settle()
            self.stv_end(0)
        else:
            raise ValueError(x)
        self.settle()

    def end(self, conn, code):
        """the relay ends, and has ended when we return"""
        c, pid = conn
        self.ended.add(pid)
        try:
            c.send(bytes([code]))
            c.recv(1)
        except OSError:
            pass
        t = time.time() + self.timeout
        while time.time() < t:
            try:
                with open(f'/proc/{pid}/stat', 'rb') as f:
                    b = f.read()
                if chr(b[b.rindex(b')') + 2]) in 'ZX':
                    break
            except (FileNotFoundError, ProcessLookupError):
                break

    def mtree_end(self, code):
        self.mgone = True
        self.mchunks = []
        os.close(self.mfd)
        self.end(self.mc, code)

    def stv_end(self, code):
        self.sgone = True
        self.drain()
        self.eof = True
        for f in (self.s0, self.s1, self.s2):
            if f is not None:
                os.close(f)
        self.s0 = self.s1 = self.s2 = None
        self.end(self.sc, code)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.rc = self.p.wait()
        stv.reap(self.p.pid, 2)
        self.fout.close()

    def finish(self):
        """let everything end; -> (exit status, output)"""
        if not self.done:
            self.problems.append(('hang', 'stow waits for something that will not come'))
            os.killpg(self.p.pid, signal.SIGKILL)
        if not self.mgone:
            self.mtree_end(0)
        if not self.sgone:
            self.stv_end(0)
        self.rc = self.p.wait()
        self.mc[0].close()
        self.sc[0].close()
        if stv.reap(self.p.pid, 2):
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            stv.reap(self.p.pid, 2)
        self.fout.seek(0)
        self.text = self.fout.read()
        self.fout.close()
        return self.rc


def conf(a, jobs, extra=''):
    """configuration with stow jobs: {name: {key: value}}"""
    t = ''
    for j, kv in jobs.items():
        t += f'stow.{j}:\n' + ''.join(f'\t{k} {v}\n' for k, v in kv.items()) + '\n'
    with open(a.confpath, 'w') as f:
        f.write(config(a.silo + '/', **{k: v for k, v in a.kw.items() if k != 'extra'}, extra=t + extra))
