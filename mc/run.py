"""Client of mcrun (the controlled-execution server) and scratch archives."""
import atexit, os, shutil, signal, subprocess, sys, stat, hashlib
from . import build

SHM = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'


class Step:
    __slots__ = ('n', 'proc', 'mask', 'op', 'sc', 'cls', 'len', 'p1', 'p2')

    def __repr__(self):
        return f'{self.n}:p{self.proc} {self.sc}[{self.cls}] {self.len} {self.p1} {self.p2}'


class PRes:
    __slots__ = ('kind', 'code', 'nops', 'out', 'err')

    def ok(self):
        return self.kind == 'exit' and self.code == 0

    def status(self):
        return f'{self.kind} {self.code}'

    def __repr__(self):
        return f'<{self.kind} {self.code} out={self.out[:80]!r} err={self.err[-200:]!r}>'


class Res:
    __slots__ = ('end', 'procs', 'trace')

    def __getitem__(self, i):
        return self.procs[i]


class Proc:
    """One program to run. stdin: None | bytes | 'closed' | 'file:..' | 'pipe:i'"""
    __slots__ = ('exe', 'args', 'env', 'stdin', 'stdout', 'stderr', 'faults')

    def __init__(self, args, stdin=None, stdout='cap', stderr='cap', env=(), faults=(), exe=None):
        self.exe = exe
        self.args = [a if isinstance(a, bytes) else str(a).encode('utf-8', 'surrogateescape') for a in args]
        self.env = list(env)
        self.stdin, self.stdout, self.stderr = stdin, stdout, stderr
        self.faults = list(faults)


class SetupFailed(Exception):
    pass


class ServerError(Exception):
    pass


BASE_ENV = ['PATH=/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL=C', 'HOME=/nonexistent', 'TZ=UTC']


class Server:
    def __init__(self, exe=None, mcrun=None):
        self.exe = exe or build.aardwarc()
        self.mcrun = mcrun or build.tool('mcrun')
        self.p = None
        self.runs = 0
        self.big = self.isbig = False
        self.steps = 0

    def _start(self):
        self.isbig = False
        self.p = subprocess.Popen([self.mcrun], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=1 << 16)

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
                self.p.wait(2)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None

    def run(self, procs, root='/nonexistent', cwd='/', trace=0, sched=(), pipes=0, timeout=10000, maxsteps=0, env=()):
        if self.p is None:
            self._start()
        b = []

        def item(k, v):
            if isinstance(v, str):
                v = v.encode('utf-8', 'surrogateescape')
            b.append(b'%s %d\n%s\n' % (k, len(v), v))
        item(b'root', root)
        item(b'cwd', cwd)
        if not trace and (sched or any(p.faults for p in procs)):
            trace = 1
        item(b'timeout', str(timeout))
        item(b'trace', str(trace))
        if self.big != self.isbig:
            item(b'bigfiles', str(int(self.big)))
            self.isbig = self.big
        if maxsteps:
            item(b'maxsteps', str(maxsteps))
        if pipes:
            item(b'pipe', str(pipes))
        if sched:
            item(b'sched', ' '.join(f'{s}:{p}' for s, p in sched))
        for p in procs:
            item(b'proc', b'')
            exe = p.exe or self.exe
            item(b'exe', exe)
            for a in p.args:
                item(b'arg', a)
            for e in {e.partition('=')[0]: e for e in BASE_ENV + list(env) + p.env}.values():
                item(b'env', e)
            if p.stdin is None:
                item(b'stdin', b'null')
            elif isinstance(p.stdin, (bytes, bytearray)):
                item(b'stdin', b'data')
                item(b'data', p.stdin)
            else:
                item(b'stdin', p.stdin)
            item(b'stdout', p.stdout)
            item(b'stderr', p.stderr)
            for f in p.faults:
                item(b'fault', '%d %s %d' % tuple(f))
        item(b'go', b'')
        try:
            self.p.stdin.write(b''.join(b))
            self.p.stdin.flush()
            return self._answer(len(procs))
        except (BrokenPipeError, ServerError) as e:
            self.close()
            raise ServerError(str(e))

    def _answer(self, n):
        r = Res()
        r.procs = []
        r.trace = []
        rd = self.p.stdout
        while True:
            line = rd.readline()
            if not line:
                raise ServerError('mcrun ended')
            c = line[:1]
            if c == b'T':
                s = Step()
                f = line[2:-1].split(b' ', 7)
                s.n, s.proc, s.mask, s.op = int(f[0]), int(f[1]), int(f[2], 16), int(f[3])
                s.sc, s.cls, s.len = f[4].decode(), f[5].decode(), int(f[6])
                a, _, bb = f[7].partition(b'\t')
                s.p1, s.p2 = a.decode('utf-8', 'surrogateescape'), bb.decode('utf-8', 'surrogateescape')
                r.trace.append(s)
            elif c == b'X':
                f = line.split()
                p = PRes()
                p.kind, p.code, p.nops = f[2].decode(), int(f[3]), int(f[4])
                p.out = p.err = b''
                r.procs.append(p)
            elif c == b'O':
                f = line.split()
                data = rd.read(int(f[3]) + 1)[:-1]
                if f[2] == b'1':
                    r.procs[int(f[1])].out = data
                else:
                    r.procs[int(f[1])].err = data
            elif c == b'E':
                r.end = line[2:-1].decode()
            elif line == b'DONE\n':
                self.runs += 1
                self.steps += len(r.trace) or sum(p.nops for p in r.procs)
                return r
            else:
                raise ServerError('bad answer %r' % line[:100])


# ---------------------------------------------------------------- snapshots
class Snap:
    """The whole contents of a directory: names, types, modes, bytes, hard links"""
    __slots__ = ('files', 'dirs')

    def __init__(self):
        self.files = {}    # rel -> (mode, group, data)  ; group: shared inode id
        self.dirs = {}     # rel -> mode

    def data(self, rel):
        return self.files[rel][2]

    def canon(self):
        """Hash of the state: file names, bytes, modes and link sharing"""
        h = hashlib.sha256()
        groups = {}
        for rel in sorted(self.files):
            m, g, d = self.files[rel]
            gi = groups.setdefault(g, len(groups))
            name = rel if not rel.startswith('index.tmp.') else 'index.tmp.PID'
            h.update(b'%s\0%o\0%d\0%d\0' % (name.encode('utf-8', 'surrogateescape'), m, gi, len(d)))
            h.update(d)
        for rel in sorted(self.dirs):
            h.update(b'D%s\0%o\0' % (rel.encode('utf-8', 'surrogateescape'), self.dirs[rel]))
        return h.digest()


def snapshot(root):
    s = Snap()
    groups = {}
    for base, dirs, files in os.walk(root):
        rb = os.path.relpath(base, root)
        rb = '' if rb == '.' else rb + '/'
        for d in dirs:
            p = os.path.join(base, d)
            st = os.lstat(p)
            s.dirs[rb + d] = stat.S_IMODE(st.st_mode)
        for f in files:
            p = os.path.join(base, f)
            st = os.lstat(p)
            if stat.S_ISREG(st.st_mode):
                with open(p, 'rb') as fh:
                    data = fh.read()
            elif stat.S_ISLNK(st.st_mode):
                data = b'->' + os.readlink(p).encode()
            else:
                data = b''
            s.files[rb + f] = (stat.S_IMODE(st.st_mode), (st.st_ino), data)
    return s


def restore(root, s):
    if os.path.isdir(root):
        for base, dirs, files in os.walk(root, topdown=False):
            for f in files:
                os.unlink(os.path.join(base, f))
            for d in dirs:
                os.rmdir(os.path.join(base, d))
    else:
        os.makedirs(root)
    for d in sorted(s.dirs):
        os.mkdir(os.path.join(root, d))
        os.chmod(os.path.join(root, d), s.dirs[d])
    first = {}
    for rel, (mode, g, data) in s.files.items():
        p = os.path.join(root, rel)
        if g in first:
            os.link(first[g], p)
            continue
        fd = os.open(p, os.O_WRONLY | os.O_CREAT | os.O_EXCL, 0o600)
        os.fchmod(fd, mode)
        if data:
            os.write(fd, data)
        os.close(fd)
        first[g] = p


_cleanup = []


def _rm():
    for pid, d in list(_cleanup):
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)


atexit.register(_rm)


def scratch(tag='w'):
    """A private scratch directory, removed when this process ends"""
    base = os.environ.get('MC_SCRATCH') or SHM
    d = os.path.join(base, 'mc.%d.%s' % (os.getpid(), tag))
    n = 0
    while True:
        try:
            os.mkdir(d + (str(n) if n else ''))
            break
        except FileExistsError:
            n += 1
    d = d + (str(n) if n else '')
    _cleanup.append((os.getpid(), d))
    return d



def config(silodir, prefix='file://ex/', id_bits=128, max_size='15k', sort_size=None, basename='%08u.warc.gz', extra=''):
    t = 'WARC-Record-ID:\n\t%s%s\n\n' % (prefix, '\t%d' % id_bits if id_bits is not None else '')
    t += 'warcinfo.body:\n\tdescription:\tmodel checked archive\n\n'
    t += 'silo.directory:\n\t%s\n\n' % silodir
    if max_size is not None:
        t += 'silo.max_size:\n\t%s\n\n' % max_size
    if basename is not None:
        t += 'silo.basename:\n\t%s\n\n' % basename
    if sort_size is not None:
        t += 'index.sort_size:\n\t%s\n\n' % sort_size
    t += 'resource.mime-types:\n\tapplication/octet-stream\n\ttext/plain\n\tapplication/x-mtree\n\n'
    t += 'metadata.mime-types:\n\ttext/plain\n\tapplication/json\n\n'
    return t + extra


class Arch:
    """A scratch archive: <dir>/s/ is the silo directory, <dir>/conf its configuration"""

    def __init__(self, srv, tag='a', **kw):
        self.srv = srv
        self.dir = scratch(tag)
        self.silo = self.dir + '/s'
        self.confpath = self.dir + '/conf'
        os.mkdir(self.silo)
        self.configure(**kw)

    def configure(self, **kw):
        self.kw = dict(kw)
        self.prefix = kw.get('prefix', 'file://ex/')
        self.id_len = (kw.get('id_bits', 128) or 128) // 4
        with open(self.confpath, 'w') as f:
            f.write(config(self.silo + '/', **kw))

    def reset(self):
        restore(self.silo, Snap())

    def snap(self):
        return snapshot(self.silo)

    def snap_names(self):
        return [os.path.relpath(os.path.join(b, f), self.silo) for b, _, fs in os.walk(self.silo) for f in fs]

    def restore(self, s):
        restore(self.silo, s)

    def proc(self, *args, **kw):
        return Proc(['aardwarc', '-c', self.confpath, *args], **kw)

    def run(self, procs, **kw):
        kw.setdefault('root', self.silo)
        return self.srv.run(procs, cwd=self.dir, **kw)

    def op(self, *args, trace=0, timeout=10000, **kw):
        """One operation, run alone"""
        return self.run([self.proc(*args, **kw)], trace=trace, timeout=timeout)[0]

    def store(self, data, *opts, **kw):
        return self.op('store', *opts, stdin=data, **kw)

    def must(self, *args, **kw):
        """An operation on the way to the state wanted, which has to succeed"""
        r = self.op(*args, **kw)
        if not r.ok():
            raise SetupFailed(f'{" ".join(map(str, args))} ends with {r.status()}: {r.err[-200:]!r}')
        return r

    def must_store(self, data, *opts, **kw):
        return self.must('store', *opts, stdin=data, **kw)

    def meta(self, ref, data, *opts, mime='text/plain', **kw):
        return self.op('store', '-t', 'metadata', '-m', mime, '-r', ref, *opts, stdin=data, **kw)

    def get(self, rid, *opts, **kw):
        return self.op('get', *opts, rid, **kw)
