"""Where a run can be interrupted: plans of faults derived from its own trace.

Regular files: a kill during write() takes effect between pages of the file
(what the kernel does), so records that lie within a page are never torn;
hold and temporary files are torn at other places too.
"""
import errno as E

WR = ('write', 'writev', 'pwrite', 'pwritev')


def _base(path):
    p = path[:-10] if path.endswith(' (deleted)') else path
    return p


def _tmpfile(path):
    b = _base(path).rsplit('/', 1)[-1]
    return b.endswith('.hold') or b.startswith('index.tmp') or b.startswith('index.newsort') or b.endswith('.tmp')


def sizes(trace, snap, root):
    """offset of every write in the trace: {step n: offset}, as if all are appended or sequential"""
    cur, out = {}, {}
    for s in trace:
        p = _base(s.p1)
        if s.sc in ('open', 'openat', 'creat') and s.len & 0o1000:
            cur[p] = 0
        elif s.sc in WR and p.startswith(root):
            if p not in cur:
                rel = p[len(root):].lstrip('/')
                cur[p] = len(snap.files[rel][2]) if rel in snap.files else 0
            out[s.n] = cur[p]
            cur[p] += s.len
        elif s.sc in ('ftruncate', 'truncate') and p.startswith(root):
            cur[p] = s.len
        elif s.sc in ('rename', 'link') and s.p2:
            if p in cur:
                cur[_base(s.p2)] = cur[p]
    return out


def tears(s, off, level=2):
    """numbers of bytes after which the write may be cut off (level 1: fewer)"""
    if s.p1.startswith('/memfd') or s.p1.startswith('pipe:') or s.len < 2:
        return []
    t = set()
    k = 4096 - off % 4096
    while k < s.len:
        t.add(k)
        k += 4096
    t = sorted(t)
    if len(t) > 4 or level == 1 and len(t) > 1:
        t = [t[0], t[-1]] if level == 1 else [t[0], t[len(t) // 2], t[-1]]
    if _tmpfile(s.p1) and level == 1:
        t = sorted(set(t) | {s.len - 1})
    elif _tmpfile(s.p1):
        t = sorted(set(t) | {1, s.len // 2, s.len - 1})
    return [x for x in t if 0 < x < s.len]


def crashes(trace, snap, root, proc=0, torn=True):
    """every distinct place to be killed at: before every operation that changes something, and inside writes"""
    out = []
    off = sizes(trace, snap, root)
    for s in trace:
        if s.proc != proc:
            continue
        if s.cls in 'WE':
            out.append((s.op, 'crash', 0))
            if torn and s.sc in WR:
                out += [(s.op, 'torn', n) for n in tears(s, off.get(s.n, 0), torn)]
    return out


ERRS = {
    'open': (E.ENOSPC, E.EIO, E.EMFILE, E.EACCES), 'read': (E.EIO,), 'write': (E.ENOSPC, E.EIO), 'stat': (E.EIO, E.EACCES),
    'link': (E.EIO, E.ENOSPC), 'unlink': (E.EIO,), 'mkdir': (E.ENOSPC, E.EROFS, E.EEXIST), 'mmap': (E.ENOMEM,), 'close': (E.EIO,), 'rename': (E.EIO,),
    'ftruncate': (E.EIO,), 'flock': (E.EINTR,), 'lseek': (), 'chmod': (E.EPERM,), 'fsync': (E.EIO,),
}
KIND = {'open': 'open', 'openat': 'open', 'openat2': 'open', 'creat': 'open', 'read': 'read', 'pread': 'read', 'readv': 'read', 'preadv': 'read',
        'write': 'write', 'writev': 'write', 'pwrite': 'write', 'pwritev': 'write', 'stat': 'stat', 'lstat': 'stat', 'fstat': 'stat', 'fstatat': 'stat',
        'statx': 'stat', 'access': 'stat', 'faccessat': 'stat', 'faccessat2': 'stat', 'link': 'link', 'linkat': 'link', 'symlink': 'link', 'symlinkat': 'link',
        'unlink': 'unlink', 'unlinkat': 'unlink', 'rmdir': 'unlink', 'rename': 'rename', 'renameat': 'rename', 'renameat2': 'rename',
        'mkdir': 'mkdir', 'mkdirat': 'mkdir', 'ftruncate': 'ftruncate', 'truncate': 'ftruncate', 'mmap': 'mmap', 'close': 'close', 'fsync': 'fsync', 'fdatasync': 'fsync',
        'chmod': 'chmod', 'fchmod': 'chmod', 'fchmodat': 'chmod', 'sendfile': 'write', 'copy_file_range': 'write'}


def errors(trace, snap, root, proc=0, persistent=True, only=None, level=2):
    """every call failing in every way it can, once; every write-like call failing from some point on"""
    out = []
    off = sizes(trace, snap, root)
    for s in trace:
        if s.proc != proc:
            continue
        k = KIND.get(s.sc)
        if k is None or (only and not only(s)):
            continue
        es = ERRS[k]
        if k == 'open' and not s.len & 0o100:
            es = [e for e in es if e != E.ENOSPC]
        for e in es:
            out.append((s.op, 'err', e))
        if k == 'write' and s.n in off:
            for n in tears(s, off[s.n], level):
                out.append((s.op, 'short', n))
        elif k == 'write' and s.len > 1 and not s.p1.startswith('pipe:'):
            for n in sorted({1, s.len // 2, s.len - 1}):
                out.append((s.op, 'short', n))
        if k == 'read' and s.len > 1 and s.p1.startswith('/memfd:in'):
            out.append((s.op, 'short', 1))
        if persistent and s.cls == 'W':
            out.append((s.op, 'errall', E.ENOSPC))
        if persistent and k in ('mkdir', 'open', 'link', 'unlink', 'rename', 'mmap', 'read', 'stat'):
            out.append((s.op, 'errsame', ERRS[k][-1] if k != 'mkdir' else E.EROFS))
    return out


def describe(trace, f, proc=0):
    op, kind, n = f
    for s in trace:
        if s.proc == proc and s.op == op:
            p = s.p1.rsplit('/', 1)[-1]
            what = {'crash': 'killed before', 'torn': f'killed after {n} of {s.len} bytes of', 'err': f'{E.errorcode.get(n, n)} from',
                    'short': f'{n} of {s.len} bytes in', 'errall': f'{E.errorcode.get(n, n)} from here on, from', 'errsame': f'{E.errorcode.get(n, n)} from all calls from'}[kind]
            return f'{what} {s.sc}({p}) [op {op}]'
    return f'{kind} {n} at op {op}'
