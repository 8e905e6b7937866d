"""Builds what the checks run, from /repo's current working tree.

Nothing is written into /repo.  The binaries are cached in /verif/.build under
a hash of every input, so a change to any source file of /repo rebuilds them.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

CFLAGS = ['-std=gnu99', '-include', os.path.join(VERIF, 'src/freebsd.h'),
          '-DLIBBSD_NETBSD_VIS', '-isystem', '/usr/include/x86_64-linux-gnu/bsd',
          '-DLIBBSD_OVERLAY', '-DGITREV="mcfixed"', '-w']


class BuildError(Exception):
    pass


def sources():
    """The program's .c files, as its Makefile lists them."""
    srcs = []
    try:
        for line in open(os.path.join(REPO, 'Makefile')):
            m = re.match(r'\s*SRCS\s*\+?=\s*(.*)', line)
            if m:
                srcs += [x for x in m.group(1).split() if x.endswith('.c')]
    except OSError:
        pass
    have = [s for s in srcs if os.path.exists(os.path.join(REPO, s))]
    if 'main.c' not in have:
        have = sorted(os.path.basename(p) for p in glob.glob(REPO + '/*.c') if not p.endswith('ident.c'))
    return have


def _hash(files, extra):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:20]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-3000:])


class _Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _publish(tmp, dst):
    os.rename(tmp, dst)


def tool(name, flags=('-O2', '-static')):
    """One of our own helpers, /verif/src/<name>.c"""
    src = os.path.join(VERIF, 'src', name + '.c')
    key = _hash([src], flags)
    out = os.path.join(BUILD, f'{name}-{key}')
    if os.path.exists(out):
        return out
    with _Lock():
        if not os.path.exists(out):
            _run(['gcc', *flags, '-w', '-o', out + '.tmp', src])
            _publish(out + '.tmp', out)
    return out


def _prune(prefix, keep):
    """old builds of the same kind are not needed again"""
    olds = sorted((p for p in glob.glob(os.path.join(BUILD, prefix + '-*')) if p not in keep),
                  key=os.path.getmtime)
    for p in olds[:-6]:
        shutil.rmtree(p, ignore_errors=True)


def _compile(outdir, srcs, flags, extra_objs_src=()):
    os.makedirs(outdir)
    objs = []

    def one(job):
        s, o = job
        _run(['gcc', '-c', *flags, *CFLAGS, '-I', REPO, '-o', o, s])

    jobs = []
    for s in srcs:
        o = os.path.join(outdir, s[:-2].replace('/', '_') + '.o')
        jobs.append((os.path.join(REPO, s), o))
        objs.append(o)
    for s in extra_objs_src:
        o = os.path.join(outdir, 'x_' + os.path.basename(s)[:-2] + '.o')
        jobs.append((s, o))
        objs.append(o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    return objs


WRAP = ['-Wl,--wrap=time', '-Wl,--wrap=gettimeofday', '-Wl,--wrap=clock_gettime']


def aardwarc(kind='plain'):
    """kind: plain (static, fixed clock), asan (address+undefined sanitizer)"""
    srcs = sources()
    fixtime = os.path.join(VERIF, 'src/fixtime.c')
    deps = glob.glob(REPO + '/*.[ch]') + [os.path.join(REPO, 'Makefile'), fixtime,
                                        os.path.join(VERIF, 'src/freebsd.h'), os.path.abspath(__file__)]
    key = _hash([d for d in deps if os.path.isfile(d)], (kind, srcs))
    outdir = os.path.join(BUILD, f'aw-{kind}-{key}')
    exe = os.path.join(outdir, 'aardwarc')
    if os.path.exists(exe):
        os.utime(outdir)
        return exe
    with _Lock():
        if os.path.exists(exe):
            return exe
        tmp = outdir + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        if kind == 'asan':
            fl = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=alignment', '-fno-omit-frame-pointer']
            objs = _compile(tmp, srcs, fl, [fixtime])
            _run(['gcc', *fl, *WRAP, '-o', tmp + '/aardwarc', *objs,
                  '-Wl,--no-as-needed', '-lbsd', '-lmd', '-lm', '-lz'])
        else:
            objs = _compile(tmp, srcs, ['-O1'], [fixtime])
            libs = ['-Wl,--no-as-needed', '-lbsd', '-lmd', '-lm', '-lz']
            try:
                _run(['gcc', '-static', *WRAP, '-o', tmp + '/aardwarc', *objs, *libs])
            except BuildError:
                _run(['gcc', *WRAP, '-o', tmp + '/aardwarc', *objs, *libs])
        for o in objs:
            os.unlink(o)
        shutil.rmtree(outdir, ignore_errors=True)
        _publish(tmp, outdir)
        _prune('aw-' + kind, {outdir})
    return exe


if __name__ == '__main__':
    print(tool('mcrun'))
    print(aardwarc())
