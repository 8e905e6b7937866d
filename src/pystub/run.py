"""Runs select_silos.py: run.py SCRIPT SCRATCH NOW

The clock stands at NOW, and nothing outside SCRATCH can be changed."""
import sys, os, time
here = os.path.dirname(os.path.abspath(__file__))
script, scratch, now = sys.argv[1:4]
sys.path.insert(0, here)
del sys.argv[2:], sys.argv[0]
import shutil, math
import cryptography.hazmat.primitives.ciphers, cryptography.hazmat.primitives.hashes, cryptography.hazmat.primitives.hmac, cryptography.hazmat.backends
with open(script, 'rb') as f:
    code = compile(f.read(), script, 'exec')
time.time = lambda: float(now)


def inside(p):
    if not isinstance(p, int):
        p = os.path.abspath(os.fsdecode(p))
        if p != scratch and not p.startswith(scratch + '/') and p != '/dev/null':
            raise PermissionError(13, 'outside of the scratch directory', p)


WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC


def hook(event, args):
    if event == 'open':
        if args[2] & WRITES:
            inside(args[0])
    elif event in ('os.remove', 'os.rmdir', 'os.mkdir', 'os.chmod', 'os.truncate', 'shutil.rmtree', 'os.chown', 'os.utime'):
        if args[0] is not None and (os.path.isabs(os.fsdecode(args[0])) if not isinstance(args[0], int) else False or args[-1] in (-1, None)):
            inside(args[0])
    elif event in ('os.rename', 'os.link', 'os.symlink'):
        inside(args[0])
        inside(args[1])
    elif event in ('os.system', 'os.exec', 'os.posix_spawn', 'os.spawn', 'os.fork', 'subprocess.Popen', 'os.kill', 'socket.connect'):
        raise PermissionError(event)


sys.addaudithook(hook)
exec(code, {'__name__': '__main__', '__file__': script, '__builtins__': __builtins__})
