"""Objects in very many segments"""
import resource, sys
from .gen import gen
from . import hist, warc

sys.setrecursionlimit(20000)
MAX = 1600
LENGTHS = [*range(2, 41), *range(62, 68), *range(97, 104), *range(126, 131), *range(254, 260), 300, 401]
# one file each is held open
if min(x for x in (*resource.getrlimit(resource.RLIMIT_NOFILE), 1 << 20) if x > 0) >= 2048:
    LENGTHS.append(1005)


def per(w, a):
    """bytes in a segment"""
    a.reset()
    a.must_store(gen('r20000.x'))
    v = warc.View(a.snap(), a)
    (o,), = v.objs.values()
    return sum(len(g.body) for g in o.segs[1:-1]) // (len(o.segs) - 2)


def make(w, a, n, first=None, letter='x'):
    """store an object in n segments -> its spec"""
    p = per(w, a)
    a.reset()
    if first:
        a.must('mksilo', str(first))
    # the first segment has more headers
    return f'r{p * n - p // 2 - 40}.{letter}'


def cases(ctx, most=10**9):
    """numbers of segments, and the silos they start at"""
    out = [dict(n=n, first=None) for n in (LENGTHS if ctx.quick else range(2, 420)) if n <= most]
    out += [dict(n=n, first=f) for n in (12, 41, 130) for f in (93, 9985) if n <= most]
    # the long ones first
    return sorted(out, key=lambda c: -c['n'])


def make_more(spec, letter):
    """another object of that size"""
    return spec[:-1] + letter
