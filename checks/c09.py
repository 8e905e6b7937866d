"""C09: concurrent stores and reads do not interfere."""
from mc import sched
from mc.conc import make

LEVEL = 'exploration'
RULE = 'all interleavings of the system calls of the processes of a scenario with up to the stated number of preemptions, preempting before calls on shared objects; distinct: outcomes (archive, outputs, exit statuses)'
TECHNIQUE = 'stateless model checking of the implementation: preemption-bounded exhaustive exploration of the interleavings of real processes at system-call granularity, replayed from their schedules'
ASSUMPTIONS = ['system calls are atomic with respect to each other', 'the number of preemptions is bounded']
N, S, D = ['store', 'r400.n'], ['store', 'r7100.n'], ['store', 't500.y']
S2 = ['store', 'r6900.p']
SC = {
    'ss-empty': ('empty', [N, D]), 'ss-one': ('one', [N, D]), 'same-one': ('one', [N, N]), 'same-seg': ('one', [S, S]), 'segs-empty': ('empty', [S, S2]),
    'segs-one': ('one', [S, N]), 'dup': ('one', [['store', 'r300.a'], N]), 'get-old': ('one', [N, ['get', 'r300.a']]), 'get-new': ('one', [N, ['get', 'r400.n']]),
    'get-newseg': ('empty', [S, ['get', 'r7100.n']]), 'getz-newseg': ('one', [S, ['get', 'r7100.n', '-z']]), 'get-oldseg': ('seg', [S, ['get', 'r7000.d']]),
    'filter': ('one', [S, ['filter']]), 'meta': ('one', [['meta', 'r300.a', 'r200.q'], N]), 'metameta': ('one', [['meta', 'r300.a', 'r200.q'], ['meta', 'r300.a', 'r200.q']]),
    'full': ('full', [N, D]), 'ro': ('ro', [N, D]), 'gap': ('gap', [S, S2]), 'nocache': ('nocache', [N, D]), 'mksilo': ('one', [N, ['run', 'mksilo', '1']]), 'held': ('held', [N, D]),
    'tight': ('one', [['store', 'r1100.n'], ['store', 'r1200.p']]), 'tight2': ('one', [['store', 'r2100.n'], N]),
    'audit': ('one', [N, ['run', 'audit']]),
}
SC15 = {'page': ('one', [['store', 'r5000.n'], N]), 'pages': ('one', [['store', 'r5000.n'], ['store', 'r6000.p']])}
SC3 = {'3-one': ('one', [N, D, ['store', 'r350.w']]), '3-empty': ('empty', [N, D, S]), '3-same': ('one', [N, N, N]), '3-get': ('one', [N, D, ['get', 'r400.n']])}
NP = {}
for n, (b, o) in {**SC, **SC3}.items():
    NP[n] = make('c09-' + n, b, o)
for n, (b, o) in SC15.items():
    NP[n] = make('c09-' + n, b, o, conf=1)


# preemptions explored by the quick check where it is not 1; the thorough check explores one more than that
P = {'ss-empty': 2, 'ss-one': 2, 'dup': 2, 'get-old': 2, 'mksilo': 2, 'get-new': 2, 'get-newseg': 2, 'getz-newseg': 2, 'get-oldseg': 2, 'filter': 2, 'meta': 2, 'audit': 2, '3-empty': 0, '3-same': 0, '3-get': 0}


def check(ctx):
    for n in [*SC, *SC15, *SC3]:
        sched.explore(ctx, 'c09-' + n, ctx.n(P.get(n, 1), P.get(n, 1) + 1), NP[n])
