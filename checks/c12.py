"""C12: housekeeping runs safely beside stores and reads."""
from mc import sched
from mc.conc import make

LEVEL = 'exploration'
RULE = 'all interleavings of the system calls of housekeeping and the other processes of a scenario with up to the stated number of preemptions, preempting before calls on shared objects; distinct: outcomes (archive, outputs, exit statuses)'
TECHNIQUE = 'stateless model checking of the implementation: preemption-bounded exhaustive exploration of the interleavings of real processes at system-call granularity, replayed from their schedules'
NOTE = 'housekeeping beside store (new, duplicate, segmented, metadata), get, get -z, filter, dumpindex, byid, audit, reindex and another housekeeping, from archives with and without sorted part and left-over snapshot; P=2 for the pairs (quick), P=3 (thorough), three processes P=1/2.'
ASSUMPTIONS = ['system calls are atomic with respect to each other', 'the number of preemptions is bounded']

HK, N, DUP, S = ['hk'], ['store', 'r400.n'], ['store', 'r300.a'], ['store', 'r7100.n']
META = ['meta', 'r300.a', 'r200.q']
SC = {}
for b in ('one', 'hk', 'left', 'empty'):
    SC['store-' + b] = (b, [HK, N])
for b in ('two', 'hk', 'left'):
    SC['dup-' + b] = (b, [HK, DUP])
    SC['get-' + b] = (b, [HK, ['get', 'r300.a']])
    SC['hk-' + b] = (b, [HK, HK])
for b in ('mix', 'hk'):
    SC['filter-' + b] = (b, [HK, ['filter']])
    SC['dump-' + b] = (b, [HK, ['run', 'dumpindex']])
SC['getseg'] = ('seg', [HK, ['get', 'r7000.d']])
SC['getz'] = ('hk', [HK, ['get', 't500.b', '-z']])
SC['meta'] = ('one', [HK, META])
SC['seg'] = ('one', [HK, S])
SC['audit'] = ('mix', [HK, ['run', 'audit']])
SC['reindex'] = ('hk', [HK, ['run', 'reindex']])
# three at a time
SC3 = {
    '3-store': ('hk', [HK, N, ['store', 't500.y']]), '3-get': ('hk', [HK, N, ['get', 't500.b']]), '3-hk': ('hk', [HK, HK, N]), '3-dup': ('left', [HK, HK, DUP]),
    '3-filter': ('two', [HK, N, ['filter']]),
}
# an appendix that takes several batches to merge (index.sort_size 4k)
SCB = {}
for b in ('big', 'bigleft'):
    SCB['batch-store-' + b] = (b, [HK, N])
    SCB['batch-dup-' + b] = (b, [HK, DUP])
    SCB['batch-get-' + b] = (b, [HK, ['get', 't500.b']])
    SCB['batch-dump-' + b] = (b, [HK, ['run', 'dumpindex']])
SCB['batch-hk'] = ('big', [HK, HK])
NP = {n: make('c12-' + n, b, o) for n, (b, o) in {**SC, **SC3}.items()}
NP.update({n: make('c12-' + n, b, o, conf=2) for n, (b, o) in SCB.items()})
P = {'reindex': 1, 'batch-store-bigleft': 1, 'batch-dup-bigleft': 1, 'batch-get-bigleft': 1, 'batch-dump-bigleft': 1, 'store-left': 1}


def check(ctx):
    for n in [*SC, *SCB]:
        sched.explore(ctx, 'c12-' + n, ctx.n(P.get(n, 2), P.get(n, 2) + 1), NP[n])
    for n in SC3:
        sched.explore(ctx, 'c12-' + n, ctx.n(1, 2), NP[n])
