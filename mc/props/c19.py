"""Readers do not disturb each other: all interleavings of concurrent queries and of open iterations."""
import itertools
from .. import core, ref, sched
from ..impl import build, make, split, part, alternate, kind_name, KIND, S, read, all_configs, is_storage

PROPERTY = 'C19'
BOUND = ('two threads, each with one query (read, slice, conversion, copy, listing, comparison, comparison with a list, text) on the same 2x2 array, on the same slice of an array, or on arrays of '
         '2x2 and 3x2, in 9 formats and mappings, every pair of queries in a few of them: every schedule with one preemption at the first visit of every source line, also for arrays of 1, 3 and 4 dimensions and of up to 17 elements (thorough: first '
         'and last visits; for single reads and slices also at every bytecode, and with two preemptions); every merge of the steps of two open iterations')
ASSUMPTIONS = ['threads switch between source lines (bytecodes in thorough) of the package; single bytecodes are atomic, as under the GIL']

CFGS = [('Strided',), ('COO',), ('FlatCOO',), ('CSR',), ('DM', (1, 0), (1,), 'Strided'), ('DM', (1, 0), (1,), 'COO'),
        ('DM', (0, 1), (1,), 'CSR'), ('DM', (1, 0), (), 'FlatCOO'), ('DM', (1, 0), (1,), ('DM', (1, 0), (), 'Strided'))]


def table_of(x):
    if not is_storage(x):
        return x
    return kind_name(x), tuple(x.shape), [(i, v) for i, v in read(x, tuple(x.shape)).items()]


# what the two threads do: (name, first, second); the arrays that they return are read after both have ended
OPS = [
    ('x[1, 1], x[-1, 0]', lambda x: (x[1, 1], x[-1, 0]), lambda x: (x[0, 1], x[1, 0], x[-2, -2])),
    ('x[::-1, 1:]', lambda x: x[::-1, 1:], lambda x: x[:, ::-1]),
    ('x[1]', lambda x: x[1], lambda x: x[:, 0]),
    ('list(x.elements()), x.size', lambda x: (list(x.elements()), x.size), None),
    ('x.as_FlatCOO()', lambda x: x.as_FlatCOO(unspecified=-1), None),
    ('x.as_COO()', lambda x: x.as_COO(), None),
    ('x.as_CSR()', lambda x: x.as_CSR(), None),
    ('x.copy()', lambda x: x.copy(), None),
    ('x.equal(x.copy())', lambda x: bool(x.equal(x.copy())), None),
    ('str(x)', lambda x: str(x), None),
    ('x.as_DM(dimensions=(1, 0))', lambda x: x.as_DM(dimensions=(1, 0), partitioning=(1,)), None),
    ('x.equal([[0, None], [2, 3]])', lambda x: bool(x.equal([[0, None], [2, 3]])), None),
    ('x == x.copy(), repr(x)', lambda x: (x == x.copy(), repr(x)), None),
    ('list(x), x.is_full()', lambda x: ([table_of(y) for y in x], x.is_full()), None),
]
LIGHT = (0, 1, 2, 3, 7, 9)


def space(tier):
    """(format of the first array, of the second one or None when there is one, operations)"""
    n = len(OPS)
    for k, cfg in enumerate(CFGS):
        # a slice of an array, every query against itself and against the listing
        for a in range(n):
            heavy = a not in LIGHT
            if tier != 'quick' or (a + k) % (5 if heavy else 3) == 0 or (a == 3 and cfg[0] == 'DM'):
                yield ('view', cfg), None, a, a
                if a != 3 and not heavy:
                    yield ('view', cfg), None, a, 3
        other = CFGS[(k + 2) % len(CFGS)]
        if tier == 'quick':
            for a in range(n):
                heavy = a not in LIGHT
                if not heavy or a % 4 == k % 4:
                    yield cfg, None, a, a
                if a % 4 == (k + 2) % 4 or (not heavy and a % 2 == k % 2):
                    yield cfg, other if k % 2 else cfg, a, a
            # every pair of different operations on the same array, in a few of the formats
            for a, b in itertools.combinations(range(n), 2):
                if (a * n + b) % len(CFGS) in (k, (k + 4) % len(CFGS)):
                    yield cfg, None, a, b
        else:
            for a in range(n):
                for b in range(n):
                    if a in LIGHT or b in LIGHT or a == b:
                        yield cfg, None, a, b
                yield cfg, cfg, a, a
                yield cfg, other, a, a


def started(cfg, seq):
    """the array, or a slice with its elements of a larger one"""
    if cfg[0] != 'view':
        return build(cfg, seq)
    if not isinstance(seq[0], list):
        return build(cfg[1], ['z'] + seq[::-1])[:0:-1]
    shape = ref_shape(seq)
    big = [bigger(row) for row in seq] + [ref.nested(shape[1:-1] + (shape[-1] + 1,), lambda i: 'y')]
    return build(cfg[1], big)[(slice(None, -1),) + (slice(None),) * (len(shape) - 2) + (slice(None, 0, -1),)]


def ref_shape(seq):
    return (len(seq),) + ref_shape(seq[0]) if isinstance(seq, list) else ()


def bigger(seq):
    return [bigger(v) for v in seq] if isinstance(seq[0], list) else ['z'] + seq[::-1]


def two_space():
    """small scenarios"""
    for k, cfg in enumerate(CFGS):
        yield cfg, None, 0, 0
        yield cfg, None, 0, 1
        yield cfg, None, 2, 2
        yield cfg, CFGS[(k + 2) % len(CFGS)], 0, 0
        yield cfg, cfg, 2, 1


# arrays of other numbers of dimensions, and longer ones

def rest(x, item):
    return (slice(None),) * (len(x.shape) - 1) + (item,)


OPS2 = [
    ('elements of x', lambda x: [x[c if len(c) > 1 else c[0]] for c in (tuple(n - 1 for n in x.shape), (-1,) * len(x.shape))],
     lambda x: [x[c if len(c) > 1 else c[0]] for c in ((0,) * len(x.shape), tuple(n - 2 for n in x.shape))]),
    ('x[..., 1:]', lambda x: x[rest(x, slice(1, None))], lambda x: x[rest(x, slice(None, None, -1))]),
    ('x[1]', lambda x: x[1], lambda x: x[rest(x, -1)]),
    ('list(x.elements()), x.size', lambda x: (list(x.elements()), x.size), None),
    ('x.copy()', lambda x: x.copy(), None),
    ('x.as_FlatCOO()', lambda x: x.as_FlatCOO(unspecified=-1), None),
    ('x.as_COO()', lambda x: x.as_COO(), None),
    ('x.as_DM(), reversed', lambda x: x.as_DM(dimensions=tuple(range(len(x.shape)))[::-1], partitioning=(1,) if len(x.shape) > 1 else ()), None),
    ('x.equal(x.copy())', lambda x: bool(x.equal(x.copy())), None),
    ('str(x)', lambda x: str(x), None),
]
SHAPES2 = {(17,): [('Strided',), ('FlatCOO',)], (9,): [('COO',), ('DM', (0,), (), 'COO')],
           (2, 5): [('Strided',), ('FlatCOO',), ('CSR',), ('DM', (1, 0), (1,), 'COO')],
           (2, 2, 2): [('Strided',), ('COO',), ('FlatCOO',), ('DM', (2, 0, 1), (1,), 'Strided'), ('DM', (1, 0, 2), (1, 2), 'COO'), ('DM', (2, 1, 0), (2,), 'CSR')],
           (2, 1, 2, 2): [('FlatCOO',), ('DM', (2, 0, 3, 1), (1,), 'COO')]}


def shape_space(tier):
    k = 0
    for shape, cfgs in SHAPES2.items():
        for cfg in cfgs:
            for a in range(len(OPS2)):
                k += 1
                for c, b in ((cfg, a), (('view', cfg), a), (cfg, (a + k) % len(OPS2))):
                    if tier != 'quick' or (b == a and a < 4 and k % 2 == (c is cfg)) or k % 4 == 0:
                        yield shape, c, a, b


def jobs(tier):
    k = 64 if tier == 'quick' else 256
    js = split('threads', k, tier=tier) + split('iterators', 8, tier=tier) + split('shapes', k, tier=tier)
    if tier != 'quick':
        js += split('opcodes', 45, tier=tier) + split('two', 45, tier=tier)
    return js


def run_job(job, ctx):
    sched.save_modules()
    leg = job['leg']
    if leg == 'iterators':
        for args in part(iter_space(), job):
            iterators(ctx, *args)
        return
    if leg == 'shapes':
        for shape, cfg, a, b in part(shape_space(job['tier']), job):
            threads(ctx, cfg, None, a, b, 1, False, 0, OPS2, shape)
        return
    for cfg, cfg2, a, b in part(space(job['tier']) if leg == 'threads' else two_space(), job):
        threads(ctx, cfg, cfg2, a, b, 2 if leg == 'two' else 1, leg == 'opcodes',
                {'threads': 0 if job['tier'] == 'quick' else 1, 'two': 0, 'opcodes': None}[leg])


def threads(ctx, cfg, cfg2, a, b, bound, opcodes, visits, OPS=OPS, s1=(2, 2)):
    s2 = s1 if cfg2 is None else (3, 2)
    seq1, seq2 = make(s1, alternate(s1))[0], make(s2, alternate(s2, 4, 2))[0]
    fa, fb = OPS[a][1], OPS[b][2] or OPS[b][1]
    alone = [table_of(fa(started(cfg, seq1))), table_of(fb(started(cfg2 or cfg, seq2 if cfg2 else seq1)))]

    def bodies():
        x = started(cfg, seq1)
        y = x if cfg2 is None else started(cfg2, seq2)
        return [lambda: fa(x), lambda: fb(y)]

    def check(run, first, pre):
        ctx.case('x = %r.fromobject(%r)' % (cfg, seq1), '' if cfg2 is None else 'the second thread works on %r.fromobject(%r)' % (cfg2, seq2),
                 'threads: %s || %s' % (OPS[a][0], OPS[b][0]), 'starts with thread %d, switches at (step, to thread) %r' % (first, pre))
        for k in (0, 1):
            kind, v = run.results[k]
            ctx.check(kind == 'value', 'thread %d %s %s', k, kind, v)
            ctx.same(table_of(v), alone[k], 'thread %d', k)
        ctx.transitions += run.step
        ctx.traces += 1
        ctx.state((cfg, cfg2, s1, a, b, first, pre, opcodes))
        ctx.outcome((cfg, a, b, run.step))

    same = fa is fb and cfg2 is None
    try:
        sched.explore(bodies, check, bound, opcodes, visits, (0,) if same else None)
    except sched.Stuck:
        ctx.fail('the threads do not finish')


# -------------------------------------------------------- open iterations

ITERS = [('elements', lambda x: x.elements()), ('iteration', lambda x: (table_of(v) for v in x))]
BETWEEN = [('nothing', lambda x: None), ('x[1:]', lambda x: table_of(x[1:])), ('list(x.elements())', lambda x: list(x.elements())),
           ('x.as_COO()', lambda x: table_of(x.as_COO())), ('x[0, 0]', lambda x: x[0, 0])]


def iter_space():
    for cfg in CFGS:
        for cfg2 in (cfg, CFGS[(CFGS.index(cfg) + 1) % len(CFGS)]):
            for i, j in itertools.product(range(2), repeat=2):
                for q in range(len(BETWEEN)):
                    yield cfg, cfg2, i, j, q


def iterators(ctx, cfg, cfg2, i, j, q):
    s1, s2 = (2, 2), (2, 2) if cfg == cfg2 else (3, 1)
    seq1 = make(s1, alternate(s1))[0]
    seq2 = seq1 if cfg == cfg2 else make(s2, alternate(s2, 4, 2))[0]
    x0, y0 = build(cfg, seq1), build(cfg2, seq2)
    a0, b0, q0 = list(ITERS[i][1](x0)), list(ITERS[j][1](y0)), BETWEEN[q][1](x0)
    n, m = len(a0), len(b0)
    for pick in itertools.combinations(range(n + m), n):
        sched.reset_modules()
        x = build(cfg, seq1)
        y = x if cfg == cfg2 else build(cfg2, seq2)
        ia, ib = ITERS[i][1](x), ITERS[j][1](y)
        a, b = [], []
        ctx.case('x = %r.fromobject(%r)' % (cfg, seq1), 'y = ' + ('x' if cfg == cfg2 else '%r.fromobject(%r)' % (cfg2, seq2)),
                 'steps %r of %d go to the %s of x, others to the %s of y, %s after each step' % (
                     pick, n + m, ITERS[i][0], ITERS[j][0], BETWEEN[q][0]))
        for k in range(n + m):
            (a.append(next(ia)) if k in pick else b.append(next(ib)))
            ctx.same(BETWEEN[q][1](x), q0, 'query between the steps')
            ctx.transitions += 2
        a += list(ia)
        b += list(ib)
        ctx.same(a, a0, 'first iteration')
        ctx.same(b, b0, 'second iteration')
        ctx.traces += 1
        ctx.state((cfg, cfg2, i, j, q, pick))
    # an abandoned iteration changes nothing
    for k in range(n):
        x = build(cfg, seq1)
        it = ITERS[i][1](x)
        for _ in range(k):
            next(it)
        it.close()
        ctx.case('x = %r.fromobject(%r)' % (cfg, seq1), '%s closed after %d steps' % (ITERS[i][0], k))
        ctx.same(list(ITERS[i][1](x)), a0, 'iteration after an abandoned one')
        ctx.transitions += 1
