"""Writers to different elements do not disturb each other: all interleavings of concurrent assignments."""
import itertools
from .. import core, ref, sched
from .c12 import slice_tree, tree_of
from ..impl import build, make, split, part, alternate, KIND, read, dense

PROPERTY = 'C25'
BOUND = ('two threads that assign different elements of one array, directly or through two slices made before, or one that assigns and one that '
         'reads, in 11 formats and mappings of 2x3 elements and 12 of 14 and 2x2x2: every schedule with one preemption, at the first visit of every source line '
         '(thorough, for 2x3: at every visit and at every bytecode, with two preemptions, and with two writers and a reader)')
ASSUMPTIONS = ['threads switch between source lines (bytecodes in thorough) of the package; single bytecodes are atomic, as under the GIL']

CFGS = [('Strided',), ('COO',), ('FlatCOO',), ('CSR',), ('DM', (1, 0), (1,), 'Strided'), ('DM', (1, 0), (1,), 'COO'), ('DM', (0, 1), (1,), 'CSR'),
        ('DM', (1, 0), (), 'FlatCOO'), ('DM', (0, 1), (), 'Buffer'), ('DM', (1, 0), (1,), ('DM', (1, 0), (), 'Strided')),
        ('DM', (1, 0), (1,), ('DM', (0, 1), (1,), 'COO'))]
SHAPE = (2, 3)
MORE = {(14,): [('Strided',), ('COO',), ('FlatCOO',), ('DM', (0,), (), 'Buffer'), ('DM', (0,), (), 'FlatCOO')],
        (2, 2, 2): [('Strided',), ('COO',), ('FlatCOO',), ('DM', (2, 0, 1), (1,), 'Strided'), ('DM', (1, 2, 0), (2,), 'CSR'), ('DM', (2, 1, 0), (1, 2), 'COO'),
                    ('DM', (0, 2, 1), (1,), ('DM', (1, 0), (1,), 'Strided'))]}
R = slice(None)
ROWS = ((0, R), (1, R))


def w(index, values, shape=SHAPE):
    """an assignment; values: one per selected element"""
    sh, m = ref.select(shape, index)
    new = dict(zip(m.values(), values))
    val = values[0] if sh == () else ref.nested(sh, lambda i: new[m[i]])
    return index, val, new


def through(view, index, values, shape=SHAPE):
    """assignment to an element or slice of a slice"""
    vs, vm = ref.select(shape, view)
    sh, m = ref.select(vs, index)
    new = {vm[p]: v for p, v in zip(m.values(), values)}
    val = values[0] if sh == () else ref.nested(sh, lambda i: new[vm[m[i]]])
    return (view, index), val, new


def writes(shape=SHAPE):
    if shape == (14,):
        yield 'x[3] = || x[12] =', w((3,), [10], shape), w((-2,), [20], shape)
        yield 'x[::2] = || x[-1::-2] =', w((slice(0, None, 2),), list(range(10, 17)), shape), w((slice(None, None, -2),), list(range(20, 27)), shape)
        yield 'u = x[:6]; v = x[6:]; u[::-1] = || v[0] =', through((slice(0, 6),), (slice(None, None, -1),), list(range(10, 16)), shape), through((slice(6, None),), (0,), [20], shape)
        return
    if shape == (2, 2, 2):
        yield 'x[0, 0, 1] = || x[1, 1, 0] =', w((0, 0, 1), [10], shape), w((1, -1, 0), [20], shape)
        yield 'x[0] = || x[1, ::-1] =', w((0, R, R), [10, 11, 12, 13], shape), w((1, slice(None, None, -1), R), [20, 21, 22, 23], shape)
        yield 'x[:1] = || x[1:] =', w((slice(0, 1), R, R), [10, 11, 12, 13], shape), w((slice(1, 2), R, R), [20, 21, 22, 23], shape)
        yield 'x[:, 1:] = || x[::-1, :1] =', w((R, slice(1, 2), R), [10, 11, 12, 13], shape), w((slice(None, None, -1), slice(0, 1), R), [20, 21, 22, 23], shape)
        yield 'x[:, 0, 1] = || x[..., 0] =', w((R, 0, 1), [10, 11], shape), w((R, R, 0), [20, 21, 22, 23], shape)
        yield 'u = x[:, ::-1]; v = x[..., ::-1]; u[0, 0] = || v[1, :, 0] =', through((R, slice(None, None, -1), R), (0, 0, R), [10, 11], shape), through((R, R, slice(None, None, -1)), (1, R, 0), [20, 21], shape)
        return
    yield 'x[0, 0] = || x[1, 2] =', w((0, 0), [10]), w((1, 2), [20])
    yield 'x[0, 1] = || x[1, 1] =', w((0, 1), [10]), w((-1, -2), [20])
    yield 'x[0, :] = || x[1, :] =', w((0, R), [10, 11, 12]), w((1, R), [20, 21, 22])
    yield 'x[:, 0:2] = || x[:, 2] =', w((R, slice(0, 2)), [10, 11, 12, 13]), w((R, 2), [20, 21])
    yield 'x[:, ::2] = || x[:, ::-2][..., 1::2]', w((R, slice(0, 3, 2)), [10, 11, 12, 13]), w((slice(None, None, -1), slice(1, 2)), [20, 21])
    yield 'u = x[0]; v = x[1]; u[1:] = || v[::-1] =', through((0, R), (slice(1, None),), [10, 11]), through((1, R), (slice(None, None, -1),), [20, 21, 22])
    yield 'u = x[:, ::2]; v = x[:, 1]; u[0, 1] = || v[1] =', through((R, slice(None, None, 2)), (0, 1), [10]), through((R, 1), (1,), [20])
    yield 'u = x[::-1]; u[0] = || x[0, 1:] =', through((slice(None, None, -1), R), (0, R), [10, 11, 12]), w((0, slice(1, None)), [20, 21])


def space(tier):
    for n, cfg in enumerate(CFGS):
        for k, (text, a, b) in enumerate(writes()):
            for kind in ('write', 'read'):
                if tier == 'quick' and kind == 'read' and k % 4 != n % 4:
                    continue
                if all(shares(cfg, i) for i in (a[0], b[0])):
                    yield cfg, kind, k, SHAPE
    if tier == 'three':
        return
    for shape, cfgs in MORE.items():
        for n, cfg in enumerate(cfgs):
            for k, (text, a, b) in enumerate(writes(shape)):
                for kind in ('write', 'read'):
                    if (tier != 'quick' or kind == 'write' or k % 4 == n % 4) and all(shares(cfg, i) for i in (a[0], b[0])):
                        yield cfg, kind, k, shape


def shares(cfg, index):
    return not isinstance(index[0], tuple) or slice_tree(tree_of(cfg), [isinstance(i, int) for i in index[0]])[0]


def jobs(tier):
    k = 48 if tier == 'quick' else 176
    js = split('lines', k, tier=tier)
    if tier != 'quick':
        js += split('opcodes', k, tier=tier) + split('two', k, tier=tier) + split('three', 44, tier=tier)
    return js


def target(x, index):
    """(array to assign to, index); slices are made beforehand"""
    if isinstance(index[0], tuple):
        return x[index[0]], index[1] if len(index[1]) > 1 else index[1][0]
    return x, index


def run_job(job, ctx):
    sched.save_modules()
    leg = job['leg']
    for cfg, kind, k, shape in part(space('three' if leg in ('three', 'two') else job['tier']), job):
        if leg == 'three':
            if kind == 'write':
                explore(ctx, cfg, 'both', k, 1, False, 0, shape)
            continue
        if leg == 'opcodes' and shape != SHAPE:
            continue
        explore(ctx, cfg, kind, k, 2 if leg == 'two' else 1, leg == 'opcodes',
                {'lines': 0 if job['tier'] == 'quick' else None if shape == SHAPE else 1, 'opcodes': None, 'two': 0}[leg], shape)


def explore(ctx, cfg, kind, k, bound, opcodes, visits, SHAPE):
    text, (ia, va, na), (ib, vb, nb) = list(writes(SHAPE))[k]
    cells = list(itertools.product(*map(range, SHAPE)))
    spec = set(cells) if dense(cfg) else alternate(SHAPE, 4, 3)
    seq, table = make(SHAPE, spec)
    na, nb = ({c: v for c, v in n.items() if dense(cfg) or c in spec} for n in (na, nb))
    want = dict(table)
    want.update(na)
    if kind != 'read':
        want.update(nb)
    box = []
    # what the threads read: what they have written, and one element of the other; few of each
    watched = [list(na)[:1] + list(nb)[:1], list(nb)[-1:] + list(na)[-1:], list(na)[:1] + list(na)[-1:] + (list(nb)[:1] if kind == 'both' else [tuple(n - 1 for n in SHAPE)])]

    def bodies():
        x = build(cfg, seq)
        box[:] = [x]
        ta, tb = target(x, ia), target(x, ib)

        def first():
            ta[0][ta[1]] = va
            return {c: x[c if len(c) > 1 else c[0]] for c in watched[0]}

        def second():
            tb[0][tb[1]] = vb
            return {c: x[c if len(c) > 1 else c[0]] for c in watched[1]}

        def reader():
            return [{c: x[c if len(c) > 1 else c[0]] for c in watched[2]} for _ in range(2)]

        return [first] + ([second] if kind != 'read' else []) + ([reader] if kind != 'write' else [])

    def check(run, start, pre):
        ctx.case('x = %r.fromobject(%r)' % (cfg, seq), text, 'assigned: %r, and %s' % (va, 'reads' if kind == 'read' else repr(vb)),
                 'starts with thread %d, switches at (step, to thread) %r' % (start, pre))
        for n, (res, v) in enumerate(run.results):
            ctx.check(res == 'value', 'thread %d %s %s', n, res, v)
        got = read(box[0], SHAPE)
        ctx.same(got, want, 'contents after both threads have ended')
        # a thread sees what it has written itself; of what the other one writes, the old or the new value
        own = [na, nb] if kind != 'read' else [na]
        for n, mine in enumerate(own):
            other = nb if n == 0 and kind != 'read' else na if n == 1 else {}
            seen(ctx, run.results[n][1], mine, [other], table, 'thread %d' % n)
        if kind != 'write':
            r1, r2 = run.results[-1][1]
            ws = [na] + ([nb] if kind == 'both' else [])
            seen(ctx, r1, {}, ws, table, 'reader')
            seen(ctx, r2, {}, ws, table, 'reader')
            for d in ws:
                for c, v in d.items():
                    if c not in r1:
                        continue
                    ctx.check(not core.same(r1[c], v) or core.same(r2[c], v), 'reader: element %s reads %r and then %r', c, r1[c], r2[c])
        ctx.transitions += run.step
        ctx.traces += 1
        ctx.state((cfg, SHAPE, kind, k, start, pre, opcodes))
        ctx.outcome((cfg, SHAPE, kind, k, tuple(map(repr, run.results))))

    try:
        sched.explore(bodies, check, bound, opcodes, visits)
    except sched.Stuck:
        ctx.fail('the threads do not finish')


def seen(ctx, got, mine, others, table, who):
    for c, v in got.items():
        if c in mine:
            ctx.same(v, mine[c], '%s: element %s that it has assigned', who, c)
        else:
            allowed = [table[c]] + [d[c] for d in others if c in d]
            ctx.check(any(core.same(v, a) for a in allowed), '%s: element %s reads %r, which was never there (%r)', who, c, v, allowed)
