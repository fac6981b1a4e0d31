"""Index arithmetic on shape/strides/offset against per-axis Python slicing."""
import itertools
from .. import ref, gen
from ..impl import T, split, part, helper

PROPERTY = 'C02'
BOUND = ('arrays of 1..3 dimensions (sizes 0..3, 1-D up to 5) with C-ordered, permuted, reversed and offset strides; the complete '
         'menu of integers, None and all distinct slices per axis (for arrays of 1 and 2 dimensions and sizes 1..5 every way to write a slice), whole and partial index tuples, two indexing steps in sequence')


NORM = helper(T, 'normalize_index', ('index', 'shape'))
SHAPE = helper(T, 'shape_strided', ('index', 'shape'))
APPLY = helper(T, 'apply_slices', ('slices', 'shape', 'strides'))


def address(shape, strides, offset):
    return {i: offset + sum(a * b for a, b in zip(i, strides)) for i in itertools.product(*map(range, shape))}


def layouts(shape):
    c = ref.cstrides(shape)
    yield c, 0
    if len(shape) > 1:
        for p in itertools.permutations(range(len(shape))):
            q = ref.cstrides(tuple(shape[i] for i in p))
            st = [0] * len(shape)
            for k, i in enumerate(p):
                st[i] = q[k]
            if tuple(st) != c:
                yield tuple(st), 0
    # reversed axes: negative strides and an offset
    yield tuple(-s for s in c), sum(s * max(n - 1, 0) for s, n in zip(c, shape))
    yield tuple(3 * s for s in c), 7


def space(tier):
    for n in (1, 2, 3):
        top = {1: 6, 2: 4, 3: 3}[n] if tier == 'quick' else {1: 8, 2: 5, 3: 4}[n]
        for shape in gen.shapes((n,), range(0, top)):
            for lay in layouts(shape):
                for index in gen.index_menu(shape, 2 if n < 3 or tier != 'quick' else 1):
                    yield shape, lay, index


def wide():
    for shape in ((2, 3, 1, 2), (3, 1, 2, 2, 2), (2,) * 6, (11, 2), (40,)):
        for lay in layouts(shape) if len(shape) < 5 else [(ref.cstrides(shape), 0)]:
            for index in gen.index_menu(shape, 1 if len(shape) < 4 else 0):
                yield shape, lay, index


def partials():
    for shape in gen.shapes((1, 2, 3), range(0, 4)):
        for k in range(len(shape) + 1):
            for index in gen.index_menu(shape[:k], 1):
                yield shape, index
        for item in gen.axis_menu(shape[0], 2):
            yield shape, item        # not a tuple


def jobs(tier):
    k = 24 if tier == 'quick' else 96
    return split('step', k, tier=tier) + split('wide', 16) + split('partial', 8) + split('spelling', 8)


def plain(index, shape):
    return tuple(T.reduced(i, n) if isinstance(i, slice) else i % n if isinstance(i, int) else i
                 for i, n in zip(ref.full_index(index, len(shape)), shape))


def norm(ctx, index, shape):
    if NORM is None:
        return plain(index, shape), ref.select(shape, index)
    r = NORM(index, shape)
    ctx.transitions += 1
    ctx.check(isinstance(r, tuple) and len(r) == len(shape), 'normalized index %r is not complete', r)
    m0, m1 = ref.select(shape, index), ref.select(shape, r)
    ctx.check(m0 == m1, 'normalize_index(%r, %r) = %r selects other elements', index, shape, r)
    for ind, n in zip(r, shape):
        if isinstance(ind, int):
            ctx.check(0 <= ind < n, 'normalized integer %r is not in range(%d)', ind, n)
    ctx.check(ref.select(shape, NORM(r, shape)) == m0,
              'normalization is not idempotent on %r', r)
    return r, m0


def one(ctx, shape, strides, offset, index):
    r, (rshape, m) = norm(ctx, index, shape)
    addr = address(shape, strides, offset)
    sh, st, off = T.index_strided(r, shape, strides, offset)
    ctx.transitions += 2
    ctx.check(tuple(sh) == rshape, 'index_strided: shape %r, expected %r', sh, rshape)
    ctx.check(len(st) == len(sh), 'index_strided: %d strides for %d dimensions', len(st), len(sh))
    got = address(sh, st, off)
    want = {k: addr[v] for k, v in m.items()}
    ctx.check(got == want, 'index_strided addresses %r, expected %r', got, want)
    if SHAPE is not None:
        ctx.check(tuple(SHAPE(r, shape)) == rshape, 'shape_strided: %r, expected %r', SHAPE(r, shape), rshape)
    if APPLY is not None and isinstance(index, tuple) and len(index) == len(shape):
        sh2, st2, off2 = APPLY(index, shape, strides)
        got = address(sh2, st2, offset + off2)
        ctx.check(tuple(sh2) == rshape and got == want, 'apply_slices addresses %r, expected %r', got, want)
        ctx.transitions += 1
    return tuple(sh), tuple(st), off, m, addr


def run_job(job, ctx):
    if job['leg'] in ('partial', 'spelling'):
        for shape, index in part(partials() if job['leg'] == 'partial' else gen.spelled(5), job):
            ctx.case('shape, index = %r, %r' % (shape, index), 'slice_tools.normalize_index / index_strided')
            one(ctx, shape, ref.cstrides(shape), 0, index)
            ctx.traces += 1
            ctx.state((shape, repr(index)))
        return
    for shape, (strides, offset), index in part(space(job['tier']) if job['leg'] == 'step' else wide(), job):
        ctx.case('shape, strides, offset, index = %r, %r, %r, %r' % (shape, strides, offset, index))
        sh, st, off, m, addr = one(ctx, shape, strides, offset, index)
        ctx.traces += 1
        ctx.state((shape, strides, offset, sh, st, off))
        ctx.outcome((sh, st, off))
        # a second step from the layout that was reached
        if sh and job['leg'] == 'step':
            for index2 in gen.index_menu(sh, 0):
                ctx.case('shape, strides, offset, index, index2 = %r, %r, %r, %r, %r' % (shape, strides, offset, index, index2))
                rsh2, m2 = ref.select(sh, index2)
                n2 = plain(index2, sh) if NORM is None else NORM(index2, sh)
                s2, t2, o2 = T.index_strided(n2, sh, st, off)
                ctx.transitions += 2
                got = address(s2, t2, o2)
                want = {k: addr[m[v]] for k, v in m2.items()}
                ctx.check(tuple(s2) == rsh2 and got == want, 'second step addresses %r, expected %r', got, want)
                ctx.state((shape, strides, offset, tuple(s2), tuple(t2), o2))
