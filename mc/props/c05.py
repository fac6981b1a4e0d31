"""Dimensionality reduction and promotion: the documented formula, a bijection."""
import itertools
from .. import ref, gen
from ..impl import S, split, part, helper
import gcs_basics as B

PROPERTY = 'C05'
BOUND = ('all shapes of 1..4 dimensions with sizes 1..3 (4-D: 1..2; thorough 2-D up to 13, 3-D up to 7, 4-D up to 4, 5-D and every seventh permutation of 6-D 1..2), all permutations of dimensions and all '
         'partitionings, every index; selected larger shapes')


def space(tier):
    for n in (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5, 6):
        top = {1: 8, 2: 5, 3: 4, 4: 3, 5: 3}[n] if tier == 'quick' else {1: 100, 2: 14, 3: 8, 4: 5, 5: 3, 6: 3}[n]
        for shape in gen.shapes((n,), range(1, top)):
            for cuts in ref.partitions(n):
                for dims in list(itertools.permutations(range(n)))[::7 if n == 6 else 1]:
                    yield shape, dims, cuts


def wide():
    for shape in ((2, 3, 8), (2, 3, 4, 2, 3), (2, 3, 4, 5, 2), (5, 1, 7), (1, 1, 1, 1, 1), (11, 13), (3, 1, 2, 1, 2), (2, 1, 3, 2, 1, 2)):
        n = len(shape)
        perms = list(itertools.permutations(range(n)))
        for cuts in ref.partitions(n):
            for dims in perms[::max(1, len(perms) // 24)] + perms[-1:]:
                yield shape, dims, cuts


def jobs(tier):
    return split('small', 24 if tier == 'quick' else 96, tier=tier) + split('wide', 16)


def run_job(job, ctx):
    for shape, dims, cuts in part(space(job['tier']) if job['leg'] == 'small' else wide(), job):
        ctx.case('shape, dimensions, partitioning = %r, %r, %r' % (shape, dims, cuts),
                 'm = gcs_basics.create_reduction_metadata(shape, dimensions, partitioning); gcs_basics.reduction(m, index); '
                 'gcs_basics.promotion(m, rindex)')
        m = B.create_reduction_metadata(shape, dims, cuts)
        g = ref.groups(dims, cuts)
        rshape = ref.reduce_shape(shape, g)
        ctx.state((shape, dims, cuts))
        ctx.check(tuple(m['reduction_shape']) == rshape, 'shape of the reduction %r, expected %r', m['reduction_shape'], rshape)
        ctx.check(tuple(map(tuple, m['reduction_dimensions'])) == g, 'dimensions of the reduction %r', m['reduction_dimensions'])
        args = ('rshapes', 'rdimensions', 'rstrides', 'roffset')
        reduce_index = helper(S, 'reduce_index', args + ('index',))
        promote_index = helper(S, 'promote_index', args + ('rindex',))
        make_reduction = helper(S, 'make_reduction', ('shape', 'rdimensions'))
        helpers = reduce_index and promote_index and make_reduction
        if helpers:
            zero = (0,) * len(g)
            hs, hshapes, hstrides = make_reduction(shape, g)
            ctx.check(tuple(hs) == rshape, 'make_reduction: shape %r, expected %r', hs, rshape)
        seen = set()
        for index in itertools.product(*map(range, shape)):
            r = B.reduction(m, index)
            want = ref.reduce_index(shape, g, index)
            ctx.transitions += 2
            ctx.same(r, want, 'reduction of %r', index)
            seen.add(r)
            p = B.promotion(m, r)
            ctx.same(p, index, 'promotion of %r', r)
            if helpers:
                ctx.same(reduce_index(hshapes, g, hstrides, zero, index), want, 'reduce_index of %r', index)
                ctx.same(promote_index(hshapes, g, hstrides, zero, want), index, 'promote_index of %r', want)
                off = tuple(k + 2 for k in range(len(g)))
                moved = tuple(a + b for a, b in zip(want, off))
                ctx.same(reduce_index(hshapes, g, hstrides, off, index), moved, 'reduce_index with offset of %r', index)
                ctx.same(promote_index(hshapes, g, hstrides, off, moved), index, 'promote_index with offset of %r', moved)
                ctx.transitions += 4
        ctx.check(seen == set(itertools.product(*map(range, rshape))), 'the reduction is not onto')
        ctx.traces += 1
        ctx.outcome((rshape, len(seen)))
