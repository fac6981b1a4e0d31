"""Inversion of strided layouts: position -> index or no index."""
import itertools
from .. import ref, gen
from ..impl import T, split, helper

PROPERTY = 'C03'
BOUND = ('every layout that slicing reaches from C-ordered arrays of 0..3 dimensions (sizes 0..4; 0..5 and 4-D in thorough), every '
         'position from below the lowest to above the highest address; long, thin and up to 8-D shapes with fewer slices')


DATA = helper(T, 'get_solve_index_data', ('a', 'shape'))


def seq_slices(n):
    """distinct (start, step, count) selections of an axis, and single integers"""
    return gen.progressions(n) + ([n - 1, 0] if n > 1 else [0] * n)


def space(tier):
    yield (), ()
    for n in (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4):
        top = {1: 9, 2: 6, 3: 4, 4: 3}[n] if tier == 'quick' else {1: 12, 2: 7, 3: 5, 4: 4}[n]
        for shape in gen.shapes((n,), range(0, top)):
            for index in itertools.product(*map(seq_slices, shape)):
                yield shape, index


def wide():
    for shape in ((12, 2), (2, 12), (1, 17), (40,), (7, 5), (13, 11), (4, 4, 4), (3, 4, 5), (2, 5, 3)):
        for index in gen.index_menu(shape, 1):
            yield shape, index
    for shape in ((2, 3, 2, 2), (1, 3, 1, 3), (2, 2, 2, 2, 2), (2, 1, 3, 1, 2), (2, 1, 2, 1, 2, 2)):
        for index in gen.index_menu(shape, 0):
            yield shape, index
    for shape in ((2, 2, 2, 2, 2, 2), (3, 2, 1, 2, 2, 2), (1, 2, 2, 1, 2, 1, 2), (2, 1, 1, 2, 1, 2, 1, 2)):
        for index in gen.thin_menu(shape, 1):
            yield shape, index


def jobs(tier):
    return split('sliced', 24 if tier == 'quick' else 128, tier=tier) + split('wide', 24)


def run_job(job, ctx):
    seen = set()
    for shape, index in (space(job['tier']) if job['leg'] == 'sliced' else wide()):
        sh, m = ref.select(shape, index)
        c = ref.cstrides(shape)
        lin = {v: sum(a * b for a, b in zip(v, c)) for v in m.values()}
        # strides of the selected elements, from the selection itself
        st, first = [], None
        for v in m:
            first = m[v]
            break
        axes = [range(n)[i] if isinstance(i, slice) else (range(n) if i is None else None)
                for n, i in zip(shape, ref.full_index(index, len(shape)))]
        st = tuple(s * a.step for s, a in zip(c, axes) if a is not None)
        offset = lin[first] if first is not None else 0
        if (sh, st) in seen:
            continue
        seen.add((sh, st))
        if hash((sh, st)) % job['of'] != job['part']:
            continue
        want = {lin[v] - offset: k for k, v in m.items()}
        lo, hi = (min(want), max(want)) if want else (0, 0)
        if hi - lo > 400:
            positions = sorted({p + d for p in want for d in (-1, 0, 1)} | {lo - 7, hi + 7})
        else:
            positions = range(lo - 4, hi + 5)
        ctx.case('shape, strides = %r, %r' % (sh, st), 'slice_tools.solve_index(pos, shape, strides) for pos in %r' % (positions,))
        data = DATA(st, shape=sh) if DATA else None
        ctx.state((sh, st))
        for n, pos in enumerate(positions):
            got = T.solve_index(pos, sh, st, data=data) if DATA else T.solve_index(pos, sh, st)
            ctx.transitions += 1
            if want.get(pos) != got or (got is not None and not isinstance(got, tuple)):
                ctx.fail('solve_index(%d, %r, %r, data=...) = %r, expected %r' % (pos, sh, st, got, want.get(pos)))
            if n % 7 == 0 or len(positions) < 24:
                got = T.solve_index(pos, sh, st)
                ctx.transitions += 1
                if want.get(pos) != got:
                    ctx.fail('solve_index(%d, %r, %r) = %r, expected %r' % (pos, sh, st, got, want.get(pos)))
            ctx.outcome(got)
        ctx.traces += 1
