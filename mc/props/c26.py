"""Translation of indices between an array and its slices, and of indices and positions."""
import itertools
import warnings
from .. import core, ref, gen
from ..impl import LARGE, S, helper, large_indices, part, split

PROPERTY = 'C26'
BOUND = ('C-ordered arrays of 1..3 dimensions with sizes 1..4 (3-D: 1..3), every slice of the complete per-axis menu (3-D: 15 items), every '
         'element of the array and of the slice, in both directions; positions of all elements; slices of arrays that are themselves slices, with any strides; arrays of up to 1100 elements')


def space(tier):
    for n in (1, 2, 3):
        top = {1: 7, 2: 5, 3: 4}[n] if tier == 'quick' else {1: 10, 2: 6, 3: 5}[n]
        for shape in gen.shapes((n,), range(1, top)):
            if n == 3 and tier == 'quick' and ref.prod(shape) > 12:
                continue
            for index in gen.index_menu(shape, {1: 2, 2: 2, 3: 0}[n] if tier == 'quick' else {1: 2, 2: 2, 3: 1}[n]):
                yield shape, index
    for shape in ((13,), (5, 7), (2, 2, 2, 2), (1, 3, 1, 2), (2, 1, 2, 1, 2), (3, 2, 2, 2, 2), (2, 1, 2, 2, 1, 2), (2, 2, 2, 2, 2, 2), (1, 2, 2, 1, 2, 1, 2), (2, 1, 1, 2, 1, 2, 1, 2)):
        for index in gen.thin_menu(shape, 1):
            yield shape, index


def nested_space(tier):
    """an array that is a slice itself, and a slice of it"""
    shapes = ((6,), (3, 4), (2, 3, 2)) if tier == 'quick' else ((9,), (4, 5), (3, 3, 3), (2, 2, 2, 2))
    for shape in shapes:
        for outer in gen.index_menu(shape, 0) if tier == 'quick' else gen.thin_menu(shape, 1):
            sh, m = ref.select(shape, outer)
            if not sh or 0 in sh:
                continue
            for index in gen.index_menu(sh, 0 if len(sh) > 1 or tier == 'quick' else 2):
                yield shape, outer, sh, index
    for shape in LARGE:
        n = len(shape)
        for outer in large_indices(shape)[::4]:
            sh, m = ref.select(shape, outer)
            if sh and 0 not in sh:
                for index in large_indices(sh)[1::4]:
                    yield shape, outer, sh, index


def jobs(tier):
    return split('translate', 24 if tier == 'quick' else 96, tier=tier) + split('nested', 24 if tier == 'quick' else 96, tier=tier)


def strided(shape, strides, index):
    """shape, strides and offset of a slice"""
    sh, m = ref.select(shape, index)
    axes = [range(n)[i] if isinstance(i, slice) else (range(n) if i is None else None) for n, i in zip(shape, ref.full_index(index, len(shape)))]
    st = tuple(s * a.step for s, a in zip(strides, axes) if a is not None)
    first = m[(0,) * len(sh)] if m else None
    return sh, st, sum(a * b for a, b in zip(first, strides)) if m else 0, m


def run_job(job, ctx):
    warnings.simplefilter('ignore')
    layout = ('shape', 'strides')
    sliced = layout + ('slice_shape', 'slice_strides', 'slice_offset')
    to_slice = helper(S, 'get_slice_index', ('index',) + sliced)
    from_slice = helper(S, 'get_index_slice', ('slice_index',) + sliced)
    position = helper(S, 'get_position', ('index',) + layout)
    from_position = helper(S, 'get_index', ('pos',) + layout)
    strides_of = helper(S, 'make_strides', ('shape',))
    found = [f for f in (to_slice, from_slice, position, from_position, strides_of) if f]
    ctx.extra['max_functions_found'] = len(found)
    if job['leg'] == 'nested':
        for shape, outer, sh, index in part(nested_space(job['tier']), job):
            _, st, _, _ = strided(shape, ref.cstrides(shape), outer)
            sh2, st2, off2, m = strided(sh, st, index)
            back = {v: k for k, v in m.items()}
            args = (sh, st, sh2, st2, off2)
            cells = list(itertools.product(*map(range, sh)))
            few = max(1, len(cells) // 40)
            ctx.case('slice %r of shape %r: shape, strides = %r; its slice %r: shape, strides, offset = %r' % (outer, shape, args[:2], index, args[2:]))
            ctx.state(args)
            for n, i in enumerate(cells):
                if n % few and n < len(cells) - 2:
                    continue
                if to_slice:
                    ctx.same(to_slice(i, *args), back.get(i), 'index in the slice of %r', i)
                k = back.get(i)
                if from_slice and k is not None:
                    ctx.same(from_slice(k, *args), i, 'index in the array of %r of the slice', k)
                ctx.transitions += 2
            ctx.outcome(args)
            ctx.traces += 1
        return
    for shape, index in part(space(job['tier']), job):
        sh, m = ref.select(shape, index)
        c = ref.cstrides(shape)
        lin = {i: sum(a * b for a, b in zip(i, c)) for i in itertools.product(*map(range, shape))}
        axes = [range(n)[i] if isinstance(i, slice) else (range(n) if i is None else None)
                for n, i in zip(shape, ref.full_index(index, len(shape)))]
        st = tuple(s * a.step for s, a in zip(c, axes) if a is not None)
        off = lin[m[(0,) * len(sh)]] if m else 0
        back = {v: k for k, v in m.items()}
        ctx.state((shape, sh, st, off))
        ctx.case('shape %r, slice %r: shape, strides, offset = %r' % (shape, index, (sh, st, off)))
        if strides_of:
            ctx.same(tuple(strides_of(shape)), c, 'make_strides')
        for i, p in lin.items():
            if position:
                ctx.same(position(i, shape, c), p, 'position of %r', i)
            if from_position:
                ctx.same(from_position(p, shape, c), i, 'index of the position %d', p)
            if to_slice:
                ctx.same(to_slice(i, shape, c, sh, st, off), back.get(i), 'index in the slice of %r', i)
            ctx.transitions += 3
        for k, v in m.items():
            if from_slice:
                ctx.same(from_slice(k, shape, c, sh, st, off), v, 'index in the array of %r of the slice', k)
            if position:
                ctx.same(position(k, sh, st) + off, lin[v], 'position of %r of the slice', k)
            ctx.transitions += 2
            ctx.outcome((k, v))
        ctx.traces += 1
