"""Sparse arrays are canonical: sorted, unique, only specified elements, consistent row pointers."""
import itertools
from .. import core, ref, gen
from ..impl import (is_hole, placeholder, with_placeholders, all_configs, large, large_indices, plain_configs, nested_configs, wide_configs, wide_shapes, build, split, part, make, patterns, SPARSE,
                    alternate, kind_name, KIND, view_indices)

PROPERTY = 'C14'
BOUND = ('all subsets of specified cells of all shapes with up to 8 cells (thorough 12), patterns of larger ones up to 1100; arrays made from '
         'sequences, by conversion from every format, by slicing with menus of 7 items per axis and inside dimension mappings; coordinates, '
         'flattened coordinates, row pointers, columns and values are compared with the specified elements in row-major order; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')



def stored(x):
    """(coordinates, values) as stored, with the consistency of the representation"""
    kind = kind_name(x)
    vals = [x.data[i] for i in range(len(x.data))]
    if kind == 'COO':
        n = len(x.shape)
        if tuple(x.indices.shape) != (n, len(vals)):
            return 'shape of the coordinates is %r for %d values' % (x.indices.shape, len(vals)), None
        return [tuple(x.indices[j, p] for j in range(n)) for p in range(len(vals))], vals
    if kind == 'FlatCOO':
        if len(x.findices) != len(vals):
            return '%d coordinates for %d values' % (len(x.findices), len(vals)), None
        out = []
        for p in range(len(vals)):
            f = x.findices[p]
            index = []
            for d in reversed(x.shape):
                index.append(f % d)
                f //= d
            if f:
                return 'flat coordinate %r is out of range' % (x.findices[p],), None
            out.append(tuple(reversed(index)))
        return out, vals
    if kind == 'CSR':
        ptr = [x.crow_indices[i] for i in range(len(x.crow_indices))]
        col = [x.col_indices[i] for i in range(len(x.col_indices))]
        if len(ptr) != x.shape[0] + 1 or ptr[0] != 0 or ptr[-1] != len(vals) or any(a > b for a, b in zip(ptr, ptr[1:])):
            return 'row pointers %r' % (ptr,), None
        if len(col) != len(vals):
            return '%d columns for %d values' % (len(col), len(vals)), None
        return [(r, col[p]) for r in range(x.shape[0]) for p in range(ptr[r], ptr[r + 1])], vals


def check(ctx, x, shape, table, what):
    """x: a sparse array, table its elements"""
    if kind_name(x) == 'DM':
        d = x.data
        if kind_name(d) not in SPARSE + ('DM',):
            return
        # a fresh mapping: the storage holds the reduced array
        groups = tuple(map(tuple, x.rdimensions))
        rshape = ref.reduce_shape(shape, groups)
        check(ctx, d, rshape, {ref.reduce_index(shape, groups, i): v for i, v in table.items()}, 'storage of ' + what)
        return
    coords, vals = stored(x)
    ctx.check(vals is not None, '%s: %s', what, coords)
    want = [i for i in itertools.product(*map(range, shape)) if not is_hole(table[i])]
    ctx.check(all(type(c) is int for i in coords for c in i), '%s: coordinates %r are not integers', what, coords)
    ctx.same(coords, want, 'stored coordinates of %s', what)
    ctx.same(vals, [table[i] for i in want], 'stored values of %s', what)
    ctx.check(x.size == len(want), '%s: size %r, expected %d', what, x.size, len(want))
    ctx.transitions += 1
    ctx.outcome((kind_name(x), tuple(coords)))


def subsets(tier):
    shapes = [(1,), (4,), (8,), (1, 1), (1, 4), (4, 1), (2, 3), (3, 2), (2, 4), (4, 2), (1, 8), (2, 2, 2)]
    if tier != 'quick':
        shapes += [(10,), (3, 3), (5, 2), (2, 5), (9, 1), (1, 9), (3, 1, 3), (2, 1, 2, 2), (12,), (3, 4), (6, 2), (2, 2, 3)]
    for shape in shapes:
        cfgs = list(plain_configs(len(shape)))[1:]
        for spec in gen.subsets(itertools.product(*map(range, shape))):
            for cfg in cfgs:
                yield shape, cfg, spec


def mapped(tier):
    for shape in [(4,), (2, 3), (3, 2), (2, 2, 2), (3, 1, 2)] + wide_shapes():
        cfgs = list(all_configs(len(shape)) if len(shape) < 4 else wide_configs(len(shape)))
        for cfg in cfgs:
            if cfg[0] == 'DM':
                for _, spec in patterns(itertools.product(*map(range, shape)), few=tier == 'quick'):
                    yield shape, cfg, spec


def sliced(tier):
    shapes = [(6,), (3, 3), (4, 3), (2, 3, 2)] + wide_shapes()
    if tier != 'quick':
        shapes += [(9,), (5, 4), (3, 3, 3), (12, 3), (3, 12)]
    for shape in shapes:
        for cfg in list(plain_configs(len(shape)))[1:]:
            for k, r in ((3, 1), (2, 0), (5, 0), (1, 5)):
                yield shape, cfg, alternate(shape, k, r)


def big(tier):
    for shape, cfg, spec in large():
        if cfg[0] != 'Strided':
            yield shape, cfg, spec


def jobs(tier):
    k = 16 if tier == 'quick' else 96
    return split('subsets', k, tier=tier) + split('mapped', 8, tier=tier) + split('sliced', k, tier=tier) + split('large', k, tier=tier) + with_placeholders(
        lambda ph: split('subsets', 8, tier=tier, ph=ph, every=5) + split('mapped', 8, tier=tier, ph=ph, every=5) + split('sliced', 8, tier=tier, ph=ph, every=3)
        + split('large', 8, tier=tier, ph=ph, every=7))


def run_job(job, ctx):
    leg = job['leg']
    for shape, cfg, spec in part({'subsets': subsets, 'mapped': mapped, 'sliced': sliced, 'large': big}[leg](job['tier']), job):
        seq, table = make(shape, spec)
        text = '%r.fromobject(%r)' % (cfg, seq)
        ctx.case(text)
        x = build(cfg, seq)
        check(ctx, x, shape, table, 'the array')
        ctx.traces += 1
        ctx.state((shape, cfg, frozenset(spec)))
        if leg == 'subsets':
            for to in SPARSE:
                if to == 'CSR' and len(shape) != 2:
                    continue
                ctx.case(text + '.as_%s()' % to)
                check(ctx, getattr(x, 'as_' + to)(), shape, table, 'the converted array')
                ctx.case(text + '.as_Strided().as_%s()' % to)
                check(ctx, getattr(x.as_Strided(), 'as_' + to)(), shape, table, 'the converted array')
                ctx.case(text + '.as_%s(unspecified=0)' % to)
                y = getattr(x, 'as_' + to)(unspecified=0)
                # the element 0 becomes unspecified with this placeholder
                check(ctx, y, shape, {k: (placeholder() if v == 0 or is_hole(v) else v) for k, v in table.items()}, 'the array with placeholder 0')
            ctx.case(text + '.copy()')
            check(ctx, x.copy(), shape, table, 'the copy')
            back = (slice(None, None, -1),) * len(shape)
            ctx.case(text + '[%r]' % (back,))
            check(ctx, x[back], shape, {k: table[v] for k, v in ref.select(shape, back)[1].items()}, 'the slice')
        elif leg == 'sliced' or (leg == 'large' and cfg[0] != 'DM'):
            for index in (large_indices(shape) if leg == 'large' else gen.index_menu(shape, 0) if len(shape) < 3 else gen.thin_menu(shape, 0)):
                sh, m = ref.select(shape, index)
                if not sh:
                    continue
                ctx.case(text + '[%r]' % (index,))
                y = x[index]
                t = {k: table[v] for k, v in m.items()}
                check(ctx, y, sh, t, 'the slice')
                if 0 not in sh:
                    for to in SPARSE:
                        if to == 'CSR' and len(sh) != 2:
                            continue
                        ctx.case(text + '[%r].as_%s()' % (index, to))
                        check(ctx, getattr(y, 'as_' + to)(), sh, t, 'the converted slice')
                ctx.state((shape, cfg, frozenset(spec), repr(index)))
