"""Enumeration and counts: elements, size, fullness, length, shape, reading."""
import itertools
from .. import core, ref, gen
from ..impl import (is_hole, ODD, placeholder, with_placeholders, all_configs, large, large_indices, plain_configs, wide_configs, wide_shapes, build, split, part, make, patterns, variants, alternate,
                    kind_name, SPARSE, dense, KIND, leaf, read)

PROPERTY = 'C15'
BOUND = ('fresh arrays with every subset of specified cells for up to 6 cells, patterns for more (up to 1100), and slices with menus of 7 items per '
         'axis, in every format and dimension mapping; windows of buffers of up to 1030 items; listing of elements, number of elements, fullness, length and element reads; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements; '
         'the same after the placeholder and odd values were assigned to every subset of specified elements')


def check(ctx, x, cfg, sh, table, stored=()):
    """what x lists must be what it reads"""
    kind = kind_name(x)
    got = list(x.elements())
    again = list(x.elements())
    ctx.transitions += 2
    ctx.check(core.same([i for i, _ in got], [i for i, _ in again]) and core.same([v for _, v in got], [v for _, v in again]),
              'the elements are listed differently the second time')
    index = [i for i, _ in got]
    ctx.check(len(set(index)) == len(index), 'an element is listed twice')
    ctx.check(index == sorted(index), 'the elements are not in row-major order: %r', index)
    for i, v in got:
        ctx.check(i in table, 'listed index %r is not in the array', i)
        ctx.same(v, table[i], 'listed value of %r', i)
    # elements that were specified stay so when the placeholder is assigned to them
    spec = [i for i, v in table.items() if not is_hole(v) or i in stored]
    missing = [i for i in spec if i not in set(index)]
    ctx.check(not missing, 'specified elements %r are not listed', missing)
    if kind in SPARSE:
        ctx.check(index == spec, 'sparse array lists %r, its specified elements are %r', index, spec)
    else:
        ctx.check(index == list(table), 'listed %d of %d elements', len(index), len(table))
    # the number of specified elements; formats that keep every element have all of them
    n = len(table) if dense(cfg) else len(spec)
    ctx.check(x.size == n, 'size %r, expected %d', x.size, n)
    full = x.is_full()
    ctx.check(type(full) is bool and full == (n == len(table)), 'is_full() is %r with %d of %d elements', full, n, len(table))
    ctx.check(len(x) == sh[0], 'len() is %r, shape is %r', len(x), sh)
    ctx.same(tuple(x.shape), tuple(sh), 'shape')
    ctx.outcome((kind, sh, n, len(index)))


def space(tier):
    for shape in [(1,), (3,), (6,), (1, 2), (2, 2), (3, 2), (2, 1, 2), (1, 3, 2)] + ([(8,), (2, 4), (2, 2, 2)] if tier != 'quick' else []):
        for cfg in all_configs(len(shape)):
            for spec in gen.subsets(itertools.product(*map(range, shape))):
                yield shape, cfg, spec


def larger(tier):
    for shape in [(3, 3), (4, 3), (2, 2, 2), (3, 2, 2)] + wide_shapes():
        for cfg in (all_configs(len(shape)) if len(shape) < 4 else wide_configs(len(shape))):
            for _, spec in patterns(itertools.product(*map(range, shape)), few=tier == 'quick'):
                yield shape, cfg, spec


def views(tier):
    shapes = [(5,), (3, 2), (3, 3), (2, 2, 2)] + ([(7,), (4, 3), (3, 2, 2), (2, 3, 2)] if tier != 'quick' else [])
    for shape in shapes:
        cfgs = list(all_configs(len(shape)))
        if len(shape) == 3 and tier == 'quick':
            cfgs = cfgs[:3] + cfgs[3::4]
        for cfg in cfgs:
            for k, r in ((3, 1), (1, 5)):
                yield shape, cfg, alternate(shape, k, r)


def big(tier):
    return large()


def assigned_space(tier):
    for shape in [(3,), (1, 2), (2, 2), (1, 2, 2)] + ([(4,), (2, 3)] if tier != 'quick' else []):
        for k, cfg in enumerate(all_configs(len(shape))):
            if tier == 'quick' and len(shape) == 3 and k % 3:
                continue
            for spec in gen.subsets(itertools.product(*map(range, shape))):
                yield shape, cfg, spec


def assigned(ctx, shape, cfg, spec):
    seq, table = make(shape, spec)
    for over in gen.subsets(sorted(spec)):
        x = build(cfg, seq)
        now = dict(table)
        for n, c in enumerate(sorted(over)):
            x[c] = now[c] = placeholder() if n % 3 < 2 else ODD[n % len(ODD)]
        ctx.case('x = %r.fromobject(%r)' % (cfg, seq), *['x[%r] = %r' % (c, now[c]) for c in sorted(over)])
        check(ctx, x, cfg, shape, now, spec)
        if len(shape) > 1:
            for index in ((0,), (slice(None), -1), (slice(None, None, -1),)):
                rs, m = ref.select(shape, index)
                ctx.case('x = %r.fromobject(%r)' % (cfg, seq), *['x[%r] = %r' % (c, now[c]) for c in sorted(over)] + ['x[%r]' % (index,)])
                # a slice can be a new array, which then has no reason to keep them
                y = x[index]
                want = {k: now[v] for k, v in m.items()}
                kept = y.size != sum(not is_hole(v) for v in want.values())
                check(ctx, y, cfg, rs, want, {k for k, v in m.items() if v in spec and kept})
        ctx.traces += 1
        ctx.state((shape, cfg, frozenset(spec), frozenset(over)))


def jobs(tier):
    k = 16 if tier == 'quick' else 64
    return split('subsets', k, tier=tier) + split('larger', k, tier=tier) + split('views', k, tier=tier) + split('large', k, tier=tier) + split('assigned', 8, tier=tier) + split('buffer', 4, tier=tier) + with_placeholders(
        lambda ph: split('subsets', 8, tier=tier, ph=ph, every=5) + split('larger', 8, tier=tier, ph=ph, every=5) + split('views', 8, tier=tier, ph=ph, every=5)
        + split('large', 8, tier=tier, ph=ph, every=7) + split('assigned', 8, tier=tier, ph=ph, every=5))


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'buffer':
        for n, off, rest, hole in part([(n, off, rest, h) for n in (0, 1, 2, 5, 33, 64, 130, 300, 1030) for off in (0, 1, 7, 64, 200, 515) for rest in (0, 3, 129) for h in (0, 1)], job):
            items = [placeholder() if hole and i % 7 == 3 else i for i in range(n)]
            x = KIND['Buffer'](n, off, ['before'] * off + items + ['after'] * rest, unspecified=placeholder())
            ctx.case('Buffer(%d, %d, data of %d items)' % (n, off, off + n + rest))
            # every item of a buffer counts as specified
            check(ctx, x, ('Buffer',), (n,), {(i,): v for i, v in enumerate(items)}, {(i,) for i in range(n)})
            ctx.same(list(x), items, 'items of the iteration')
            ctx.same([x[i] for i in range(n)], items, 'items')
            ctx.traces += 1
            ctx.state((n, off, rest, hole))
        return
    if leg == 'assigned':
        for args in part(assigned_space(job['tier']), job):
            assigned(ctx, *args)
        return
    for shape, cfg, spec in part({'subsets': space, 'larger': larger, 'views': views, 'large': big}[leg](job['tier']), job):
        for text, mk, sh, table in variants(cfg, shape, spec, 1 if leg == 'views' else None):
            ctx.case(text)
            x = mk()
            check(ctx, x, cfg, sh, table)
            ctx.traces += 1
            ctx.state((shape, cfg, frozenset(spec), text if leg == 'views' else 0))
            if leg == 'views' and len(sh) == 2:
                # a slice of the slice that fixes one axis
                for index in ((0,), (slice(None), -1)):
                    rs, m = ref.select(sh, index)
                    ctx.case(text + '[%r]' % (index,))
                    check(ctx, x[index], cfg, rs, {k: table[v] for k, v in m.items()})
            if leg == 'large':
                for index in large_indices(shape)[1::2]:
                    rs, m = ref.select(sh, index)
                    ctx.case(text + '[%r]' % (index,))
                    check(ctx, x[index], cfg, rs, {k: table[v] for k, v in m.items()})
                ctx.state((shape, cfg, len(spec)))
            if leg == 'larger':
                for method in ('copy', 'as_COO', 'as_Strided'):
                    ctx.case(text + '.%s()' % method)
                    y = getattr(x, method)()
                    check(ctx, y, cfg if method == 'copy' else (method[3:],), sh, table)
