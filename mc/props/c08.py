"""Conversions between formats: the conversion graph, explored breadth first."""
import itertools
from .. import core, gen, impl, ref
from ..impl import (all_configs, plain_configs, large, large_indices, wide_configs, wide_shapes, build, split, part, make, expect_reads, patterns, read,
                    signature, keyed, kind_name, DEFAULT, KIND, BIG, fresh)

PROPERTY = 'C08'
BOUND = ('breadth-first over the graph of conversions as_Buffer/Strided/COO/FlatCOO/CSR/DM, with and without a change of placeholder, '
         'from fresh arrays and slices of every format; 3 conversions deep (thorough 4); shapes of 1..3 dimensions, six patterns; '
         'states with the same storage contents are merged; single conversions for up to 6-D shapes and all DM layouts, and for arrays of up to 1100 elements; '
         'a part of it with odd elements (false, unordered, unhashable ones)')

U2 = 'u2'


def conversions(n, dm):
    """(name, method, kwargs, resulting class)"""
    for kind in ('Buffer', 'Strided', 'COO', 'FlatCOO', 'CSR'):
        if (kind == 'CSR' and n != 2) or (kind == 'Buffer' and n != 1):
            continue
        yield kind, 'as_' + kind, {}
        yield kind, 'as_' + kind, {'unspecified': U2}
        if not impl.ODD_VALUES:
            yield kind, 'as_' + kind, {'unspecified': 0}     # which is equal to False and 0.0
        yield kind, 'as_' + kind, {'unspecified': None}
    for dims, cuts, kind in dm:
        args = dict(dimensions=dims, partitioning=cuts, storage_class=kind)
        yield 'DM', 'as_DM', args
        yield 'DM', 'as_DM', dict(args, unspecified=U2)
    yield 'DM', 'as_DM', {}


def few_dm(n):
    d = list(gen.dm_configs(n))
    rev = tuple(range(n))[::-1]
    keep = [c for c in d if c[0] in (rev,) or (c[0] == tuple(range(n)) and c[2] in ('COO', 'CSR'))]
    return keep[:8] + keep[-4:]


def call(x, method, args):
    kw = dict(args)
    if isinstance(kw.get('storage_class'), str):
        kw['storage_class'] = KIND[kw['storage_class']]
    return getattr(x, method)(**kw)


def convert(table, ph, args):
    """elements equal to the placeholder are unspecified and follow it"""
    if 'unspecified' not in args:
        return table, ph
    u = args['unspecified']
    return {k: (u if v is ph or core.same(v, ph) else v) for k, v in table.items()}, u


def direct(method, args, shape, table, ph):
    """the same format made from the elements"""
    seq = ref.nested(shape, lambda i: table[i])
    kind = method[3:]
    kw = {k: v for k, v in args.items() if k != 'unspecified'}
    if 'storage_class' in kw:
        kw['storage_class'] = KIND[kw['storage_class']]
    return KIND[kind].fromobject(seq, unspecified=ph, **kw)


def check(ctx, y, method, args, shape, table, ph):
    ctx.check(kind_name(y) == method[3:], 'the result is a %s', kind_name(y))
    expect_reads(ctx, y, shape, table, 'after the conversion')
    ctx.check(core.same(y.unspecified, ph), 'placeholder %r, expected %r', y.unspecified, ph)


def starts(tier):
    shapes = [(1,), (4,), (1, 2), (2, 2), (3, 2), (2, 1, 2)]
    if tier != 'quick':
        shapes += [(6,), (3, 3), (2, 4), (2, 2, 2), (1, 3, 2), (2, 1, 2, 1)]
    for shape in shapes:
        n = len(shape)
        cfgs = list(plain_configs(n)) + [('DM', tuple(range(n))[::-1], (n - 1,) if n > 1 else (), k) for k in ('Strided', 'COO')]
        for cfg in cfgs:
            for name, spec in patterns(itertools.product(*map(range, shape)), few=tier == 'quick'):
                if name == 'none' and cfg[0] != 'COO':
                    continue
                yield shape, cfg, spec, None
            yield shape, cfg, patterns(itertools.product(*map(range, shape)), few=True)[-2 if len(shape) > 1 else 0][1], BIG


def sliced_starts(tier):
    """conversions of slices: views with steps, offsets and fixed axes"""
    for shape in [(5,), (3, 3), (2, 2, 2)] + ([(3, 2, 2), (4, 3)] if tier != 'quick' else []):
        n = len(shape)
        cfgs = list(all_configs(n, nested_dm=False))
        plain = len(list(plain_configs(n)))
        if n == 3:
            cfgs = cfgs[:plain] + cfgs[plain::11 if tier == 'quick' else 3]
        for cfg in cfgs:
            for index in gen.index_menu(shape, 0):
                if not ref.select(shape, index)[0] or all(i is None or i == slice(None) for i in index):
                    continue
                yield shape, cfg, index


def direct_space(tier):
    shapes = [(3,), (2, 3), (3, 2), (2, 2, 2)] + wide_shapes()
    for shape in shapes:
        n = len(shape)
        for src in plain_configs(n):
            for dm in (list(gen.dm_configs(n)) if n < 4 else list(gen.dm_configs(n))[::29] if n < 7 else gen.dm_spread(n, 40)):
                for _, spec in patterns(itertools.product(*map(range, shape)), few=True):
                    yield shape, src, dm, spec
        for src in wide_configs(n):
            for _, spec in patterns(itertools.product(*map(range, shape)), few=True):
                yield shape, src, None, spec


def subset_space(tier):
    """every pattern, through every pair of formats"""
    for shape in [(6,), (2, 3), (3, 2), (4, 2), (1, 6), (2, 2, 2)] + ([(3, 3), (2, 5), (9,)] if tier != 'quick' else []):
        n = len(shape)
        for a in plain_configs(n):
            for spec in gen.subsets(itertools.product(*map(range, shape))):
                yield shape, a, spec


def jobs(tier):
    k = 24 if tier == 'quick' else 96
    return (split('graph', k, tier=tier) + split('slices', 12, tier=tier) + split('direct', 12, tier=tier)
            + split('subsets', 12, tier=tier) + split('large', 24)
            + split('graph', 12, tier=tier, ph=['odd'], every=5) + split('slices', 8, tier=tier, ph=['odd'], every=3)
            + split('direct', 8, tier=tier, ph=['odd'], every=5) + split('subsets', 8, tier=tier, ph=['odd'], every=3))


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'graph':
        depth = 3 if job['tier'] == 'quick' else 4
        for shape, cfg, spec, ph in part(starts(job['tier']), job):
            seq, table = make(shape, spec)
            if ph is not None:
                # elements that are equal to the placeholder, but not the same object
                table = {k: ph if v is None else v for k, v in table.items()}
                seq = ref.nested(shape, lambda i: fresh(table[i]))
            graph(ctx, shape, build(cfg, seq, DEFAULT if ph is None else ph), table, ph,
                  ['%r.fromobject(%r, unspecified=%r)' % (cfg, seq, ph)], depth if ph is None else 2)
    elif leg == 'slices':
        for shape, cfg, index in part(sliced_starts(job['tier']), job):
            cells = list(itertools.product(*map(range, shape)))
            seq, table = make(shape, set(c for i, c in enumerate(cells) if i % 3 != 1))
            sh, m = ref.select(shape, index)
            sub = {k: table[v] for k, v in m.items()}
            x = build(cfg, seq)
            ctx.case('%r.fromobject(%r)[%r]' % (cfg, seq, index))
            graph(ctx, sh, x[index], sub, None, ['%r.fromobject(%r)[%r]' % (cfg, seq, index)], 1)
            # slicing commutes with conversion
            for kind, method, args in conversions(len(shape), []):
                if kind == 'Buffer':
                    continue            # has its own slicing rules, see C17
                ctx.case('%r.fromobject(%r).%s(%r)[%r]' % (cfg, seq, method, args, index))
                y = call(x, method, args)[index]
                t2, ph = convert(sub, None, args)
                expect_reads(ctx, y, sh, t2, 'slice of the converted array')
    elif leg == 'large':
        for shape, cfg, spec in part(large(), job):
            seq, table = make(shape, spec)
            x = build(cfg, seq)
            for index in [None] + large_indices(shape)[:5:2]:
                sh, m = ref.select(shape, index)
                sub = {k: table[v] for k, v in m.items()}
                y = x if index is None else x[index]
                for kind, method, args in conversions(len(sh), []):
                    ctx.case('%r.fromobject(%r)[%r].%s(%r)' % (cfg, seq, index, method, args))
                    t, ph = convert(sub, None, args)
                    check(ctx, call(y, method, args), method, args, sh, t, ph)
                    ctx.transitions += 1
                ctx.traces += 1
                ctx.state((shape, cfg, len(spec), repr(index)))
            expect_reads(ctx, x, shape, table, 'source after the conversions')
    elif leg == 'direct':
        for shape, src, dm, spec in part(direct_space(job['tier']), job):
            seq, table = make(shape, spec)
            x = build(src, seq)
            if dm is not None:
                todo = [('DM', 'as_DM', dict(zip(('dimensions', 'partitioning', 'storage_class'), dm)))]
            else:
                todo = list(conversions(len(shape), []))
            for kind, method, args in todo:
                ctx.case('%r.fromobject(%r).%s(%r)' % (src, seq, method, args))
                y = call(x, method, args)
                t, ph = convert(table, None, args)
                check(ctx, y, method, args, shape, t, ph)
                ctx.transitions += 1
            ctx.traces += 1
            ctx.state((shape, src, dm, frozenset(spec)))
    else:
        for shape, a, spec in part(subset_space(job['tier']), job):
            seq, table = make(shape, spec)
            x = build(a, seq)
            for kind, method, args in conversions(len(shape), []):
                t, ph = convert(table, None, args)
                ctx.case('%r.fromobject(%r).%s(%r)' % (a, seq, method, args))
                y = call(x, method, args)
                check(ctx, y, method, args, shape, t, ph)
                ctx.transitions += 1
            ctx.traces += 1
            ctx.state((shape, a, frozenset(spec)))


def graph(ctx, shape, x, table, ph, path, depth):
    dm = few_dm(len(shape))
    frontier = [(x, table, ph, path)]
    seen = {keyed(signature(x))}
    for level in range(depth):
        new = []
        for x, table, ph, path in frontier:
            for kind, method, args in conversions(len(shape), dm if level == 0 else dm[:3]):
                p = path + ['.%s(%r)' % (method, args)]
                ctx.case(*p)
                y = call(x, method, args)
                ctx.transitions += 1
                t, ph2 = convert(table, ph, args)
                check(ctx, y, method, args, shape, t, ph2)
                expect_reads(ctx, x, shape, table, 'source after the conversion')
                sig = keyed(signature(y))
                if method != 'as_DM' or level < depth - 1:
                    z = direct(method, args, shape, t, ph2)
                    expect_reads(ctx, z, shape, t, 'array made from the elements')
                    ctx.check(y.equal(z) is True and z.equal(y) is True, 'not element-wise equal to the array made from the elements')
                    ctx.traces += 1
                if sig not in seen:
                    seen.add(sig)
                    new.append((y, t, ph2, p))
        frontier = new
    for s in seen:
        ctx.state((shape, s))
    ctx.outcome(len(seen))
