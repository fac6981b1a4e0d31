"""Comparison: == and != of arrays of one format, element-wise equality of any."""
import itertools
from .. import core, ref, gen
from ..impl import (is_hole, plain, placeholder, with_placeholders, all_configs, large, large_indices, plain_configs, wide_configs, wide_shapes, build, split, part, make, variants, alternate, kind_name,
                    tuplify, patterns, view_indices, read, expect_reads)

PROPERTY = 'C16'
BOUND = ('all pairs of arrays with elements from {unspecified, 1, 2} of shapes with up to 4 cells in all pairs of formats; all pairs of '
         'slices of an array, of an array that differs in one element, and of arrays of another format; single differences at every '
         'position of larger arrays; arrays whose elements were specified and then assigned the placeholder; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')
ASSUMPTIONS = ['compared arrays have the same shape and the same placeholder']


def pairs(tier):
    shapes = [(2,), (3,), (4,), (1, 2), (2, 1), (2, 2), (1, 1, 2)]
    for shape in shapes:
        cfgs = list(plain_configs(len(shape), buffer=True))
        rev = tuple(range(len(shape)))[::-1]
        cfgs += [('DM', rev, (), 'Strided'), ('DM', rev, (), 'COO')]
        for a in cfgs:
            for b in cfgs:
                yield shape, a, b


def layouts(tier):
    """same mapping on both sides"""
    for shape in [(2,), (3,), (1, 2), (2, 2), (2, 1, 1)] + ([(3, 1), (2, 1, 2)] if tier != 'quick' else []):
        for cfg in all_configs(len(shape)):
            yield shape, cfg


def views(tier):
    for shape in [(4,), (3, 2), (2, 2, 2)] + ([(6,), (3, 3), (2, 3, 2)] if tier != 'quick' else []):
        cfgs = list(all_configs(len(shape)))
        if len(shape) == 3:
            cfgs = cfgs[:3] + cfgs[3::16 if tier == 'quick' else 5]
        for cfg in cfgs:
            yield shape, cfg


def single(tier):
    for shape in [(7,), (3, 4)] + wide_shapes():
        for cfg in list(wide_configs(len(shape)))[::1 if tier != 'quick' or len(shape) < 3 else 5]:
            yield shape, cfg
    for shape, cfg, spec in large():
        if spec == alternate(shape):
            yield shape, cfg


def assigned(tier):
    for shape in [(2,), (3,), (1, 2), (2, 1), (1, 3), (2, 2)] + ([(4,), (2, 1, 2)] if tier != 'quick' else []):
        cfgs = [c for c in plain_configs(len(shape))]
        rev = tuple(range(len(shape)))[::-1]
        cfgs += [('DM', rev, (), 'COO'), ('DM', rev, (len(shape) - 1,) if len(shape) > 1 else (), 'FlatCOO')]
        for a in cfgs:
            for b in cfgs:
                if shape != (2, 2) or tier != 'quick' or a[0] != 'DM' and b[0] != 'DM':
                    yield shape, a, b


def stored(shape, cfg):
    """all arrays whose cells are unspecified, or specified and then assigned 1 or the placeholder"""
    cells = list(itertools.product(*map(range, shape)))
    for what in itertools.product(('hole', None, 1), repeat=len(cells)):
        t = dict(zip(cells, what))
        x = build(cfg, ref.nested(shape, lambda i: None if t[i] == 'hole' else 5))
        for c in cells:
            if t[c] != 'hole':
                x[c] = placeholder() if t[c] is None else t[c]
        yield what, {c: None if v == 'hole' else v for c, v in t.items()}, x


def jobs(tier):
    return (split('pairs', 24, tier=tier) + split('layouts', 16, tier=tier) + split('views', 24, tier=tier)
            + split('single', 24, tier=tier) + split('assigned', 24, tier=tier) + split('other', 1) + split('apart', 16, tier=tier) + with_placeholders(
                lambda ph: split('pairs', 8, tier=tier, ph=ph, every=5) + split('layouts', 8, tier=tier, ph=ph, every=5) + split('views', 8, tier=tier, ph=ph, every=7)
                + split('single', 8, tier=tier, ph=ph, every=7) + split('assigned', 8, tier=tier, ph=ph, every=5)))


def relation(ctx, x, y, same, fresh):
    """same: do x and y read the same? fresh: == must then be true"""
    e, ne = x == y, x != y
    ctx.transitions += 3
    ctx.check(type(e) is bool and type(ne) is bool, '== gives %r, != gives %r', e, ne)
    ctx.check(e is not ne, '== and != both give %r', e)
    if not same:
        ctx.check(not e, '== is true for arrays with different elements')
    elif fresh:
        ctx.check(e, '== is false for arrays of the same elements, format and construction')
    q = x.equal(y)
    ctx.check(q is same or q == same, 'equal() is %r', q)
    ctx.outcome((e, q))


def contents(shape):
    cells = list(itertools.product(*map(range, shape)))
    for vals in itertools.product([None, 1, 2], repeat=len(cells)):
        t = dict(zip(cells, vals))
        yield t, ref.nested(shape, lambda i: t[i])


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'pairs':
        for shape, a, b in part(pairs(job['tier']), job):
            xs = [(t, build(a, seq)) for t, seq in contents(shape)]
            ys = [(t, build(b, seq), seq) for t, seq in contents(shape)]
            for t1, x in xs:
                for t2, y, seq in ys:
                    ctx.case('%r.fromobject(%r)' % (a, t1), '%r.fromobject(%r)' % (b, seq))
                    relation(ctx, x, y, t1 == t2, a == b and not (a[0] == 'Buffer' and len(shape) > 1))
                    if kind_name(x) != kind_name(y):
                        ctx.check(not (x == y), '== is true for arrays of different formats')
                    ctx.traces += 1
                    if a[0] == 'Strided':
                        # against a nested sequence
                        q, r = y.equal(ref.nested(shape, lambda i: t1[i])), y.equal(tuplify(ref.nested(shape, lambda i: t1[i])))
                        ctx.check(bool(q) == (t1 == t2) and bool(r) == (t1 == t2), 'equal(nested sequence) is %r, equal(nested tuple) is %r', q, r)
                ctx.state((shape, a, b, tuple(t1.values())))
    elif leg == 'assigned':
        for shape, a, b in part(assigned(job['tier']), job):
            ys = list(stored(shape, b))
            for w1, t1, x in stored(shape, a):
                for w2, t2, y in ys:
                    ctx.case('%r' % (a,), '%r' % (b,), 'of shape %r, specified and then assigned: %r and %r' % (shape, w1, w2))
                    relation(ctx, x, y, t1 == t2, False)
                    ctx.traces += 1
                ctx.state((shape, a, b, w1))
    elif leg == 'layouts':
        for shape, cfg in part(layouts(job['tier']), job):
            xs = [(t, build(cfg, seq)) for t, seq in contents(shape)]
            ys = [(t, build(cfg, seq)) for t, seq in contents(shape)]
            for t1, x in xs:
                for t2, y in ys:
                    ctx.case('%r' % (cfg,), '%r' % t1, '%r' % t2)
                    relation(ctx, x, y, t1 == t2, True)
                    ctx.traces += 1
                ctx.case('%r' % (cfg,), '%r' % t1, 'compared with itself and its copy')
                relation(ctx, x, x, True, True)
                relation(ctx, x, x.copy(), True, True)
                ctx.state((shape, cfg, tuple(t1.values())))
    elif leg == 'views':
        for shape, cfg in part(views(job['tier']), job):
            # elements repeat, so that different slices read the same
            cells = list(itertools.product(*map(range, shape)))
            for period in (2, 3) if job['tier'] == 'quick' else (1, 2, 3, 5):
                vals = {c: (i % period) + 1 if i % 5 != 4 else None for i, c in enumerate(cells)}
                seq = ref.nested(shape, lambda i: vals[i])
                x, x2 = build(cfg, seq), build(cfg, seq)
                items = []
                for index in gen.index_menu(shape, 0) if len(shape) < 3 else gen.index_menu(shape, -1):
                    sh, m = ref.select(shape, index)
                    if sh and 0 not in sh:
                        items.append((index, sh, {k: vals[v] for k, v in m.items()}, x[index], x2[index]))
                other = build(('Strided',), seq)
                for i1, s1, t1, y1, _ in items:
                    for i2, s2, t2, z2, y2 in items:
                        if s1 != s2:
                            continue
                        ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x[%r] and an equal array [%r]' % (i1, i2))
                        relation(ctx, y1, y2, t1 == t2, i1 == i2)
                        ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x[%r] and x[%r]' % (i1, i2))
                        relation(ctx, y1, z2, t1 == t2, i1 == i2)
                        ctx.traces += 1
                    ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x[%r].equal(sequence of its elements)' % (i1,))
                    ctx.check(bool(y1.equal(ref.nested(s1, lambda i: t1[i]))) is True, 'equal() is false')
                    ctx.check(bool(y1.equal(other[i1])) is True and bool(other[i1].equal(y1)) is True, 'equal() is false for the same slice of a strided array')
                    ctx.state((shape, cfg, period, repr(i1)))
    elif leg == 'apart':
        # slices of many elements, of two arrays that differ in one element
        for shape, cfg, spec in part((a for a in large() if a[2] == alternate(a[0]) and ref.prod(a[0]) < 1000), job):
            seq, table = make(shape, spec)
            cells = list(table)
            for index in large_indices(shape)[1:6:2 if cfg[0] == 'Strided' else 4]:
                sh, m = ref.select(shape, index)
                x = build(cfg, seq)[index]
                inside = list(m.values())
                for c in [inside[0], inside[len(inside) // 2], inside[len(inside) * 3 // 4], inside[-1]] + [cells[0], cells[len(cells) // 3], cells[-1]]:
                    t = dict(table)
                    t[c] = 'changed'
                    y = build(cfg, ref.nested(shape, lambda i, p=plain(t): p[i]))[index]
                    ctx.case('%r' % (cfg,), '%r[%r]' % (seq, index), 'the same with a change at %r' % (c,))
                    relation(ctx, x, y, c not in inside, c not in inside and cfg[0] in ('COO', 'FlatCOO', 'CSR'))
                    ctx.traces += 1
                ctx.state((shape, cfg, repr(index)))
    elif leg == 'single':
        for shape, cfg in part(single(job['tier']), job):
            spec = alternate(shape, 4)
            seq, table = make(shape, spec)
            x = build(cfg, seq)
            cells = list(table)
            for n, c in enumerate(cells):
                if len(cells) > 24 and n % 5 not in (0, 1) and n < len(cells) - 2:
                    continue
                if len(cells) > 200 and n % 71 and n not in (63, 64, 65, 127, 128, 129, 255, 256, 257) and n < len(cells) - 1:
                    continue
                for v in ('changed', placeholder()):
                    t = dict(table)
                    t[c] = v
                    s2 = ref.nested(shape, lambda i, p=plain(t): p[i])
                    ctx.case('%r' % (cfg,), '%r' % (seq,), 'the same with %r at %r' % (v, c))
                    y = build(cfg, s2)
                    relation(ctx, x, y, core.same(t, table), True)
                    relation(ctx, y, x, core.same(t, table), True)
                    ctx.check(bool(x.equal(s2)) is core.same(t, table), 'equal(sequence) is wrong')
                    ctx.traces += 1
            ctx.state((shape, cfg))
            expect_reads(ctx, x, shape, table, 'after comparisons')
    else:
        for shape in [(2,), (2, 2)]:
            for cfg in all_configs(len(shape)):
                seq, table = make(shape, alternate(shape))
                x = build(cfg, seq)
                for other in (None, 0, 'x', seq, object()):
                    ctx.case('%r.fromobject(%r) == %r' % (cfg, seq, other))
                    ctx.check((x == other) is False and (x != other) is True, '== of an array and %r is true', other)
                    ctx.transitions += 1
                # another shape with the same stored values
                if len(shape) == 2:
                    for shape2 in ((1, 4), (4, 1), (4,)):
                        for cfg2 in all_configs(len(shape2)):
                            if cfg2[0] != cfg[0]:
                                continue
                            vals = list(table.values())
                            s2 = ref.nested(shape2, lambda i: vals[ref.reduce_index(shape2, (tuple(range(len(shape2))),), i)[0]])
                            y = build(cfg2, s2)
                            ctx.case('%r.fromobject(%r) == %r.fromobject(%r)' % (cfg, seq, cfg2, s2))
                            ctx.check((x == y) is False and (x != y) is True, '== is true for arrays of different shapes')
                            ctx.transitions += 1
                ctx.state((shape, cfg))
                ctx.traces += 1
