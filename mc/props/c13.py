"""Copies: equal, independent, with the placeholder replaced; copies of strided arrays are row-contiguous."""
import itertools
from .. import core, ref, gen
from ..impl import (all_configs, large, large_indices, make, wide_configs, wide_shapes, build, split, part, expect_reads, variants, alternate, dense, DEFAULT,
                    kind_name, patterns, KIND, read, BIG, fresh)

PROPERTY = 'C13'
BOUND = ('copies of fresh arrays, slices of slices and copies in every format and dimension mapping, shapes of 1..3 dimensions (up to 6-D '
         'with fewer slices), with five choices of a new placeholder, from five old ones, given as equal but not identical objects; windows of buffers of up to 1030 items, over lists, bytearrays and list subclasses; every element of either side is then assigned and '
         'both sides are read')

OLD = [DEFAULT, 0, '', 'old', BIG]
NEW = [DEFAULT, None, 0, 'new', -1]


def space(tier):
    shapes = [(1,), (3,), (2, 2), (3, 2), (2, 1, 2)]
    if tier != 'quick':
        shapes += [(5,), (3, 3), (2, 4), (2, 2, 2), (3, 2, 2)]
    for shape in shapes:
        cfgs = list(all_configs(len(shape)))
        if tier == 'quick' and len(shape) == 3:
            cfgs = cfgs[:3] + cfgs[3::8]
        for cfg in cfgs:
            for old in OLD:
                for spec in [alternate(shape), set(itertools.product(*map(range, shape)))][:1 if old is not DEFAULT else 2]:
                    yield shape, cfg, spec, old, 0


def wide(tier):
    for shape in wide_shapes():
        for cfg in list(wide_configs(len(shape)))[::3 if tier == 'quick' else 1]:
            yield shape, cfg, alternate(shape, 4), DEFAULT, None


def big(tier):
    for shape, cfg, spec in large():
        yield shape, cfg, spec, DEFAULT, 'large'


def jobs(tier):
    k = 24 if tier == 'quick' else 96
    return split('small', k, tier=tier) + split('wide', k, tier=tier) + split('large', k, tier=tier) + split('buffer', 8, tier=tier)


def large_variants(cfg, shape, spec):
    yield from variants(cfg, shape, spec, None)
    seq, table = make(shape, spec)
    for index in large_indices(shape)[1:6:2]:
        sh, m = ref.select(shape, index)
        yield '%r.fromobject(%r)[%r]' % (cfg, seq, index), (lambda index=index: build(cfg, seq)[index]), sh, {k: table[v] for k, v in m.items()}


def convert(table, ph, new):
    if new is DEFAULT:
        return table, ph
    return {k: (new if core.same(v, ph) else v) for k, v in table.items()}, new


class Own(list):
    """a list with a copy of its own"""

    def copy(self):
        return Own(self)


FORMS = {'list': list, 'bytearray': bytearray, 'Own': Own}


def typed(ctx, name, n, off):
    """windows of buffers over other kinds of data"""
    data = FORMS[name](range(10, 14 + n))
    items = list(data)[off:off + n]
    x = KIND['Buffer'](n, off, data, unspecified=11)
    for new in (DEFAULT, 5, 11):
        args = {} if new is DEFAULT else {'unspecified': new}
        ctx.case('x = Buffer(%d, %d, %s(%r), unspecified=11)' % (n, off, name, list(data)), 'y = x.copy(%r)' % args)
        y = x.copy(**args)
        want = [5 if v == 11 and new == 5 else v for v in items]
        ctx.same([y[i] for i in range(n)], want, 'items of the copy')
        ctx.same(list(y), want, 'items of the copy')
        for i in range(n):
            y[i] = 90 + i
            ctx.same(list(x), items, 'items of the source after an item of the copy was assigned')
        for i in range(n):
            x[i] = 70 + i
            ctx.same(list(y), [90 + k for k in range(n)], 'items of the copy after an item of the source was assigned')
        for i in range(n):
            x[i] = items[i]
        ctx.transitions += 1
    ctx.state((name, n, off))
    ctx.traces += 1


def buffers(tier):
    for n in (1, 2, 3, 4):
        for pattern in itertools.product((True, False), repeat=n):
            for off in range(3):
                yield n, off, off % 2, pattern
    for n in (30, 64, 71, 130, 300, 1030):
        for k in (2, 7, 50):
            for off, rest in ((0, 0), (1, 0), (0, 70), (131, 2)):
                yield n, off, rest, tuple(i % k == k - 1 or i > n - 3 for i in range(n))


def buffer(ctx, n, off, rest, pattern):
    """windows of buffers, which may hold the placeholder"""
    for old in (None, 0, 'old'):
        for new in (DEFAULT, 'new', 0, old):
            items = [old if h else 'v%d' % i for i, h in enumerate(pattern)]
            data = ['before'] * off + items + ['after'] * rest
            x = KIND['Buffer'](n, off, data, unspecified=old)
            args = {} if new is DEFAULT else {'unspecified': new}
            ctx.case('x = Buffer(%d, %d, %r, unspecified=%r)' % (n, off, data, old), 'y = x.copy(%r)' % args)
            y = x.copy(**args)
            want = [new if h and new is not DEFAULT else v for v, h in zip(items, pattern)]
            ctx.check(kind_name(y) == 'Buffer', 'the copy is %s', kind_name(y))
            ctx.check(core.same(y.unspecified, old if new is DEFAULT else new), 'placeholder of the copy: %r', y.unspecified)
            ctx.same(list(y), want, 'items of the copy')
            ctx.same([y[i] for i in range(n)], want, 'items of the copy')
            ctx.check(y.size == n and tuple(y.shape) == (n,), 'size and shape of the copy: %r', (y.size, y.shape))
            if n < 100:
                for i in range(n):
                    y[i] = ('y', i)
                    ctx.same(list(x), items, 'items of the source after an item of the copy was assigned')
                for i in range(n):
                    x[i] = ('x', i)
                    ctx.same(list(y), [('y', k) for k in range(n)], 'items of the copy after an item of the source was assigned')
                ctx.same(data, ['before'] * off + [('x', k) for k in range(n)] + ['after'] * rest, 'underlying data')
            ctx.transitions += 1
        ctx.state((n, off, rest, pattern, old))
    ctx.traces += 1


def run_job(job, ctx):
    if job['leg'] == 'buffer':
        for args in part(buffers(job['tier']), job):
            buffer(ctx, *args)
        for args in part(itertools.product(FORMS, range(1, 5), range(4)), job):
            typed(ctx, *args)
        return
    for shape, cfg, spec, old, level in part({'small': space, 'wide': wide, 'large': big}[job['leg']](job['tier']), job):
        ph = None if old is DEFAULT else old
        for text, mk, sh, table in (large_variants(cfg, shape, spec) if level == 'large' else variants(cfg, shape, spec, level, old, (lambda: fresh(BIG)) if old is BIG else None)):
            for new in NEW if job['leg'] == 'small' else (DEFAULT, 'new'):
                x = mk()
                args = {} if new is DEFAULT else {'unspecified': new}
                ctx.case('x = ' + text, 'y = x.copy(%r)' % args)
                y = x.copy(**args)
                # values 0.. of the array that equal a new placeholder become unspecified too; they read the same
                want, nph = convert(table, ph, new)
                ctx.check(kind_name(y) == kind_name(x), 'the copy of %s is %s', kind_name(x), kind_name(y))
                expect_reads(ctx, y, sh, want, 'of the copy')
                expect_reads(ctx, x, sh, table, 'of the source after the copy was made')
                ctx.check(core.same(y.unspecified, nph), 'placeholder of the copy: %r, expected %r', y.unspecified, nph)
                ctx.check(core.same(x.unspecified, ph), 'placeholder of the source: %r, expected %r', x.unspecified, ph)
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state((text, repr(new)))
                ctx.outcome((kind_name(y), sh, repr(nph)))
                if kind_name(y) == 'Strided':
                    ctx.case('x = ' + text, 'y = x.copy(%r)' % args, 'strides and buffer of y')
                    ctx.same(tuple(y.strides), ref.cstrides(sh), 'strides of the copy')
                    ctx.same([y.data[i] for i in range(ref.prod(sh))], [want[i] for i in itertools.product(*map(range, sh))],
                             'elements of the copy in row-major order')
                    ctx.check(len(y.data) == ref.prod(sh), 'the copy keeps %d items for %d elements', len(y.data), ref.prod(sh))
                # independent
                wx, wy = dict(table), dict(want)
                for n, index in enumerate(want):
                    if n > 8 and n % 7 or n > 70 and n % 101:
                        continue
                    if not (dense(cfg) or not core.same(table[index], ph)):
                        continue
                    ctx.case('x = ' + text, 'y = x.copy(%r)' % args, 'every element up to y[%r] is assigned' % (index,))
                    y[index] = n + 1000
                    wy[index] = n + 1000
                    ctx.transitions += 1
                expect_reads(ctx, y, sh, wy, 'of the copy after its elements were assigned')
                expect_reads(ctx, x, sh, wx, 'of the source after the elements of the copy were assigned')
                for n, index in enumerate(table):
                    if n > 8 and n % 7 or n > 70 and n % 101:
                        continue
                    if not (dense(cfg) or not core.same(table[index], ph)):
                        continue
                    x[index] = n + 2000
                    wx[index] = n + 2000
                    ctx.transitions += 1
                ctx.case('x = ' + text, 'y = x.copy(%r)' % args, 'every element of y, then of x is assigned')
                expect_reads(ctx, x, sh, wx, 'of the source after its elements were assigned')
                expect_reads(ctx, y, sh, wy, 'of the copy after the elements of the source were assigned')
                # a copy of the copy
                if new is not DEFAULT and job['leg'] == 'small':
                    ctx.case('x = ' + text, 'x.copy(%r), elements assigned, .copy(unspecified="third")' % args)
                    z = y.copy(unspecified='third')
                    expect_reads(ctx, z, sh, convert(wy, nph, 'third')[0], 'of the copy of the copy')
