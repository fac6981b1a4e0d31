"""Index bounds: out-of-range indices raise, negative ones count from the end, iteration ends."""
import itertools
from .. import core, ref, gen
from ..impl import (with_placeholders, all_configs, large, wide_configs, wide_shapes, build, split, part, make, variants, alternate, read, expect_reads, is_storage,
                    KIND, retyped)

PROPERTY = 'C22'
BOUND = ('every element index in a box from -2n-1 to 2n+1 per axis (and far away ones) of fresh arrays and slices in every format and '
         'dimension mapping, alone, within partial indices, next to slices, for reads and writes; iteration over every array; indices of wrong type, integers of types derived from int; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


def space(tier):
    shapes = [(1,), (3,), (2, 2), (3, 2), (1, 2, 2)] + ([(5,), (2, 4), (2, 2, 2), (3, 1, 2)] if tier != 'quick' else [])
    for shape in shapes:
        for cfg in all_configs(len(shape)):
            yield shape, cfg, 0


def wide(tier):
    for shape in wide_shapes():
        for cfg in list(wide_configs(len(shape)))[::2 if tier == 'quick' else 1]:
            yield shape, cfg, None


def jobs(tier):
    k = 16 if tier == 'quick' else 64
    return split('small', k, tier=tier) + split('wide', k, tier=tier) + split('empty', 1) + split('buffer', 1) + split('large', 16) + with_placeholders(
        lambda ph: split('small', 8, tier=tier, ph=ph, every=7) + split('wide', 8, tier=tier, ph=ph, every=7) + split('large', 8, ph=ph, every=7))


def raises(f, kinds):
    try:
        r = f()
    except kinds:
        return True
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)
    return 'gave %s' % (type(r).__name__ if is_storage(r) else repr(r))


def candidates(n, wide):
    if wide:
        return [-n - 1, -n, -1, 0, n - 1, n, n + 1]
    return list(range(-2 * n - 1, 2 * n + 2)) + [10 ** 6, -10 ** 6]


def setter(x, index, v):
    x[index] = v


def run_job(job, ctx):
    leg = job['leg']
    if leg in ('small', 'wide'):
        for shape, cfg, level in part((space if leg == 'small' else wide)(job['tier']), job):
            for text, mk, sh, table in variants(cfg, shape, alternate(shape), level):
                bounds(ctx, text, mk(), sh, table, leg == 'wide')
                ctx.state((shape, cfg, text))
                ctx.traces += 1
    elif leg == 'large':
        for shape, cfg, spec in part(large(), job):
            for text, mk, sh, table in variants(cfg, shape, spec, None):
                bounds(ctx, text, mk(), sh, table, True)
                ctx.state((shape, cfg, len(spec)))
                ctx.traces += 1
    elif leg == 'empty':
        for shape, index in (((3,), (slice(3, None),)), ((2, 3), (slice(2, None),)), ((2, 3), (slice(None), slice(3, None)))):
            for cfg in all_configs(len(shape)):
                if cfg[0] != 'Strided':
                    continue
                seq, table = make(shape, set(itertools.product(*map(range, shape))))
                x = build(cfg, seq)[index]
                for i in (-4, -1, 0, 1, 4):
                    for ind in [(i,) * len(shape)] + ([i] if x.shape[0] == 0 else []):
                        ctx.case('%r.fromobject(%r)[%r][%r]' % (cfg, seq, index, ind))
                        r = raises(lambda: x[ind], IndexError)
                        ctx.check(r is True, 'an array without elements %s', r)
                        ctx.transitions += 1
                if x.shape[0] == 0:
                    ctx.check([v for v in x] == [], 'iteration over an empty array')
                ctx.state((shape, cfg))
                ctx.traces += 1
    else:
        for n in range(0, 6):
            x = build(('Buffer',), list(range(n))) if n else KIND['Buffer'](0, 0, [])
            for i in (n, n + 1, 100):
                ctx.case('Buffer.fromobject(%r)[%d]' % (list(range(n)), i))
                r = raises(lambda: x[i], IndexError)
                ctx.check(r is True, 'index out of range: %s', r)
                r = raises(lambda: setter(x, i, 1), IndexError)
                ctx.check(r is True, 'index out of range: %s', r)
                ctx.transitions += 2
            ctx.check(list(x) == list(range(n)), 'iteration: %r', list(x))
            ctx.state(n)
            ctx.traces += 1


def bounds(ctx, text, x, sh, table, thin):
    n = len(sh)
    boxes = [candidates(k, thin or n > 2) for k in sh]
    if n > 3:
        spots = []
        for a in range(n):
            for i in boxes[a]:
                spots.append(tuple(i if b == a else sh[b] - 1 for b in range(n)))
                spots.append(tuple(i if b == a else -sh[b] for b in range(n)))
    else:
        spots = itertools.product(*boxes)
    for index in spots:
        ok = all(-k <= i < k for i, k in zip(index, sh))
        forms = [index] + ([index[0]] if n == 1 else []) + ([retyped(index, True)] if n < 3 and not thin else [])
        for ind in forms:
            ctx.case(text, 'index %r' % (ind,))
            ctx.transitions += 1
            if ok:
                ctx.same(x[ind], table[tuple(i % k for i, k in zip(index, sh))], 'element')
            else:
                r = raises(lambda: x[ind], IndexError)
                ctx.check(r is True, 'index out of range of %r: %s', sh, r)
                if sum(not -k <= i < k for i, k in zip(index, sh)) == 1:
                    r = raises(lambda: setter(x, ind, 5), IndexError)
                    ctx.check(r is True, 'assignment to an index out of range of %r: %s', sh, r)
    if n > 1:
        for a in range(n):
            for i in candidates(sh[a], thin):
                ok = -sh[a] <= i < sh[a]
                for fill in (slice(None), slice(None, None, -1), 0):
                    index = tuple(i if b == a else fill for b in range(n))
                    forms = [index]
                    if a == 0 and fill == slice(None):
                        forms += [i, (i,), retyped(i)]
                    for ind in forms:
                        ctx.case(text, 'index %r' % (ind,))
                        ctx.transitions += 1
                        if ok:
                            rs, m = ref.select(sh, ind)
                            expect_reads(ctx, x[ind], rs, {k: table[v] for k, v in m.items()}, 'of the slice')
                        else:
                            r = raises(lambda: x[ind], IndexError)
                            ctx.check(r is True, 'index out of range of %r: %s', sh, r)
                            r = raises(lambda: setter(x, ind, []), IndexError)
                            ctx.check(r is True, 'assignment to an index out of range of %r: %s', sh, r)
    # too many indices, wrong types
    for ind in ((0,) * (n + 1), (0,) * n + (slice(None),)):
        ctx.case(text, 'index %r' % (ind,))
        r = raises(lambda: x[ind], IndexError)
        ctx.check(r is True, 'too many indices: %s', r)
        ctx.transitions += 1
    for ind in ('a', 1.5, (0.0,) * n, ('x',) * n):
        ctx.case(text, 'index %r' % (ind,))
        r = raises(lambda: x[ind], Exception)
        ctx.check(r is True, 'index of a wrong type: %s', r)
        ctx.transitions += 1
    # iteration
    ctx.case(text, 'iteration')
    items = []
    for v in x:
        items.append(v)
        ctx.check(len(items) <= sh[0], 'iteration gives more than %d items', sh[0])
    ctx.check(len(items) == sh[0], 'iteration gives %d items of %d', len(items), sh[0])
    for i, v in enumerate(items):
        rs, m = ref.select(sh, (i,))
        expect_reads(ctx, v, rs, {k: table[q] for k, q in m.items()}, 'of item %d of the iteration' % i)
    ctx.case(text, 'reversed(x)')
    back = list(itertools.islice(reversed(x), sh[0] + 1))
    ctx.check(len(back) == sh[0], 'reversed() gives %d items of %d', len(back), sh[0])
    for i, v in zip(reversed(range(sh[0])), back):
        rs, m = ref.select(sh, (i,))
        expect_reads(ctx, v, rs, {k: table[q] for k, q in m.items()}, 'of item %d' % i)
    expect_reads(ctx, x, sh, table, 'after failed assignments')
