"""Arrays without elements: they behave as such in every format, whatever operations lead to them."""
import itertools
from .. import core, ref, gen
from ..impl import (KIND, SPARSE, all_configs, alternate, build, expect_reads, is_hole, keyed, kind_name, make, nested_configs, part, plain_configs, signature, split,
                    wide_configs, with_placeholders, placeholder)

PROPERTY = 'C29'
BOUND = ('arrays made from sequences without elements, and every empty slice of the complete menu per axis (3-D and more: of a few items) of '
         'arrays of every format and dimension mapping; of each of them listing, counts, text, iteration, comparison, copies, conversions to every '
         'format, element reads, slices of slices, and assignments; chains of two such operations; placeholders None, \'\' and -1, and odd elements')


def roots(tier):
    for seq, shape in (([], (0,)), ([[]], (1, 0)), ([[], []], (2, 0)), ([[[]]], (1, 1, 0)), ([[[], []], [[], []]], (2, 2, 0)), ((), (0,)), (((), ()), (2, 0))):
        for cfg in plain_configs(len(shape), buffer=True):
            yield 'made', cfg, seq, shape, None
        yield 'made', ('DM', tuple(range(len(shape)))[::-1], (), 'Strided'), seq, shape, None
        yield 'made', ('DM', tuple(range(len(shape))), (), 'COO'), seq, shape, None


def slices(tier):
    for shape in [(1,), (3,), (2, 2), (1, 3)] + ([(5,), (3, 2), (3, 3), (4, 2)] if tier != 'quick' else []):
        for cfg in all_configs(len(shape)):
            yield 'slice', cfg, None, shape, 2 if len(shape) == 1 else 1
    for shape in [(2, 1, 2), (2, 2, 2)] + ([(3, 2, 2)] if tier != 'quick' else []):
        for k, cfg in enumerate(all_configs(3)):
            if tier != 'quick' or k < 3 or k % 4 == 1:
                yield 'slice', cfg, None, shape, 0
    for shape in [(2, 1, 2, 2), (2, 1, 2, 1, 2)]:
        for cfg in list(wide_configs(len(shape)))[::4 if tier == 'quick' else 1]:
            yield 'slice', cfg, None, shape, -1


def jobs(tier):
    k = 32 if tier == 'quick' else 96
    return split('made', 4, tier=tier) + split('slice', k, tier=tier) + with_placeholders(lambda ph: split('made', 4, tier=tier, ph=ph)
                                                                                        + split('slice', 8, tier=tier, ph=ph, every=5))


def empties(shape, level):
    """indices of slices without elements"""
    def items(n):
        if level >= 1:
            out = [s for s in gen.axis_menu(n, level) if isinstance(s, slice)]
            return out + [slice(n, None), slice(0, 0), slice(-n, -n - 1, 1), slice(n, None, 2), slice(0, 0, -1), slice(n + 2, None, None)]
        return [slice(None), slice(n, None), slice(0, 0), slice(None, None, -1)]
    seen = set()
    n = len(shape)
    if level >= 1 and n > 1:
        # complete menu on one axis
        menus = [[items(k) if a == b else [slice(None), slice(None, None, -1), slice(k, None), k - 1] for b, k in enumerate(shape)] for a in range(n)]
    else:
        menus = [[items(k) + ([k - 1] if n > 1 else []) for k in shape]]
    for menu in menus:
        for index in itertools.product(*menu):
            sh, _ = ref.select(shape, index)
            if 0 in sh and repr(index) not in seen:
                seen.add(repr(index))
                yield index, sh


def run_job(job, ctx):
    results = set()
    for kind, cfg, seq, shape, level in part((roots if job['leg'] == 'made' else slices)(job['tier']), job):
        if kind == 'made':
            text = '%r.fromobject(%r)' % (cfg, seq)
            ctx.case(text)
            sh = shape if cfg[0] != 'Buffer' else (0,)
            examine(ctx, text, lambda: build(cfg, seq) if cfg[0] != 'DM' else KIND['DM'].fromobject(
                seq, dimensions=cfg[1], partitioning=cfg[2], storage_class=KIND[cfg[3]], unspecified=placeholder()), sh, cfg[0], results)
            ctx.state((cfg, repr(seq)))
            ctx.traces += 1
            continue
        seq, table = make(shape, alternate(shape))
        seen = set()
        for index, sh in empties(shape, level):
            text = '%r.fromobject(%r)[%r]' % (cfg, seq, index)
            x0 = build(cfg, seq)
            ctx.case(text)
            y = x0[index]
            nothing(ctx, y, sh, 'the slice')
            sig = keyed(signature(y))
            if sig not in seen:
                seen.add(sig)
                if job['tier'] == 'quick' and len(shape) > 1 and len(seen) % 2 == 0:
                    continue
                examine(ctx, text, lambda: x0[index], sh, None, results)
                ctx.case(text, 'the array afterwards')
                expect_reads(ctx, x0, shape, table, 'of the array')
            ctx.state((shape, cfg, repr(index)))
            ctx.traces += 1


def nothing(ctx, x, shape, what):
    """x is an array of the shape without elements"""
    ctx.check(hasattr(x, 'elements'), '%s is not an array: %r', what, type(x))
    ctx.same(tuple(x.shape), tuple(shape), 'shape of %s', what)
    ctx.same(list(x.elements()), [], 'elements of %s', what)
    ctx.check(type(x.size) is int and x.size == 0, 'size of %s is %r', what, x.size)
    ctx.check(x.is_full() is True, 'is_full() of %s is %r', what, x.is_full())
    ctx.check(len(x) == shape[0], 'length of %s is %r', what, len(x))
    ctx.check(is_hole(x.unspecified), 'placeholder of %s is %r', what, x.unspecified)
    ctx.transitions += 1


def nests(shape):
    """nested sequence of an array of that shape: what lies behind an axis of size zero is gone"""
    return [nests(shape[1:]) for _ in range(shape[0])] if shape[0] and len(shape) > 1 else []


def operations(sh):
    n = len(sh)
    rev = (slice(None, None, -1),) * n
    yield 'copy()', lambda x: x.copy(), sh, None
    for to in ('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer', 'DM'):
        if to == 'CSR' and n != 2:
            continue
        yield 'as_%s()' % to, (lambda x, to=to: getattr(x, 'as_' + to)()), (0,) if to == 'Buffer' else sh, to
    yield '[%r]' % (rev,), (lambda x: x[rev]), sh, None
    for a in range(n):
        index = tuple(slice(1, None) if b == a else slice(None) for b in range(n))
        yield '[%r]' % (index,), (lambda x, index=index: x[index]), tuple(max(0, k - 1) if b == a else k for b, k in enumerate(sh)), None
        if sh[a] and n > 1:
            for i in (0, -1):
                index = tuple(i if b == a else slice(None) for b in range(n))
                yield '[%r]' % (index,), (lambda x, index=index: x[index]), sh[:a] + sh[a + 1:], None
    yield '[None]', lambda x: x[None], sh, None
    yield '[()]', lambda x: x[()], sh, None


def examine(ctx, text, mk, sh, made, seen=None):
    x = mk()
    buffer = kind_name(x) == 'Buffer'
    nothing(ctx, x, sh, 'the array')
    if made is not None:
        ctx.check(kind_name(x) == made, 'the array is a %s', kind_name(x))
    for f in (str, repr):
        ctx.check(type(f(x)) is str and f(x) == f(x), '%s() is %r', f.__name__, f(x))
    items = list(x) if not buffer else []
    ctx.check(len(items) == (sh[0] if not buffer else 0), '%d items in an array of shape %r', len(items), sh)
    for v in items:
        nothing(ctx, v, sh[1:], 'an item of the iteration')
    ctx.check(x.equal(nests(sh)) is True and x.equal(x) is True and x.equal(mk()) is True, 'not element-wise equal to itself')
    ctx.check((x == x) is True and (x != x) is False, 'not equal to itself')
    ctx.check((x == mk()) is True, 'not equal to an array made in the same way')
    if not buffer:
        for i in (0, -1, 1):
            ctx.case(text, 'element %r' % ((i,) * len(sh),))
            try:
                r = x[(i,) * len(sh)]
            except IndexError:
                r = IndexError
            ctx.check(r is IndexError, 'an array without elements has the element %r', r)
            try:
                x[(i,) * len(sh)] = 5
                r = 0
            except IndexError:
                r = IndexError
            ctx.check(r is IndexError, 'an array without elements has an element that can be assigned')
    for name, op, rs, kind in operations(sh):
        if buffer and not (name.startswith('as_') or name in ('copy()', '[None]')):
            continue
        ctx.case(text, name)
        y = op(mk())
        nothing(ctx, y, rs, 'the result')
        if kind is not None:
            ctx.check(kind_name(y) == kind, 'the result is a %s', kind_name(y))
        ctx.check(y.equal(nests(rs)) is True, 'the result is not element-wise equal to nothing')
        if name == 'copy()':
            ctx.check(kind_name(y) == kind_name(x), 'the copy is a %s', kind_name(y))
        # once more, when this result has not been seen
        if seen is not None:
            sig = keyed(signature(y))
            if sig in seen:
                continue
            seen.add(sig)
        for name2, op2, rs2, kind2 in operations(rs):
            if kind_name(y) == 'Buffer' and not (name2.startswith('as_') or name2 == 'copy()'):
                continue
            ctx.case(text, name, name2)
            z = op2(y)
            nothing(ctx, z, rs2, 'the result')
            ctx.outcome((kind_name(x), name, name2, rs2))
    if not buffer:
        for index in (slice(None), (slice(None, None, -1),) * len(sh)):
            for value in (nests(sh), x, mk(), build(('Strided',), nests(sh)) if nests(sh) else []):
                ctx.case(text, '[%r] = an array without elements' % (index,))
                x[index] = value
                nothing(ctx, x, sh, 'the array after the assignment')
