"""Construction: every format holds exactly the given sequence."""
import itertools
from .. import core, ref, gen
from ..impl import (all_configs, plain_configs, large, wide_configs, wide_shapes, build, split, part, make, expect_reads, read, tuplify, deep,
                    patterns, is_storage, seq_shape, fresh, KIND, kind_name, BIG, Odd, ODD as ODD_ELEMENTS)

PROPERTY = 'C07'
BOUND = ('every subset of specified cells for all shapes of 1..3 dimensions with up to 8 cells (thorough: 11) in every format, dimension '
         'permutation, partitioning and storage of dimension mappings; six patterns for larger and up to 6-D shapes, three for arrays of up to 1100 elements; placeholders None, '
         'numbers, strings; lists, tuples, and lists of arrays of every format and of slices; falsy and odd element values; every leading part of sequences and arrays of every format')

SMALL = [(1,), (2,), (3,), (5,), (1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1), (1, 1, 1), (1, 2, 2), (2, 1, 2), (2, 2, 1),
         (1, 1, 3), (1, 3, 1), (3, 1, 2)]
MORE = [(6,), (7,), (2, 4), (4, 2), (2, 2, 2)]
DEEP = [(9,), (3, 3), (2, 1, 4), (1, 3, 3), (5, 2), (2, 5), (11,)]


def small(tier):
    for shape in SMALL + MORE + (DEEP if tier != 'quick' else []):
        cells = list(itertools.product(*map(range, shape)))
        for cfg in all_configs(len(shape)):
            for spec in gen.subsets(cells):
                yield shape, cfg, spec


def larger(tier):
    more = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 4), (4, 3), (9,)]
    if tier != 'quick':
        more += [(3, 4, 2), (2, 2, 2, 2), (2, 3, 1, 2), (5, 6), (25,)]
    for shape in more:
        for cfg in all_configs(len(shape)):
            for _, spec in patterns(itertools.product(*map(range, shape))):
                yield shape, cfg, spec
    for shape in wide_shapes():
        for cfg in wide_configs(len(shape)):
            for _, spec in patterns(itertools.product(*map(range, shape)), few=tier == 'quick'):
                yield shape, cfg, spec


PLACEHOLDERS = [0, -1, 7, '', 'xyz', 2.5, BIG, Odd()]


def placeholder_space():
    for shape in [(3,), (2, 2), (1, 3), (2, 1, 2)]:
        cells = list(itertools.product(*map(range, shape)))
        for cfg in all_configs(len(shape)):
            for p in range(len(PLACEHOLDERS)):
                for form in ('none', 'same', 'both'):
                    for _, spec in patterns(cells, few=True):
                        yield shape, cfg, p, form, spec


NAN = float('nan')
ODD = ODD_ELEMENTS + [NAN]


def values_space():
    for shape in [(4,), (2, 2), (2, 1, 2)]:
        cells = list(itertools.product(*map(range, shape)))
        for cfg in all_configs(len(shape)):
            for shift in range(0, len(ODD), 3):
                yield shape, cfg, shift


def jobs(tier):
    k = 16 if tier == 'quick' else 96
    return (split('small', k, tier=tier) + split('larger', k, tier=tier) + split('placeholder', 12) + split('values', 4)
            + split('empty', 1) + split('large', 16) + split('rows', 16, tier=tier) + split('part', 8, tier=tier))


def part_space(tier):
    """(shape, where the elements come from, format, its keywords)"""
    for shape in [(4,), (3, 3), (2, 3), (2, 2, 2)] + ([(7,), (4, 3), (2, 3, 2), (2, 2, 1, 2)] if tier != 'quick' else []):
        n = len(shape)
        for src in [None] + list(all_configs(n)):
            for k in list(plain_configs(n, True)) + [('DM',)]:
                for new in ({}, {'unspecified': -1}):
                    yield shape, src, k, new


def leading(ctx, shape, src, k, new):
    """the shape is given: the array holds the leading part"""
    seq, table = make(shape, set(c for i, c in enumerate(itertools.product(*map(range, shape))) if i % 3 != 1))
    x = seq if src is None else build(src, seq)
    for sh in itertools.product(*[range(1, n + 1) for n in shape]):
        ctx.case('x = %s%r' % ('' if src is None else '%r.fromobject ' % (src,), seq), '%s.fromobject(x, shape=%r, %r)' % (k[0], sh, new))
        y = KIND[k[0]].fromobject(x, shape=sh, **new)
        want = {i: -1 if new and table[i] is None else table[i] for i in itertools.product(*map(range, sh))}
        expect_reads(ctx, y, sh, want, 'of the leading part')
        ctx.check(kind_name(y) == k[0], 'not a %s: %s', k[0], kind_name(y))
        ctx.traces += 1
    ctx.state((shape, src, k, repr(new)))


def rows_space(tier):
    """sequences whose items are arrays: (shape, number of axes that are lists, formats of the items, format, pattern)"""
    for shape in [(2, 3), (3, 2), (1, 4), (2, 2, 2), (1, 2, 3)] + ([(4, 4), (3, 2, 2), (2, 2, 1, 2)] if tier != 'quick' else []):
        n = len(shape)
        for depth in range(1, n):
            rows = list(all_configs(n - depth))
            if n - depth == 1:
                rows.append(('Buffer',))
            targets = list(all_configs(n))
            for a, first in enumerate(rows):
                for b in range(0, len(rows), max(1, len(rows) // 4)):
                    for t in range((a + b) % 7 if tier == 'quick' or n > 2 else 0, len(targets), 7 if tier == 'quick' or n > 2 else 1):
                        for _, spec in patterns(itertools.product(*map(range, shape)), few=True)[:2]:
                            yield shape, depth, (first, rows[(a + b) % len(rows)]), targets[t], frozenset(spec), (a + b + t) % 3


def rows(ctx, shape, depth, kinds, cfg, spec, form):
    seq, table = make(shape, spec)
    count = itertools.count()

    def nest(s, d):
        if d == 0:
            k = next(count) % 2
            if form == 1 and kinds[k][0] != 'Buffer':
                # a slice of something larger
                more = ref.nested((shape[depth] + 1,) + shape[depth + 1:], lambda i: 'no' if i[0] == 0 else ref.rget(s, (i[0] - 1,) + i[1:]))
                return build(kinds[k], more)[1:]
            return build(kinds[k], s)
        out = [nest(x, d - 1) for x in s]
        return tuple(out) if form == 2 else out
    given = nest(seq, depth)
    ctx.case('%r' % (cfg,), 'seq: %s of arrays %r with the elements %r' % ('tuples' if form == 2 else 'lists', kinds, seq), 'the arrays are slices' if form == 1 else '')
    x = build(cfg, given)
    expect_reads(ctx, x, shape, table, 'of the array')
    # no sharing
    cells = [i for i in table if i in spec]
    for i in cells:
        x[i] = 'new'
    for i in table:
        ctx.same(item(given, i, depth), table[i], 'item %r of the sequence after assignments to the array', i)
    ctx.traces += 1
    ctx.state((shape, depth, kinds, cfg, spec, form))


def item(seq, index, depth):
    for i in index[:depth]:
        seq = seq[i]
    return seq[index[depth:]]


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'rows':
        for args in part(rows_space(job['tier']), job):
            rows(ctx, *args)
    elif leg == 'part':
        for args in part(part_space(job['tier']), job):
            leading(ctx, *args)
    elif leg in ('small', 'larger', 'large'):
        for shape, cfg, spec in part(large() if leg == 'large' else (small if leg == 'small' else larger)(job['tier']), job):
            seq, table = make(shape, spec)
            ctx.case('%r' % (cfg,), 'seq = %r' % (seq,))
            before = deep(seq)
            x = build(cfg, seq)
            expect_reads(ctx, x, shape, table, 'of the array')
            ctx.check(x.unspecified is None, 'placeholder %r, expected None', x.unspecified)
            ctx.check(core.same(seq, before), 'construction changed its input')
            ctx.state((shape, cfg, frozenset(spec)))
            # no sharing with the input: change every item of the input
            scramble(seq, 'changed')
            expect_reads(ctx, x, shape, table, 'after the input was changed')
            if leg == 'small':
                y = build(cfg, tuplify(before))
                expect_reads(ctx, y, shape, table, 'of the array made from tuples')
            ctx.traces += 1
            ctx.outcome((cfg[0], shape, len(spec)))
    elif leg == 'placeholder':
        for shape, cfg, p, form, spec in part(placeholder_space(), job):
            u = PLACEHOLDERS[p]
            cells = list(itertools.product(*map(range, shape)))
            vals = {c: 'v%d' % n for n, c in enumerate(cells)}
            holes = {'none': lambda n: None, 'same': lambda n: fresh(u), 'both': lambda n: u if n % 2 else None}[form]
            seq = ref.nested(shape, lambda i: vals[i] if i in spec else holes(cells.index(i)))
            table = {c: vals[c] if c in spec else u for c in cells}
            ctx.case('%r' % (cfg,), 'seq = %r, unspecified=%r' % (seq, u))
            x = build(cfg, seq, u)
            expect_reads(ctx, x, shape, table, 'of the array')
            ctx.check(x.unspecified is u or core.same(x.unspecified, u), 'placeholder %r, expected %r', x.unspecified, u)
            ctx.traces += 1
            ctx.state((shape, cfg, p, form, frozenset(spec)))
    elif leg == 'values':
        for shape, cfg, shift in part(values_space(), job):
            cells = list(itertools.product(*map(range, shape)))
            vals = {c: ODD[(n + shift) % len(ODD)] for n, c in enumerate(cells)}
            seq = ref.nested(shape, lambda i: vals[i])
            ctx.case('%r' % (cfg,), 'seq = %r' % (seq,))
            x = build(cfg, seq)
            expect_reads(ctx, x, shape, vals, 'of the array')
            ctx.traces += 1
            ctx.state((shape, cfg, shift))
    else:
        for seq, shape in (([], (0,)), ([[]], (1, 0)), ([[], []], (2, 0)), ([[[]], [[]]], (2, 1, 0))):
            for cfg in plain_configs(len(shape), buffer=True):
                ctx.case('%r' % (cfg,), 'seq = %r' % (seq,))
                x = build(cfg, seq)
                ctx.check(is_storage(x) and tuple(x.shape) == shape, 'shape %r, expected %r', x.shape, shape)
                ctx.traces += 1
                ctx.state((cfg, shape))


def scramble(seq, v):
    for i in range(len(seq)):
        if isinstance(seq[i], list):
            scramble(seq[i], v)
        else:
            seq[i] = v
