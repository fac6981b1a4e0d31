"""Layout of dimension mappings: the documented reduction, for every permutation, partitioning and storage."""
import itertools
from .. import core, ref, gen
from ..impl import (DEFAULT, kw, is_hole, with_placeholders, all_configs, large, nested_configs, wide_shapes, wide_configs, build, split, part, make, expect_reads, patterns, alternate, KIND, dense,
                    kind_name, placeholder, variants)

PROPERTY = 'C18'
BOUND = ('all permutations and partitionings of all shapes of 1..4 dimensions with sizes 1..3 (4-D: 1..2), a spread of those of 5 and 6 '
         'dimensions, all storage formats, mappings whose storage is a mapping, the examples of the documentation; reads of the storage, '
         'writes through the storage and through the mapping, default parameters, arrays and slices of all formats made mappings, with the same and with another placeholder; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


def small(tier):
    for n in (1, 2, 3, 4):
        top = {1: 5, 2: 5, 3: 4, 4: 3}[n] if tier == 'quick' else {1: 9, 2: 7, 3: 5, 4: 4}[n]
        for shape in gen.shapes((n,), range(1, top)):
            kinds = ('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer') if n < 4 else ('Strided', 'CSR')
            for dims, cuts, k in gen.dm_configs(n, kinds):
                yield shape, ('DM', dims, cuts, k)
            if n < 4:
                for cfg in nested_configs(n):
                    yield shape, cfg


def wide(tier):
    for shape in wide_shapes() + [(2, 3, 4, 1, 2), (3, 2, 1, 2, 2), (2, 3, 8)]:
        n = len(shape)
        if n > 6:
            for c in gen.dm_spread(n, 60 if tier == 'quick' else 300):
                yield shape, ('DM',) + c
            continue
        cfgs = list(gen.dm_configs(n))
        step = max(1, len(cfgs) // (150 if tier == 'quick' else 3000))
        if step > 1 and step % 2 == 0:
            step += 1
        for c in cfgs[::step]:
            yield shape, ('DM',) + c


SOURCES = [('Strided',), ('COO',), ('FlatCOO',), ('CSR',), ('Buffer',)]


def converted(tier):
    """arrays and slices of arrays that are made mappings again"""
    for n, top in ((1, 5), (2, 4), (3, 3)) if tier == 'quick' else ((1, 7), (2, 5), (3, 4)):
        for shape in gen.shapes((n,), range(1, top)):
            cfgs = [c for c in SOURCES if (c[0] != 'Buffer' or n == 1) and (c[0] != 'CSR' or n == 2)]
            cfgs += [('DM',) + c for c in gen.dm_configs(n, ('Strided', 'COO') if n > 2 and tier == 'quick' else ('Strided', 'COO', 'CSR'))]
            for k, cfg in enumerate(cfgs):
                yield shape, cfg
    for shape in wide_shapes() + [(70, 2), (3, 30), (90,)]:
        for cfg in list(wide_configs(len(shape)))[::6 if tier == 'quick' else 2]:
            yield shape, cfg


def jobs(tier):
    k = 16 if tier == 'quick' else 96
    return split('small', k, tier=tier) + split('wide', k, tier=tier) + split('defaults', 4) + split('converted', k, tier=tier) + split('examples', 1) + split('large', 8) + with_placeholders(
        lambda ph: split('small', 8, tier=tier, ph=ph, every=11) + split('wide', 8, tier=tier, ph=ph, every=7) + split('defaults', 4, ph=ph) + split('large', 8, ph=ph, every=5))


def run_job(job, ctx):
    leg = job['leg']
    if leg in ('small', 'wide'):
        for shape, cfg in part((small if leg == 'small' else wide)(job['tier']), job):
            cells = list(itertools.product(*map(range, shape)))
            for spec in (alternate(shape), set(cells)):
                seq, table = make(shape, spec)
                ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x.data')
                x = build(cfg, seq)
                layout(ctx, x, cfg, shape, table)
                ctx.traces += 1
                ctx.state((shape, cfg, len(spec)))
    elif leg == 'converted':
        for shape, cfg in part(converted(job['tier']), job):
            reconvert(ctx, job, shape, cfg)
    elif leg == 'large':
        for shape, cfg, spec in part((c for c in large() if c[1][0] == 'DM'), job):
            seq, table = make(shape, spec)
            ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x.data')
            layout(ctx, build(cfg, seq), cfg, shape, table)
            ctx.traces += 1
            ctx.state((shape, cfg, len(spec)))
    elif leg == 'defaults':
        for shape in part([(1,), (4,), (2, 3), (3, 2), (2, 2, 3), (2, 1, 2, 2), (2, 1, 1, 2, 2)], job):
            n = len(shape)
            seq, table = make(shape, alternate(shape))
            last = (n - 1,) if n > 1 else ()
            for args, cfg in (
                    ({}, ('DM', tuple(range(n)), last, 'Strided')),
                    ({'storage_class': KIND['COO']}, ('DM', tuple(range(n)), last, 'COO')),
                    ({'storage_class': KIND['Buffer']}, ('DM', tuple(range(n)), (), 'Buffer')),
                    ({'dimensions': tuple(range(n))[::-1]}, ('DM', tuple(range(n))[::-1], last, 'Strided')),
                    ({'partitioning': ()}, ('DM', tuple(range(n)), (), 'Strided'))) + tuple(
                        ({'partitioning': k}, ('DM', tuple(range(n)), (k,), 'Strided')) for k in range(1, n)):
                for src in (seq, build(('Strided',), seq), build(('COO',), seq)):
                    ctx.case('DM.fromobject(%r, %r)' % (src, args))
                    x = KIND['DM'].fromobject(src, **args, **(kw(DEFAULT) if src is seq else {}))
                    layout(ctx, x, cfg, shape, table)
                    ctx.traces += 1
                    if kind_name(src) != 'list':
                        ctx.case('%r.as_DM(%r)' % (src, args))
                        layout(ctx, src.as_DM(**args), cfg, shape, table)
                    ctx.state((shape, repr(args), kind_name(src)))
    else:
        examples(ctx)


def reconvert(ctx, job, shape, cfg):
    for count, (text, maker, sh, table) in enumerate(variants(cfg, shape, alternate(shape), None if cfg[0] == 'Buffer' or len(shape) > 3 or max(shape) > 6 else 0)):
        n = len(sh)
        targets = list(gen.dm_configs(n, ('Strided', 'COO', 'CSR')) if n < 4 else gen.dm_spread(n, 12, ('Strided', 'COO', 'CSR')))
        some = [{}] + [dict(dimensions=d, partitioning=c, storage_class=KIND[k]) for d, c, k in targets]
        # every slice is made its default mapping and one other; whole arrays are made every mapping
        few = some if not count and (n < 3 or n > 3 or job['tier'] != 'quick') else [some[0], some[1 + count % (len(some) - 1)]]
        if cfg[0] == 'DM' and len(cfg[1]) == n and isinstance(cfg[3], str):
            few.append(dict(dimensions=cfg[1], partitioning=cfg[2], storage_class=KIND[cfg[3]]))
        for args in few:
            for new in ({}, {'unspecified': 0}):
                dims, cuts = args.get('dimensions', tuple(range(n))), args.get('partitioning', (n - 1,) if n > 1 else ())
                kind = args['storage_class'].__name__ if args else 'Strided'
                ctx.case('y = %s' % text, 'y.as_DM(%s)' % ', '.join('%s=%r' % i for i in sorted({**args, **new}.items())))
                want = {k: (0 if new and is_hole(v) else v) for k, v in table.items()}
                x = maker().as_DM(**args, **new)
                layout(ctx, x, ('DM', dims, cuts, kind), sh, want, new.get('unspecified', placeholder()))
                ctx.traces += 1
        ctx.state((text, n))


def layout(ctx, x, cfg, shape, table, hole=DEFAULT):
    if hole is DEFAULT:
        hole = placeholder()
    expect_reads(ctx, x, shape, table, 'of the array')
    groups = ref.groups(cfg[1], cfg[2])
    rshape = ref.reduce_shape(shape, groups)
    where = {ref.reduce_index(shape, groups, i): i for i in table}
    d = x.data
    want = {r: table[where[r]] for r in itertools.product(*map(range, rshape))}
    inner = cfg[3] if isinstance(cfg[3], str) else cfg[3][0]
    ctx.check(kind_name(d) == inner, 'the storage is a %s', kind_name(d))
    expect_reads(ctx, d, rshape, want, 'of the storage')
    ctx.outcome((rshape, tuple(want.values())))
    if not isinstance(cfg[3], str):
        layout(ctx, d, cfg[3], rshape, want, hole)
    # one-to-one: an element written on either side is read on the other
    for n, (r, i) in enumerate(sorted(where.items())):
        if n > 3 and n % (5 if len(where) < 100 else 53) and n < len(where) - 2:
            continue
        if not dense(cfg) and core.same(table[i], hole):
            continue
        old = table[i]
        x[i] = 'w%d' % n
        got = d[r] if kind_name(d) != 'Buffer' else d[r[0]]
        ctx.check(got == 'w%d' % n, 'element written to %r of the mapping is not at %r of the storage', i, r)
        d[r] = 's%d' % n
        ctx.check(x[i] == 's%d' % n, 'element written to %r of the storage is not at %r of the mapping', r, i)
        x[i] = old
        ctx.transitions += 4
    expect_reads(ctx, x, shape, table, 'after elements were written and restored')


def ints(text):
    return [None if t == 'X' else int(t) for t in text.split()]


def table2(text):
    return [ints(line) for line in text.strip().splitlines()]


def flat(b):
    return [b[i] for i in range(len(b))]


def examples(ctx):
    """GentleIntroductionToGCS.md"""
    ctx.case('COO example of the documentation')
    x = KIND['COO'].fromobject(table2('X 1 X\n2 X 3'))
    ctx.same([[x.indices[j, k] for k in range(3)] for j in range(2)], [[0, 1, 1], [1, 0, 2]], 'indices')
    ctx.same(flat(x.data), [1, 2, 3], 'values')
    ctx.case('CRS example of the documentation')
    seq = table2('X X 1 X 2\n3 X X 4 X\n5 X 6 7 X\nX X X 8 9')
    x = KIND['CSR'].fromobject(seq)
    crs = ([0, 2, 4, 7, 9], [2, 4, 0, 3, 0, 2, 3, 3, 4], [1, 2, 3, 4, 5, 6, 7, 8, 9])
    ctx.same(tuple(map(flat, (x.crow_indices, x.col_indices, x.data))), crs, 'crow_indices, col_indices, values')
    ctx.case('CCS example of the documentation')
    x = KIND['DM'].fromobject(seq, dimensions=(1, 0), partitioning=(1,), storage_class=KIND['CSR']).data
    ccs = ([0, 2, 2, 4, 7, 9], [1, 2, 0, 2, 1, 2, 3, 0, 3], [3, 5, 1, 6, 4, 7, 8, 2, 9])
    ctx.same(tuple(map(flat, (x.crow_indices, x.col_indices, x.data))), ccs, 'ccol_indices, row_indices, values')
    elements = {(0, 0, 1): 1, (0, 0, 2): 2, (0, 0, 3): 3, (0, 2, 1): 4, (1, 0, 0): 5, (1, 0, 3): 6, (1, 2, 0): 7, (1, 2, 2): 8, (1, 2, 3): 9}
    seq = ref.nested((2, 3, 4), lambda i: elements.get(i))
    for dims, cuts, rows, want in (
            ((0, 1, 2), (2,), 'X 1 2 3\nX X X X\nX 4 X X\n5 X X 6\nX X X X\n7 X 8 9',
             ([0, 3, 3, 4, 6, 6, 9], [1, 2, 3, 1, 0, 3, 0, 2, 3], [1, 2, 3, 4, 5, 6, 7, 8, 9])),
            ((0, 1, 2), (1,), 'X 1 2 3 X X X X X 4 X X\n5 X X 6 X X X X 7 X 8 9',
             ([0, 4, 9], [1, 2, 3, 9, 0, 3, 8, 10, 11], [1, 2, 3, 4, 5, 6, 7, 8, 9])),
            ((2, 1, 0), (1,), 'X 5 X X X 7\n1 X X X 4 X\n2 X X X X 8\n3 6 X X X 9',
             ([0, 2, 4, 6, 9], [1, 5, 0, 4, 0, 5, 0, 1, 5], [5, 7, 1, 4, 2, 8, 3, 6, 9]))):
        ctx.case('GCS example of the documentation, dimensions=%r, partitioning=%r' % (dims, cuts))
        x = KIND['DM'].fromobject(seq, dimensions=dims, partitioning=cuts, storage_class=KIND['CSR'])
        d = x.data
        rows = table2(rows)
        ctx.same(tuple(d.shape), (len(rows), len(rows[0])), 'shape of the reduction')
        ctx.same([[d[i, j] for j in range(len(rows[0]))] for i in range(len(rows))], rows, 'reduction')
        ctx.same(tuple(map(flat, (d.crow_indices, d.col_indices, d.data))), want, 'crow_indices, col_indices, values')
        ctx.traces += 1
        ctx.state((dims, cuts))
    # all mappings of an array with the shape (2, 3, 4) whose elements say their index
    seq = ref.nested((2, 3, 4), lambda i: '%d%d%d' % i)
    for cols, first in (([0], '000 001 002 003 010 011 012 013 020 021 022 023'), ([1], '000 001 002 003 100 101 102 103'),
                        ([2], '000 010 020 100 110 120')):
        dims = tuple(cols + [d for d in range(3) if d not in cols])
        ctx.case('table of mappings of the documentation, row dimensions %r' % (cols,))
        d = KIND['DM'].fromobject(seq, dimensions=dims, partitioning=(1,)).data
        ctx.same([d[0, j] for j in range(d.shape[1])], first.split(), 'first row')
    ctx.case('strided example of the documentation')
    B, St = KIND['Buffer'], KIND['Strided']
    x = St.fromobject([[1, 2, 3], [4, 5, 6]])
    ctx.same(tuple(x.strides), (3, 1), 'strides')
    ctx.same(flat(x.data), [1, 2, 3, 4, 5, 6], 'memory')
    y = St((2, 3), (-1, -2), B(1, 5, [6, 3, 5, 2, 4, 1]))
    ctx.same([[y[i, j] for j in range(3)] for i in range(2)], [[1, 2, 3], [4, 5, 6]], 'array with strides (-1, -2) and offset 5')
