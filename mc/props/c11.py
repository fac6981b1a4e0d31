"""Assignment: exactly the addressed specified elements change, to the given values."""
import itertools
from .. import core, ref, gen
from ..impl import (is_hole, ODD, plain, placeholder, with_placeholders, all_configs, large, large_indices, plain_configs, wide_configs, wide_shapes, build, split, part, make, expect_reads, variants, alternate,
                    dense, retyped, tuplify, patterns, view_indices)

PROPERTY = 'C11'
BOUND = ('every format and dimension mapping, fresh arrays and slices of them, shapes of 1..3 dimensions (up to 6-D and up to 1100 elements with fewer indices); '
         'every element by every spelling of its index; assignments through slices with menus of 7 items per axis, every way to write a slice for sizes 1..3; integers of other types; the value given as nested list, '
         'nested tuple, arrays of other formats, lists and tuples of arrays and slices, a slice of the same array (overlapping), a list of its items and the array itself; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements; every one of 19 odd values over every other, by element and by slice')
ASSUMPTIONS = ['assigned sequences have the shape of the addressed part; a position without a stored element stays unspecified']


def space(tier):
    shapes = [(1,), (4,), (1, 2), (2, 2), (3, 2), (2, 2, 2)]
    if tier != 'quick':
        shapes += [(6,), (3, 3), (2, 4), (2, 1, 3), (3, 2, 2)]
    for shape in shapes:
        n = len(shape)
        cfgs = list(all_configs(n))
        if n == 3 and tier == 'quick':
            cfgs = cfgs[:3] + cfgs[3::9]
        for cfg in cfgs:
            pats = [alternate(shape)] + ([set(itertools.product(*map(range, shape)))] if n < 3 else [])
            for spec in pats:
                yield shape, cfg, spec


def wide(tier):
    for shape in wide_shapes():
        for cfg in list(wide_configs(len(shape)))[::6 if tier == 'quick' else 1]:
            yield shape, cfg, alternate(shape, 4)


def jobs(tier):
    k = 32 if tier == 'quick' else 160
    return split('elements', k, tier=tier) + split('slices', k, tier=tier) + split('wide', k, tier=tier) + split('buffer', 1) + split('large', 24) + split('spelling', 16) + split('integers', 16, tier=tier) + split('odd', 16, tier=tier) + with_placeholders(
        lambda ph: split('elements', 8, tier=tier, ph=ph, every=5) + split('slices', 8, tier=tier, ph=ph, every=7) + split('wide', 8, tier=tier, ph=ph, every=5)
        + split('large', 8, ph=ph, every=7))


def can(cfg, table, index):
    return dense(cfg) or not is_hole(table[index])


def run_job(job, ctx):
    leg = job['leg']
    if leg == 'elements':
        for shape, cfg, spec in part(space(job['tier']), job):
            for text, mk, sh, table in variants(cfg, shape, spec):
                x = mk()
                now = dict(table)
                n = 0
                for index in itertools.product(*map(range, sh)):
                    for mask in range(1 << len(sh)):
                        given = tuple(i - k if mask >> d & 1 else i for d, (i, k) in enumerate(zip(index, sh)))
                        if len(sh) == 1 and mask == 1:
                            given = given[0]
                        n += 1
                        ctx.case(text, '%d assignments, the last one: [%r] = %r' % (n, given, n + 1000))
                        x[given] = n + 1000
                        ctx.transitions += 1
                        if can(cfg, table, index):
                            now[index] = n + 1000
                        if mask in (0, (1 << len(sh)) - 1):
                            expect_reads(ctx, x, sh, now, 'after the assignment')
                ctx.traces += 1
                ctx.state((shape, cfg, frozenset(spec), text))
    elif leg in ('slices', 'wide'):
        for shape, cfg, spec in part((space if leg == 'slices' else wide)(job['tier']), job):
            views = leg == 'slices' and len(spec) < ref.prod(shape)
            for text, mk, sh, table in variants(cfg, shape, spec, 0 if views and len(shape) < 3 else None):
                menu = list(gen.index_menu(sh, 0) if leg == 'slices' else gen.thin_menu(sh, 0))
                if len(sh) > 1 and leg == 'slices':
                    menu += [(i,) for i in gen.axis_menu(sh[0], 0)]
                for index in menu + [None, slice(None), -1, slice(-2, None)]:
                    slices(ctx, cfg, text, mk, sh, table, index, full=leg == 'slices')
    elif leg == 'spelling':
        # every way to write a slice
        for shape, index in part(gen.spelled(3), job):
            for cfg in list(plain_configs(len(shape))) + [('DM', tuple(range(len(shape)))[::-1], (), 'Strided')]:
                sh, m = ref.select(shape, index)
                seq, table = make(shape, alternate(shape))
                x = build(cfg, seq)
                ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x[%r] = 500, ...' % (index,))
                x[index] = ref.nested(sh, lambda i: 500 + list(m).index(i)) if 0 not in sh else []
                now = dict(table)
                for n, (k, v) in enumerate(m.items()):
                    if can(cfg, table, v):
                        now[v] = 500 + n
                expect_reads(ctx, x, shape, now, 'after the assignment')
                ctx.transitions += 1
                ctx.traces += 1
                ctx.state((shape, cfg, repr(index)))
    elif leg == 'integers':
        # integers of other types
        for shape, cfg in part(((s, c) for s in ((3,), (2, 2), (1, 2, 2)) for c in all_configs(len(s))), job):
            for n, index in enumerate(gen.index_menu(shape, 0 if len(shape) < 3 else -1)):
                sh, m = ref.select(shape, index)
                if 0 in sh:
                    continue
                seq, table = make(shape, alternate(shape))
                given = retyped(index, n % 2 == 1)
                ctx.case('x = %r.fromobject(%r)' % (cfg, seq), 'x[%r] = 500, ... (%s)' % (given, 'with True and False for 1 and 0' if n % 2 else 'integers of a class derived from int'))
                x = build(cfg, seq)
                x[given] = ref.nested(sh, lambda i: 500 + list(m).index(i)) if sh else 500
                now = dict(table)
                for k, v in enumerate(m.values()):
                    if can(cfg, table, v):
                        now[v] = 500 + k
                expect_reads(ctx, x, shape, now, 'after the assignment')
                ctx.transitions += 1
            ctx.traces += 1
            ctx.state((shape, cfg))
    elif leg == 'large':
        for shape, cfg, spec in part(large(), job):
            for text, mk, sh, table in variants(cfg, shape, spec, None):
                for index in (large_indices(shape)[2:8] if cfg[0] != 'DM' or dense(cfg) else large_indices(shape)[6:7]) + [tuple(n // 2 for n in shape)]:
                    slices(ctx, cfg, text, mk, sh, table, index, full=False)
    elif leg == 'odd':
        for args in part(odd_space(job['tier']), job):
            odd(ctx, *args)
    else:
        for n in range(1, 6):
            for size in range(1, n + 1):
                for off in range(n - size + 1):
                    base = list(range(n))
                    x = build(('Buffer',), base)[off:off + size]
                    now = list(range(off, off + size))
                    for i in range(size):
                        for given in (i, (i,)):
                            ctx.case('Buffer.fromobject(%r)[%d:%d][%r] = 99' % (base, off, off + size, given))
                            x[given] = 99 + i
                            now[i] = 99 + i
                            expect_reads(ctx, x, (size,), {(k,): v for k, v in enumerate(now)}, 'after the assignment')
                            ctx.transitions += 1
                            ctx.state((n, size, off, given))
                    ctx.traces += 1


def odd_space(tier):
    """(format, old value)"""
    for n in (1, 2):
        for cfg in [('Buffer',)] * (n == 1) + list(all_configs(n)):
            for a in ODD:
                yield n, cfg, a


def odd(ctx, n, cfg, a):
    """values that are equal but not the same, and values that are not like numbers"""
    shape = (2,) * n
    cells = list(itertools.product(range(2), repeat=n))
    for b in ODD:
        now = {c: a for c in cells}
        for c in cells:
            x = build(cfg, ref.nested(shape, lambda i: a))
            ctx.case('x = %r.fromobject(%r)' % (cfg, ref.nested(shape, lambda i: a)), 'x[%r] = %r' % (c, b))
            x[c if n > 1 or c[0] else 0] = b
            expect_reads(ctx, x, shape, {k: b if k == c else a for k in cells}, 'after the assignment')
            ctx.transitions += 1
        if cfg[0] != 'Buffer':
            for index, kind in ((slice(None, None, -1), None), (slice(1, None), ('Strided',)), (None, ('COO',))):
                x = build(cfg, ref.nested(shape, lambda i: a))
                rs, m = ref.select(shape, index)
                value = ref.nested(rs, lambda i: b)
                ctx.case('x = %r.fromobject(%r)' % (cfg, ref.nested(shape, lambda i: a)), 'x[%r] = %r of %r' % (index, kind or 'list', value))
                x[index] = build(kind, value) if kind else value
                expect_reads(ctx, x, shape, {k: b if k in m.values() else a for k in cells}, 'after the assignment')
                ctx.transitions += 1
        ctx.traces += 1
    ctx.state((n, cfg, repr(a), type(a).__name__))


def nest(seq, depth, make):
    return make(seq) if not depth else [nest(x, depth - 1, make) for x in seq]


def slices(ctx, cfg, text, mk, sh, table, index, full):
    rs, m = ref.select(sh, index)
    if not rs:
        values = [('value', 777, {(): 777})]
        idx = m[()]
        x = mk()
        ctx.case(text, '[%r] = 777' % (index,))
        x[index] = 777
        now = dict(table)
        if can(cfg, table, idx):
            now[idx] = 777
        expect_reads(ctx, x, sh, now, 'after the assignment')
        ctx.transitions += 1
        ctx.traces += 1
        return
    new = {k: 500 + i for i, k in enumerate(m)}
    if 0 in rs:
        forms = [('nested list', [], {})]
    else:
        seq = ref.nested(rs, lambda i: new[i])
        forms = [('nested list', seq, new), ('nested tuple', tuplify(seq), new)]
        if full or len(rs) == 1:
            holes = {k: (v if i % 2 else placeholder()) for i, (k, v) in enumerate(new.items())}
            hseq = ref.nested(rs, lambda i, p=plain(holes): p[i])
            forms.append(('Strided', build(('Strided',), seq), new))
            forms.append(('COO', build(('COO',), hseq), holes))
            forms.append(('DM', build(('DM', tuple(range(len(rs)))[::-1], (), 'FlatCOO'), hseq), holes))
            if len(rs) == 1:
                forms.append(('Buffer', build(('Buffer',), seq), new))
        # lists of arrays, also of slices of the assigned array itself
        for depth in range(1, len(rs)):
            kinds = list(plain_configs(len(rs) - depth)) + [('DM', tuple(range(len(rs) - depth))[::-1], (), 'COO')]
            first = len(text) + len(repr(index)) + depth
            count = itertools.count(first)
            forms.append(('lists of arrays at depth %d' % depth, nest(seq, depth, lambda v: build(kinds[next(count) % len(kinds)], v)), new))
            count2 = itertools.count(first)
            forms.append(('tuples of slices of arrays at depth %d' % depth,
                          tuplify(nest(seq, depth, lambda v: build(kinds[next(count2) % len(kinds)], v[::-1])[::-1])), new))
    for name, value, want in forms:
        x = mk()
        ctx.case(text, '[%r] = %r as %s' % (index, want, name))
        before = core.same(value, value) and repr(value) if isinstance(value, (list, tuple)) and 'arrays' not in name else None
        x[index] = value
        ctx.transitions += 1
        now = dict(table)
        for k, v in m.items():
            if can(cfg, table, v):
                now[v] = want[k]
        expect_reads(ctx, x, sh, now, 'after the assignment')
        if before is not None:
            ctx.check(repr(value) == before, 'the assigned value was changed')
        elif isinstance(value, (list, tuple)):
            for k in want:
                v, d = value, 0
                while isinstance(v, (list, tuple)):
                    v, d = v[k[d]], d + 1
                ctx.check(core.same(v[k[d:]], want[k]), 'the assigned value was changed')
        elif 0 not in rs:
            expect_reads(ctx, value, rs, want, 'of the assigned value')
        ctx.traces += 1
        ctx.outcome((name, rs, tuple(now.items())))
    ctx.state((text, repr(index)))
    if 0 in rs:
        return
    # the value is the addressed part of the same array, reversed, and a shifted part
    for j in range(len(rs)):
        back = tuple(slice(None, None, -1) if i == j else slice(None) for i in range(len(rs)))
        x = mk()
        ctx.case(text, '[%r] = x[%r][%r]' % (index, index, back))
        x[index] = x[index][back]
        _, mb = ref.select(rs, back)
        now = dict(table)
        for k, v in m.items():
            if can(cfg, table, v):
                now[v] = table[m[mb[k]]]
        expect_reads(ctx, x, sh, now, 'after the overlapping assignment')
        if not j and len(rs) > 1:
            # the same by a list of its items
            x = mk()
            ctx.case(text, 'y = x[%r]; y[:] = [y[%d], ..., y[0]]' % (index, rs[0] - 1))
            y = x[index]
            ytable = {k: table[v] for k, v in m.items()}
            y[:] = [y[i] for i in range(rs[0])][::-1]
            expect_reads(ctx, y, rs, {k: ytable[mb[k]] if can(cfg, ytable, k) else ytable[k] for k in ytable}, 'after the overlapping assignment')
            ctx.transitions += 1
        ctx.transitions += 1
        ctx.traces += 1
        if rs[j] > 1 and full:
            for a, b in ((slice(1, None), slice(None, -1)), (slice(None, -1), slice(1, None))):
                ia = tuple(a if i == j else slice(None) for i in range(len(rs)))
                ib = tuple(b if i == j else slice(None) for i in range(len(rs)))
                x = mk()
                ctx.case(text, 'y = x[%r]; y[%r] = y[%r]' % (index, ia, ib))
                y = x[index]
                ytable = {k: table[v] for k, v in m.items()}
                _, ma = ref.select(rs, ia)
                _, mb = ref.select(rs, ib)
                y[ia] = y[ib]
                now = dict(ytable)
                for k, v in ma.items():
                    if can(cfg, ytable, v):
                        now[v] = ytable[mb[k]]
                expect_reads(ctx, y, rs, now, 'after the overlapping assignment')
                ctx.transitions += 1
    if all(i is None or i == slice(None) for i in (index if isinstance(index, tuple) else (index,))):
        x = mk()
        ctx.case(text, '[%r] = x' % (index,))
        x[index] = x
        expect_reads(ctx, x, sh, table, 'after assignment of the array to itself')
