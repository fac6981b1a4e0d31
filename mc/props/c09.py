"""Slicing: every format gives the elements that nested Python slicing gives."""
import itertools
from .. import ref, gen
from ..impl import (is_hole, with_placeholders, all_configs, large, large_indices, plain_configs, nested_configs, wide_configs, wide_shapes, build, split, part, make, expect_reads,
                    patterns, retyped)

PROPERTY = 'C09'
BOUND = ('all formats, dimension permutations, partitionings and storages of dimension mappings (also nested ones); shapes of 1..3 '
         'dimensions; the complete menu of integers, None and all distinct slices per axis (every start/stop/step, negative and empty '
         'ones) for up to 2 dimensions, a menu of 7 items per axis (15 on one axis at a time; thorough: on all) in 3-D, incomplete and bare indices; up to 6-D shapes with 6 items per axis; arrays of up to 1100 elements with 10 slices; every way to write a slice for sizes 1..3; integers of other types derived from int, also True and False; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


def indices(shape, level):
    yield from gen.index_menu(shape, level)
    n = len(shape)
    if n > 1:
        for k in range(1, n):
            yield from gen.index_menu(shape[:k], min(level, 1))
    yield None
    yield ()
    yield from gen.axis_menu(shape[0], level)


def level2(tier):
    """whole menu"""
    shapes = [(1,), (2,), (4,), (1, 1), (2, 1), (1, 3), (2, 2), (3, 2), (2, 3), (0,)]
    if tier != 'quick':
        shapes += [(5,), (7,), (3, 3), (2, 4), (4, 2), (4, 3)]
    for shape in shapes:
        if 0 in shape:
            yield shape, ('Strided',), set(), None
            continue
        cells = list(itertools.product(*map(range, shape)))
        pats = patterns(cells, few=len(shape) > 1 or tier == 'quick')
        for cfg in all_configs(len(shape)):
            for name, spec in pats:
                if name == 'none' and len(shape) > 1 and cfg[0] == 'DM':
                    continue
                yield shape, cfg, spec, 2


def level1(tier):
    shapes = [(2, 2, 2), (3, 2, 2), (2, 3, 1)] if tier == 'quick' else [(2, 2, 2), (3, 2, 2), (2, 3, 1), (1, 2, 3), (2, 2, 3), (2, 3, 2), (3, 3, 2)]
    for shape in shapes:
        cells = list(itertools.product(*map(range, shape)))
        spec = set(c for i, c in enumerate(cells) if i % 3 != 1)
        cfgs = list(plain_configs(3))
        dm = [('DM',) + c for c in gen.dm_configs(3)] + list(nested_configs(3))
        if tier == 'quick' and shape != (2, 2, 2):
            dm = dm[::5]
        for cfg in cfgs + dm:
            if tier == 'quick':
                yield shape, cfg, spec, 0.5
            else:
                yield shape, cfg, spec, 1


def wide(tier):
    for shape in wide_shapes() + ([(40, 3), (3, 30), (3, 4, 5), (5, 4, 3)] if tier != 'quick' else [(30, 2)]):
        cells = list(itertools.product(*map(range, shape)))
        spec = set(c for i, c in enumerate(cells) if i % 3 != 1)
        for k, cfg in enumerate(wide_configs(len(shape))):
            if len(shape) > 3 and tier == 'quick' and k % 3 and k > 4:
                continue
            yield shape, cfg, spec, 0 if len(shape) < 4 else -1


def big(tier):
    for shape, cfg, spec in large():
        yield shape, cfg, spec, 'large'


def jobs(tier):
    k = 24 if tier == 'quick' else 160
    return split('level2', k, tier=tier) + split('level1', k, tier=tier) + split('wide', k, tier=tier) + split('large', k, tier=tier) + split('spelling', 24, tier=tier) + split('integers', 16, tier=tier) + with_placeholders(
        lambda ph: split('level2', 8, tier=tier, ph=ph, every=5) + split('level1', 8, tier=tier, ph=ph, every=7) + split('wide', 8, tier=tier, ph=ph, every=5)
        + split('large', 8, tier=tier, ph=ph, every=7))


def spelling(tier):
    by = {}
    for shape, index in gen.spelled(3 if tier == 'quick' else 4):
        by.setdefault(shape, []).append(index)
    for shape, menu in by.items():
        cells = list(itertools.product(*map(range, shape)))
        spec = set(c for i, c in enumerate(cells) if i % 3 != 1)
        rev = tuple(range(len(shape)))[::-1]
        cfgs = list(plain_configs(len(shape))) + [('DM', rev, (len(shape) - 1,) if len(shape) > 1 else (), 'Strided'), ('DM', rev, (), 'COO')]
        for cfg in cfgs:
            for k in range(0, len(menu), 200):
                yield shape, cfg, spec, menu[k:k + 200]


def menu(shape, level):
    if isinstance(level, list):
        yield from level
        return
    if level == 'large':
        yield from large_indices(shape)
        yield tuple(n // 2 for n in shape)
        return
    if level == 0.5:
        # 1-menu on one axis, 0-menu on the others
        seen = set()
        for a in range(len(shape)):
            for index in itertools.product(*[gen.axis_menu(n, 1 if a == i else -1) for i, n in enumerate(shape)]):
                if repr(index) not in seen:
                    seen.add(repr(index))
                    yield index
        for k in (1, 2, 3):
            yield from gen.index_menu(shape[:k], 0)
        yield None
        yield ()
        yield slice(1, None)
        yield -1
    else:
        yield from indices(shape, level)


def integers(ctx, job):
    shapes = [(1,), (3,), (2, 2), (1, 3), (2, 1, 2)] + ([(4,), (3, 2), (2, 2, 2)] if job['tier'] != 'quick' else [])
    for shape, cfg in part(((s, c) for s in shapes for c in all_configs(len(s))), job):
        cells = list(itertools.product(*map(range, shape)))
        seq, table = make(shape, set(c for i, c in enumerate(cells) if i % 3 != 1))
        x = build(cfg, seq)
        for index in indices(shape, 1 if len(shape) < 3 else -1):
            sh, m = ref.select(shape, index)
            for boolean in (False, True):
                given = retyped(index, boolean)
                ctx.case('%r.fromobject(%r)[%r], %s' % (cfg, seq, given, 'with True and False for 1 and 0' if boolean else 'integers of a class derived from int'))
                expect_reads(ctx, x[given], sh, {k: table[v] for k, v in m.items()}, 'of the slice')
                ctx.transitions += 1
        ctx.traces += 1
        ctx.state((shape, cfg))


def run_job(job, ctx):
    if job['leg'] == 'integers':
        return integers(ctx, job)
    for shape, cfg, spec, level in part({'level2': level2, 'level1': level1, 'wide': wide, 'large': big, 'spelling': spelling}[job['leg']](job['tier']), job):
        if level is None:
            # an array with a dimension of size zero: all slices of slices stay empty
            seq, table = make((3,), {(0,), (1,), (2,)})
            x = build(cfg, seq)[3:]
            for index in gen.axis_menu(0, 2):
                ctx.case('Strided.fromobject(%r)[3:][%r]' % (seq, index))
                expect_reads(ctx, x[index], (0,), {}, 'empty')
            continue
        seq, table = make(shape, spec)
        ctx.case('%r.fromobject(%r)' % (cfg, seq))
        x = build(cfg, seq)
        for index in menu(shape, level):
            ctx.case('%r.fromobject(%r)[%r]' % (cfg, seq, index))
            sh, m = ref.select(shape, index)
            y = x[index]
            expect_reads(ctx, y, sh, {k: table[v] for k, v in m.items()}, 'of the slice')
            ctx.transitions += 1
            ctx.traces += 1
            ctx.state((shape, cfg, frozenset(spec), repr(index)))
            ctx.outcome((sh, tuple(m.items())))
            if sh:
                ctx.check(len(y) == sh[0], 'len of the slice is %d', len(y))
                ctx.check(is_hole(y.unspecified), 'placeholder of the slice is %r', y.unspecified)
        expect_reads(ctx, x, shape, table, 'of the array after slicing')
