"""Chains of slices compose: breadth-first search over the arrays that slicing reaches."""
import itertools
from .. import core, ref, gen
from ..impl import (with_placeholders, all_configs, large, large_indices, plain_configs, nested_configs, wide_configs, build, split, part, make, expect_reads, signature, keyed)

PROPERTY = 'C10'
BOUND = ('from every format and dimension mapping, sequences of slicing operations: breadth first until no new array appears for 1-D and '
         '2-D shapes up to 6 and 3x3 cells (thorough: 8, 3x4), 2 operations for 3-D shapes (thorough 3), arrays with equal storage state '
         'and contents merged; menu of 6 items per axis; arrays of up to 1100 elements with two slices; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


def starts(tier):
    shapes = [(1,), (4,), (6,), (1, 3), (2, 2), (3, 2), (3, 3)]
    if tier != 'quick':
        shapes += [(8,), (3, 4), (4, 2), (2, 5)]
    for shape in shapes:
        cfgs = list(all_configs(len(shape)))
        if shape == (3, 3) and tier == 'quick':
            cfgs = cfgs[:4] + cfgs[4::4]
        for cfg in cfgs:
            yield shape, cfg, 12
    shapes = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (1, 3, 2)] + ([(2, 2, 3), (3, 1, 3), (3, 3, 2)] if tier != 'quick' else [])
    for k, shape in enumerate(shapes):
        cfgs = list(plain_configs(3)) + [('DM',) + c for c in gen.dm_configs(3)] + list(nested_configs(3))
        if tier == 'quick':
            cfgs = cfgs[:3] + cfgs[4 + k::9]
        for cfg in cfgs:
            yield shape, cfg, 2 if tier == 'quick' else 3
    for shape in [(2, 2, 1, 2), (2, 1, 2, 2), (2, 2, 2, 2)]:
        cfgs = list(wide_configs(4))
        for cfg in cfgs[:4] + cfgs[4::8 if tier == 'quick' else 1]:
            yield shape, cfg, -2


def long_chains(tier):
    """dimension mappings with non-trivial strides and offsets in every group: a fixed prefix, then everything"""
    for shape in [(13,), (4, 4), (5, 3), (3, 3, 3), (4, 2, 3)]:
        cfgs = list(wide_configs(len(shape)))
        for cfg in cfgs if tier != 'quick' or len(shape) < 3 else cfgs[:4] + cfgs[4::3]:
            yield shape, cfg
    for shape in [(2, 1, 2, 1, 2, 2), (1, 2, 1, 2, 1, 2, 2)]:
        for cfg in list(wide_configs(len(shape)))[::9 if tier == 'quick' else 3]:
            yield shape, cfg


def jobs(tier):
    k = 32 if tier == 'quick' else 160
    return split('bfs', k, tier=tier) + split('long', k, tier=tier) + split('large', 32) + with_placeholders(
        lambda ph: split('bfs', 8, tier=tier, ph=ph, every=7) + split('long', 8, tier=tier, ph=ph, every=5) + split('large', 8, ph=ph, every=5))


def menu(n, level):
    return gen.axis_menu(n, -1 if level < 0 else 0)


def run_job(job, ctx):
    if job['leg'] == 'bfs':
        for shape, cfg, depth in part(starts(job['tier']), job):
            explore(ctx, shape, cfg, depth)
        return
    if job['leg'] == 'large':
        for shape, cfg, spec in part(large(), job):
            seq, table = make(shape, spec)
            x = build(cfg, seq)
            for index in large_indices(shape)[:6]:
                sh, m = ref.select(shape, index)
                y = x[index]
                for index2 in large_indices(sh)[1::3]:
                    ctx.case('%r.fromobject(%r)' % (cfg, seq), '[%r]' % (index,), '[%r]' % (index2,))
                    sh2, m2 = ref.select(sh, index2)
                    expect_reads(ctx, y[index2], sh2, {k: table[m[v]] for k, v in m2.items()}, 'of the second slice')
                    ctx.transitions += 1
                    ctx.state((shape, cfg, len(spec), repr(index), repr(index2)))
                ctx.traces += 1
        return
    for shape, cfg in part(long_chains(job['tier']), job):
        cells = list(itertools.product(*map(range, shape)))
        seq, table = make(shape, set(c for i, c in enumerate(cells) if i % 5 != 1))
        for first in ([slice(1, None), slice(None, None, -1)], [slice(None, None, -2), slice(1, None)], [slice(-1, None, -1), slice(0, -1)]):
            index = tuple(first[i % 2] for i in range(len(shape)))
            path = ['%r.fromobject(%r)' % (cfg, seq), '[%r]' % (index,)]
            ctx.case(*path)
            x = build(cfg, seq)
            sh, m = ref.select(shape, index)
            y = x[index]
            expect_reads(ctx, y, sh, {k: table[v] for k, v in m.items()}, 'of the first slice')
            for index2 in gen.index_menu(sh, 0 if len(sh) < 3 else -1):
                p2 = path + ['[%r]' % (index2,)]
                ctx.case(*p2)
                sh2, m2 = ref.select(sh, index2)
                t2 = {k: table[m[v]] for k, v in m2.items()}
                z = y[index2]
                expect_reads(ctx, z, sh2, t2, 'of the second slice')
                ctx.state((shape, cfg, repr(index), repr(index2)))
                ctx.transitions += 1
                if not sh2 or 0 in sh2:
                    continue
                rev = (slice(None, None, -1),) * len(sh2)
                ctx.case(*(p2 + ['[%r]' % (rev,)]))
                sh3, m3 = ref.select(sh2, rev)
                expect_reads(ctx, z[rev], sh3, {k: t2[v] for k, v in m3.items()}, 'of the third slice')
                ctx.traces += 1


def explore(ctx, shape, cfg, depth):
    level, depth = depth, abs(depth)
    cells = list(itertools.product(*map(range, shape)))
    seq, table = make(shape, set(c for i, c in enumerate(cells) if i % 3 != 1))
    x = build(cfg, seq)
    seen = {signature(x)}
    frontier = [(x, shape, table, ['%r.fromobject(%r)' % (cfg, seq)])]
    ctx.state((shape, cfg))
    for d in range(depth):
        new = []
        for x, sh, table, path in frontier:
            for index in itertools.product(*[menu(n, level) for n in sh]):
                p = path + ['[%r]' % (index,)]
                ctx.case(*p)
                s2, m = ref.select(sh, index)
                t2 = {k: table[v] for k, v in m.items()}
                y = x[index]
                ctx.transitions += 1
                if not s2:
                    ctx.same(y, t2[()], 'element')
                    continue
                sig = keyed((signature(y), tuple(t2.items())))
                if sig in seen:
                    continue
                seen.add(sig)
                expect_reads(ctx, y, s2, t2, 'of the slice')
                ctx.state((shape, cfg, sig))
                ctx.outcome((s2, tuple(t2.items())))
                if 0 not in s2:
                    new.append((y, s2, t2, p))
        frontier = new
        ctx.traces += len(new)
        if not new:
            ctx.count('searches_that_closed')
            break
    ctx.extra['max_depth'] = max(ctx.extra.get('max_depth', 0), d + 1)
