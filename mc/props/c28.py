"""Every answer reflects the current elements: queries between all histories of writes and derivations."""
import itertools
from .. import core, ref, gen
from ..impl import (placeholder, with_placeholders, all_configs, build, split, part, make, alternate, dense, expect_reads, kind_name, SPARSE, KIND, wide_configs)
from .c12 import World, tree_of, large_configs

PROPERTY = 'C28'
BOUND = ('all histories of 2 operations (thorough 3) of the alphabet of C12 (slice, convert, copy, assign an element, assign a slice; any of '
         'the arrays alive) in every format and dimension mapping; every query (listing, count, fullness, text, element-wise equality, '
         'conversions, copy, slices) is asked of every array after every operation, so that each history contains each query before each write; '
         'a part of it with the placeholders \'\' and -1 instead of None and with odd elements (false, unordered, unhashable ones)')


def starts(tier):
    for shape in [(3,), (2, 2), (3, 2)]:
        for cfg in all_configs(len(shape)):
            if tier == 'quick' and shape == (3, 2) and cfg[0] == 'DM' and not (cfg[1] == (1, 0) and len(cfg[2]) == 1):
                continue
            yield shape, cfg, 2 if tier == 'quick' or len(shape) > 1 else 3
    if tier != 'quick':
        for shape in [(2, 2, 2), (2, 1, 2)]:
            for cfg in all_configs(3):
                yield shape, cfg, 2
        for cfg in all_configs(2):
            yield (2, 2), cfg, 3
    else:
        for cfg in list(wide_configs(3))[::3]:
            yield (2, 1, 2), cfg, 2


def jobs(tier):
    return split('histories', 32 if tier == 'quick' else 256, tier=tier) + split('large', 24) + with_placeholders(
        lambda ph: split('histories', 16, tier=tier, ph=ph, every=7) + split('large', 8, ph=ph, every=3))


def queries(ctx, x, m, k):
    """all queries of one array against the model"""
    t = m.table()
    sh = m.shape
    kind = kind_name(x)
    expect_reads(ctx, x, sh, t, 'of x%d' % k)
    listed = list(x.elements())
    want = [(i, t[i]) for i in t if kind not in SPARSE or i in m.cells]
    ctx.same(listed, want, 'elements of x%d', k)
    n = len(m.cells)
    ctx.check(x.size == n, 'size of x%d: %r, expected %d', k, x.size, n)
    ctx.check(bool(x.is_full()) == (n == len(t)), 'is_full() of x%d: %r', k, x.is_full())
    seq = ref.nested(sh, lambda i: t[i])
    ctx.check(bool(x.equal(seq)) is True, 'x%d is not element-wise equal to its elements', k)
    strided = x.as_Strided(unspecified=placeholder())
    expect_reads(ctx, strided, sh, t, 'of x%d as Strided' % k)
    for to in ('COO', 'FlatCOO', 'CSR'):
        if to != 'CSR' or len(sh) == 2:
            if kind != to:
                expect_reads(ctx, getattr(x, 'as_' + to)(), sh, t, 'of x%d as %s' % (k, to))
    c = x.copy()
    expect_reads(ctx, c, sh, t, 'of the copy of x%d' % k)
    if kind == 'Strided' and len(sh) < 3:
        ctx.check(str(x) == str(KIND['Strided'].fromobject(seq, unspecified=placeholder())), 'text of x%d: %r', k, str(x))
    rev = (slice(None, None, -1),) * len(sh)
    mp = ref.select(sh, rev)[1]
    expect_reads(ctx, x[rev], sh, {a: t[b] for a, b in mp.items()}, 'of x%d reversed' % k)
    if len(sh) > 1:
        rs, mp = ref.select(sh, (0,))
        expect_reads(ctx, x[0], rs, {a: t[b] for a, b in mp.items()}, 'of x%d[0]' % k)
    else:
        ctx.same([v for v in x], [t[i] for i in t], 'iteration over x%d', k)
    ctx.transitions += 10


def large(ctx, shape, cfg):
    """query, write, query; and the same with a slice"""
    for first in (None, 0, 1, 3):
        w = World(cfg, shape, alternate(shape))
        text = ['x0 = %r.fromobject(...) of shape %r' % (cfg, shape)]
        ops = ([('slice', 0, first)] if first is not None else []) + [('set', 0, 0), ('fill', 1) if first is not None else ('set', 0, 1)]
        for op in ops:
            ctx.case(*(text + ['all queries']))
            for k, (x, m) in enumerate(zip(w.objs, w.models)):
                queries(ctx, x, m, k)
            n = len(w.objs)
            text.append(repr(op))
            ctx.case(*text)
            w.do(op)
        ctx.case(*(text + ['all queries']))
        for k, (x, m) in enumerate(zip(w.objs, w.models)):
            queries(ctx, x, m, k)
        ctx.traces += 1
        ctx.state((shape, cfg, first))


def run_job(job, ctx):
    if job['leg'] == 'large':
        for shape, cfg in part([(s, c) for s in ((300,), (18, 11), (5, 6, 7)) for c in large_configs(len(s))], job):
            large(ctx, shape, cfg)
        return
    for shape, cfg, depth in part(starts(job['tier']), job):
        spec = alternate(shape)
        hists = [()]
        for d in range(depth):
            new = []
            for hist in hists:
                w = World(cfg, shape, spec)
                for op in hist:
                    w.do(op)
                for op in list(w.ops(3)):
                    w = World(cfg, shape, spec)
                    text = ['x0 = %r.fromobject(%r)' % (cfg, make(shape, spec)[0])]
                    for o in hist + (op,):
                        ctx.case(*(text + ['all queries']))
                        if d == depth - 1 or o is not op:
                            for k, (x, m) in enumerate(zip(w.objs, w.models)):
                                queries(ctx, x, m, k)
                        n = len(w.objs)
                        t = w.do(o)
                        text.append('x%d %s' % (n, t) if t.startswith('=') else t)
                    ctx.case(*(text + ['all queries']))
                    for k, (x, m) in enumerate(zip(w.objs, w.models)):
                        queries(ctx, x, m, k)
                    ctx.traces += 1
                    ctx.state((shape, cfg, hist, op))
                    ctx.outcome(w.key())
                    new.append(hist + (op,))
            hists = new
