"""Element lookup in sparse arrays: every pattern of specified elements."""
import itertools
from .. import core, ref, gen
from ..impl import plain_configs, build, split, part, make, read, SPARSE

PROPERTY = 'C27'
BOUND = ('all 2^12 patterns (thorough 2^15) of specified cells of shapes (12,), (1,12), (12,1), (2,6), (3,4), (6,2), (2,2,3) in COO, FlatCOO and CSR, '
         'every element; rows of 1..200 elements with every second, third.. element, runs and all gaps specified; elements written and read again')


def all_patterns(tier):
    shapes = [(12,), (1, 12), (12, 1), (2, 6), (3, 4), (6, 2), (2, 2, 3)]
    if tier != 'quick':
        shapes = [(15,), (1, 15), (15, 1), (3, 5), (5, 3), (2, 7), (7, 2), (2, 2, 3), (3, 2, 2), (1, 3, 5), (2, 2, 2, 2)]
    for shape in shapes:
        for cfg in list(plain_configs(len(shape)))[1:]:
            yield shape, cfg


def long_patterns(tier):
    sizes = [1, 2, 3, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200]
    for n in sizes if tier != 'quick' else [1, 2, 3, 16, 17, 33, 64, 127, 200]:
        for shape in ((n,), (1, n), (n, 1), (2, n), (n, 2), (3, n), (n, 1, 2), (2, 1, n)) + ((2, 1, 2, 2, 1, n), (n, 2, 1, 2, 1, 2, 2), (2,) * 7, (1, 2, 1, 1, 2, 1, 1, n)) * (n == 3):
            cells = ref.prod(shape)
            pats = []
            for k in (1, 2, 3, 5, 7, 16) if tier != 'quick' else (1, 2, 3, 7):
                for r in range(min(k, 3)):
                    pats.append(lambda i, k=k, r=r: i % k == r)
            pats.append(lambda i: (i // 7) % 2 == 0)
            pats.append(lambda i: i >= cells - 3)
            pats.append(lambda i: i < 3)
            pats.append(lambda i: False)
            pats.append(lambda i: i * i % 11 < 4)
            for p in pats:
                for cfg in list(plain_configs(len(shape)))[1:]:
                    yield shape, cfg, p


def jobs(tier):
    k = 32 if tier == 'quick' else 256
    return [dict(leg='all', part=i, of=k, tier=tier) for i in range(k)] + split('long', 16, tier=tier)


def lookup(ctx, x, shape, table):
    for i, v in table.items():
        got = x[i]
        if got is not v and got != v:
            ctx.fail('element %r reads %r, expected %r' % (i, got, v))
    ctx.transitions += len(table)


def run_job(job, ctx):
    if job['leg'] == 'all':
        for shape, cfg in all_patterns(job['tier']):
            cells = list(itertools.product(*map(range, shape)))
            n = len(cells)
            for mask in range(job['part'], 1 << n, job['of']):
                table = {c: (b if mask >> b & 1 else None) for b, c in enumerate(cells)}
                seq = ref.nested(shape, lambda i: table[i])
                ctx.case('%r.fromobject(%r)' % (cfg, seq))
                x = build(cfg, seq)
                lookup(ctx, x, shape, table)
                ctx.state((shape, cfg, mask))
                ctx.traces += 1
        return
    for shape, cfg, p in part(long_patterns(job['tier']), job):
        cells = list(itertools.product(*map(range, shape)))
        table = {c: (n if p(n) else None) for n, c in enumerate(cells)}
        seq = ref.nested(shape, lambda i: table[i])
        ctx.case('%r.fromobject(%r)' % (cfg, seq))
        x = build(cfg, seq)
        lookup(ctx, x, shape, table)
        ctx.state((shape, cfg, tuple(table.values())))
        ctx.outcome((cfg, tuple(v is None for v in table.values())))
        for n, c in enumerate(cells):
            if n % 5 and n < len(cells) - 2:
                continue
            ctx.case('%r.fromobject(%r)' % (cfg, seq), '[%r] = %d and other elements before' % (c, n + 5000))
            x[c] = n + 5000
            if table[c] is not None:
                table[c] = n + 5000
            ctx.same(x[c], table[c], 'element that was written')
        lookup(ctx, x, shape, table)
        ctx.traces += 1
