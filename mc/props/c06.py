"""Compression of sorted row indices."""
import itertools
from ..impl import S, split, part, helper, KIND
import gcs_basics as B

PROPERTY = 'C06'
BOUND = ('all non-decreasing index lists of up to 7 items over 0..6 rows (thorough: 12 items, 9 rows), given as list, tuple, Buffer, '
         'Buffer window and strided view; selected long lists')


def space(tier):
    rows, items = (6, 7) if tier == 'quick' else (9, 12)
    for size in range(0, rows + 1):
        for n in range(0, items + 1 if size else 1):
            for x in itertools.combinations_with_replacement(range(size), n):
                yield size, x


def wide():
    for size in (1, 2, 4, 31, 64, 100, 257):
        for step in (1, 2, 3, 7):
            for rep in range(1, 41) if size < 31 else (1, 2, 5, 7, 8, 9, 16, 17, 33) if size < 100 else (1, 2, 5, 8, 64):
                for lo, hi in ((0, size), (size // 2, size), (0, size // 2), (size - 1, size)):
                    yield size, tuple(i for i in range(lo, hi, step) for _ in range(rep))
    # long runs and long gaps
    for size, runs in ((3, {1: 300}), (5, {0: 65, 3: 129}), (7, {2: 1, 6: 1030}), (9, {0: 257, 1: 1, 8: 64}), (600, {0: 2, 599: 70}), (600, {300: 500})):
        yield size, tuple(i for i, k in sorted(runs.items()) for _ in range(k))


def forms(x):
    yield 'list', list(x)
    yield 'tuple', tuple(x)
    yield 'Buffer', KIND['Buffer'].fromobject(list(x))
    pad = [9] + list(x) + [9]
    yield 'Buffer window', KIND['Buffer'](len(x), 1, pad)
    two = KIND['Strided'].fromobject([[i, 5] for i in x]) if x else KIND['Strided'].fromobject([])
    yield 'Strided column', two[:, 0] if x else two


def jobs(tier):
    return split('small', 16 if tier == 'quick' else 48, tier=tier) + split('wide', 8)


def run_job(job, ctx):
    for size, x in part(space(job['tier']) if job['leg'] == 'small' else wide(), job):
        want = [sum(1 for i in x if i < k) for k in range(size + 1)]
        ctx.state((size, x))
        for name, seq in forms(x):
            ctx.case('compress_indices(%r as %s, %d)' % (x, name, size))
            for mod in (S, B) if helper(S, 'compress_indices', ('indices', 'size')) else (B,):
                got = mod.compress_indices(seq, size)
                ctx.transitions += 1
                ctx.same(list(got), want, '%s.compress_indices', mod.__name__)
            uncompress = helper(S, 'uncompress_indices', ('compressed',))
            if uncompress:
                back = uncompress(got)
                ctx.same(list(back), list(x), 'uncompress_indices')
                back = uncompress(KIND['Buffer'].fromobject(list(got)))
                ctx.same(list(back), list(x), 'uncompress_indices of Buffer')
                ctx.transitions += 2
            ctx.traces += 1
        ctx.outcome(tuple(want))
