"""Slice reduction and counting against range(n)[slice]."""
import itertools
import sys
from ..impl import T, split, part

PROPERTY = 'C01'
BOUND = ('all slices with start/stop/step in None and -(n+3)..n+3 and +-2**31, +-2**63 for axis sizes 0..8 (quick) or 0..20 '
         '(thorough); selected sizes from 9 up to 2**62 with boundary values')
ASSUMPTIONS = ['the built-in range(n)[slice] is the meaning of slicing']
BIG = [2**31, -2**31, sys.maxsize, -sys.maxsize - 1]


def menu(n):
    v = list(range(-n - 3, n + 4))
    return [None] + v + (BIG if n < 5 else BIG[:2])


def space(tier):
    for n in range(0, 9 if tier == 'quick' else 21):
        for start in menu(n):
            for stop in menu(n):
                for step in menu(n):
                    if step != 0:
                        yield n, start, stop, step


def big_space():
    for n in (9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 999, 1000, 1024, 2**16, 2**31 - 1, 2**31, 2**40, 2**54 + 3, 2**62 - 1):
        pts = sorted({p + d for p in (-2 * n, -n, -n // 2, 0, n // 2, n, 2 * n) for d in (-2, -1, 0, 1, 2)})
        steps = [1, 2, 3, n // 2, n - 1, n, n + 1, 5 * n]
        for start in [None] + pts:
            for stop in [None] + pts:
                for step in [None] + steps + [-s for s in steps]:
                    yield n, start, stop, step


def jobs(tier):
    n = 16 if tier == 'quick' else 64
    return split('small', n, tier=tier) + split('big', 8)


def run_job(job, ctx):
    it = space(job['tier']) if job['leg'] == 'small' else big_space()
    for n, start, stop, step in part(it, job):
        s = slice(start, stop, step)
        ctx.case('n, s = %r, %r' % (n, s), 'slice_tools.reduced(s, n), slice_tools.nitems(s, n)')
        want = range(n)[s]
        r = T.reduced(s, n)
        ctx.transitions += 5
        ctx.traces += 1
        ctx.check(isinstance(r, slice), 'reduced returned %r', r)
        ctx.check(all(isinstance(v, int) for v in (r.start, r.stop, r.step)) and r.step != 0,
                  'reduced slice has unspecified parts: %r', r)
        got = range(n)[r]
        # compare ranges as sequences
        ctx.check(got == want, 'reduced(%r, %d) = %r selects %r, expected %r', s, n, r, got, want)
        ctx.check(T.nitems(s, n) == len(want), 'nitems(%r, %d) = %r, expected %d', s, n, T.nitems(s, n), len(want))
        ctx.check(T.nitems(r, n) == len(want), 'nitems of the reduced slice is %r, expected %d', T.nitems(r, n), len(want))
        ctx.check(T.nitems(r, n, reduce=False) == len(want), 'nitems(reduce=False) of the reduced slice is %r, expected %d',
                  T.nitems(r, n, reduce=False), len(want))
        # positions follow from start and step of the reduced slice
        m = len(want)
        for i in (range(m) if m <= 40 else (0, 1, m // 2, m - 2, m - 1)):
            p = r.start % n + i * r.step
            ctx.check(p == want[i], 'item %d of the reduced slice %r of size %d is %d, expected %d', i, r, n, p, want[i])
        r2 = T.reduced(r, n)
        ctx.check(range(n)[r2] == want, 'reduction is not idempotent: %r -> %r', r, r2)
        ctx.state((n, want.start, want.stop, want.step))
        ctx.outcome((r.start, r.stop, r.step))
