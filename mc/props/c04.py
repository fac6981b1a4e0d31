"""Linear Diophantine equations: sound and complete."""
import itertools
import math
from ..impl import T, split, part, helper

PROPERTY = 'C04'
BOUND = ('all non-zero coefficient vectors of 1..4 (thorough 1..5) items in a box around 0, right-hand sides -12..12 and multiples, small and beyond 2**53, large coefficients; '
         'completeness decided by the minors of the homogeneous basis and by expanding every solution of a box')
ASSUMPTIONS = ['coefficients are non-zero integers']


def vectors(tier):
    r = {1: 40, 2: 20, 3: 7, 4: 3} if tier == 'quick' else {1: 1000, 2: 120, 3: 20, 4: 7, 5: 3}
    for n, b in r.items():
        vals = [v for k in range(1, b + 1) for v in (k, -k)]
        yield from itertools.product(vals, repeat=n)
    yield from [(4, 8, 5, 7), (12, 18, 30), (6, 10, 15), (60, -84, 35), (2, -2, 6, -12, 6, 4), (100, 1), (1, 100), (24, 8, 2, 1),
                (-24, 8, -2, 1), (1024, 243), (30, 42, 70, 105), (36, 12, 4, 1, 1),
                (2 ** 61 - 1, 2 ** 31 - 1), (2 ** 60, 2 ** 54 + 2), (-(3 ** 40), 2 ** 55, 7), (10 ** 18, 10 ** 9, 1), (2 ** 53 + 1,), (3 ** 37, 3 ** 36, -3 ** 35, 5)]


def jobs(tier):
    return split('vectors', 24 if tier == 'quick' else 96, tier=tier)


def det(m):
    if not m:
        return 1
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])


def run_job(job, ctx):
    for a in part(vectors(job['tier']), job):
        n = len(a)
        g = math.gcd(*a)
        ctx.state(a)
        basis = None
        cs = sorted({c for c in range(-12, 13)} | {g * k for k in (-3, 3, 7, 100)} | {g * 7 + 1, 1009, g * (2 ** 54 + 1), -g * (3 ** 40), g * (2 ** 60 + 1) + 1, 2 ** 63 + 1})
        for c in cs:
            ctx.case('a, c = %r, %r' % (a, c), 'slice_tools.diophantine(a, c)')
            x0, zs = T.diophantine(a, c)
            ctx.transitions += 1
            if c % g:
                ctx.check(x0 is None, 'no solution exists, got %r', x0)
                ctx.outcome((a, None))
                continue
            ctx.check(x0 is not None, 'a solution exists, none was found')
            ctx.check(len(x0) == n and all(type(v) is int for v in x0), 'not an integer vector: %r', x0)
            ctx.check(sum(p * q for p, q in zip(a, x0)) == c, '%r is not a solution', x0)
            ctx.check(len(zs) == n - 1, '%d basis vectors, expected %d', len(zs), n - 1)
            for z in zs:
                ctx.check(len(z) == n and all(type(v) is int for v in z), 'not an integer vector: %r', z)
                ctx.check(sum(p * q for p, q in zip(a, z)) == 0, '%r does not solve the homogeneous equation', z)
            zs = tuple(map(tuple, zs))
            if zs != basis:
                basis = zs
                # every integer solution is reached iff the maximal minors of the basis are +-a/g
                minors = [det([list(z[:i] + z[i + 1:]) for z in zs]) for i in range(n)] if n > 1 else [1]
                ctx.check([abs(v) for v in minors] == [abs(v) // g for v in a],
                          'the basis %r does not generate all solutions (minors %r)', zs, minors)
            ctx.traces += 1
            ctx.outcome((tuple(x0), zs))
        ext = helper(T, 'extgcd', ('a', 'b'))
        d = ext(a[0], a[-1]) if ext else None
        if d is not None:
            ctx.case('extgcd(%r, %r)' % (a[0], a[-1]))
            ctx.check(abs(d[0]) == math.gcd(a[0], a[-1]) and d[0] == a[0] * d[1] + a[-1] * d[2], 'extgcd: %r', d)
