"""Windows of a buffer: breadth-first search over slices of slices."""
import itertools
from .. import core, ref, gen
from ..impl import KIND, split, part, signature

PROPERTY = 'C17'
BOUND = ('underlying data of 0..6 items (thorough 16) of three sequence types; every window that slicing reaches, in turn sliced with all '
         'start/stop in -7..8 and steps None,1,2,-1,3 (thorough: a range that grows with the data); every read of an index within the window; writes through every window; data of up to 1500 items with about 180 windows')


class MyList(list):
    def copy(self):
        return MyList(self)


def datas(n):
    yield list(range(100, 100 + n))
    yield bytearray(range(100, 100 + n))
    yield MyList(range(100, 100 + n))


def space(tier):
    for n in range(0, 7 if tier == 'quick' else 17):
        for d in range(3):
            yield n, d


def jobs(tier):
    return split('windows', 21 if tier == 'quick' else 51, tier=tier) + split('large', 6)


def expected(n, off, size, s):
    """window of the slice, or None for IndexError: positions are relative to the window and must lie within the data"""
    start = off if s.start is None else off + s.start
    stop = off + size if s.stop is None else off + s.stop
    if not (0 <= start <= n and 0 <= stop <= n):
        return None
    return start, max(stop, start)


def run_job(job, ctx):
    B = KIND['Buffer']
    if job['leg'] == 'large':
        for n, d in part([(n, d) for n in (64, 257, 1500) for d in range(3)], job):
            large(ctx, n, d)
        return
    for n, d in part(space(job['tier']), job):
        base = list(datas(n))[d]
        orig = list(base)
        root = B(n, 0, base)
        seen = {}
        frontier = [(root, 0, n, 'Buffer(%d, 0, %r)' % (n, base))]
        vals = [None] + list(range(-n - 1, n + 3))
        while frontier:
            new = []
            for b, off, size, text in frontier:
                if (off, size) in seen:
                    continue
                seen[off, size] = text
                ctx.state((n, d, off, size))
                ctx.case(text)
                window(ctx, b, orig, off, size)
                for start in vals:
                    for stop in vals:
                        for step in (None, 1, 2, -1, 3):
                            s = slice(start, stop, step)
                            t = text + '[%r:%r:%r]' % (start, stop, step)
                            ctx.case(t)
                            ctx.transitions += 1
                            want = expected(n, off, size, s)
                            try:
                                c = b[s]
                            except IndexError:
                                ctx.outcome('IndexError')
                                if step in (None, 1):
                                    ctx.check(want is None, 'IndexError for a part of the data')
                                continue
                            if step not in (None, 1):
                                # not supported; where it is accepted it must be what Python gives
                                ctx.check(want is not None, 'accepted a position outside the data')
                                w = list(range(n))[slice(want[0], want[1] if want[1] > want[0] else want[0], step)]
                                ctx.same(list(c), [orig[i] for i in w], 'items')
                                continue
                            ctx.check(want is not None, 'no IndexError for a position outside the data')
                            lo, hi = want
                            if lo == hi:
                                # an empty window has no position
                                ctx.check(len(c) == 0 and list(c) == [] and c.size == 0, 'not empty: %r', list(c))
                                continue
                            window(ctx, c, orig, lo, hi - lo)
                            ctx.outcome((lo, hi))
                            if (lo, hi - lo) not in seen:
                                new.append((c, lo, hi - lo, t))
            frontier = new
        ctx.check(list(base) == orig, 'slicing changed the data')
        # live windows: a write through one is seen through all others
        alive = [(B(n, 0, base)[o:o + s], o, s) for o, s in seen if s]
        v = 0
        for b, off, size in alive:
            for i in range(size):
                v = (v + 1) % 90
                ctx.case('data %r, write at %d of the window [%d:%d]' % (orig, i, off, off + size))
                b[i] = v
                orig[off + i] = v
                ctx.transitions += 1
                ctx.same(list(base), orig, 'data')
                for c, o, s in alive:
                    ctx.same([c[k] for k in range(s)], orig[o:o + s], 'window [%d:%d] of the same data', o, o + s)
        ctx.traces += len(seen)
        # a copy takes exactly the window
        for b, off, size in alive:
            ctx.case('copy of the window [%d:%d] of %r' % (off, off + size, orig))
            c = b.copy()
            ctx.same([c[i] for i in range(len(c))], orig[off:off + size], 'copy')
            c[0] = 91
            ctx.same(list(base), orig, 'data after a write to the copy')
            e = B.fromobject(orig[off:off + size])
            ctx.check(e.equal(b) and b.equal(e), 'not element-wise equal to its elements')
            e[size - 1] = 92
            ctx.check(not e.equal(b) and not b.equal(e), 'element-wise equal to other elements')


def large(ctx, n, d):
    """small and large windows of long data, sliced in turn; all of them stay windows"""
    base = [bytearray(i % 256 for i in range(n)), [str(i) for i in range(n)], MyList(range(n))][d]
    orig = list(base)
    root = KIND['Buffer'](n, 0, base)
    cuts = sorted({0, 1, 3, n // 16, n // 3, n // 2, n - 20, n - 2, n - 1, n})
    spans = [(a, b) for a in cuts for b in cuts if a < b]
    wins = [(root[a:b], a, b - a) for a, b in spans]
    for b, off, size in list(wins):
        wins.append((b[size // 2:], off + size // 2, size - size // 2))
        wins.append((b[:1], off, 1))
        if off:
            wins.append((b[-1:], off - 1, size + 1))
    for b, off, size in wins:
        ctx.case('window [%d:%d] of %d items' % (off, off + size, n))
        window(ctx, b, orig, off, size)
        ctx.transitions += 1
    for k, (b, off, size) in enumerate(wins):
        i = (k * 7) % size
        ctx.case('%d items, %d writes, the last one at %d of the window [%d:%d]' % (n, k + 1, i, off, off + size))
        v = (k * 3 + 1) % 256 if d == 0 else 'w%d' % k
        b[i] = v
        orig[off + i] = v
        ctx.same(list(base), orig, 'data')
        for c, o, s in wins:
            if o <= off + i < o + s:
                ctx.check(core.same(c[off + i - o], v), 'the window [%d:%d] reads %r', o, o + s, c[off + i - o])
        ctx.transitions += 1
    for b, off, size in wins[::3]:
        c = b.copy()
        ctx.same(list(c), orig[off:off + size], 'copy')
        c[0] = 7
        ctx.same(list(base), orig, 'data after a write to the copy')
    ctx.traces += 1
    ctx.state((n, d))


def window(ctx, b, orig, off, size):
    want = orig[off:off + size]
    ctx.same(tuple(b.shape), (size,), 'shape')
    ctx.check(len(b) == size and b.size == size, 'len %r, size %r, expected %d', len(b), b.size, size)
    ctx.same(list(b), want, 'items')
    ctx.same([b[i] for i in range(size)], want, 'items by index')
    ctx.same([b[(i,)] for i in range(size)], want, 'items by index tuple')
    ctx.same(list(b.elements()), [((i,), v) for i, v in enumerate(want)], 'elements')
