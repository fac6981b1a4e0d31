"""Bounded spaces that the checks enumerate."""
import itertools
from . import ref


def shapes(ndims, sizes):
    for n in ndims:
        yield from itertools.product(sizes, repeat=n)


def progressions(n, empties=True):
    """One slice for every distinct element sequence that slicing can select
    from an axis of size n."""
    seen, out = set(), []
    cand = [slice(None)]
    for step in [None] + [s for k in range(1, n + 1) for s in (k, -k)]:
        for start in [None] + list(range(-n, n + 1)):
            for stop in [None] + list(range(-n - 1, n + 1)):
                cand.append(slice(start, stop, step))
    for s in cand:
        r = range(n)[s]
        key = tuple(r)
        if not key and not empties:
            continue
        # progressions of 0 and 1 elements: keep both signs of the step
        key = (key, r.step > 0 if len(key) == 1 else 0)
        if key not in seen:
            seen.add(key)
            out.append(s)
    return out


def spellings(n):
    """every way to write a slice of an axis of size n, out of range parts included"""
    ends = [None] + list(range(-n - 2, n + 3))
    for step in [None] + [s for k in range(1, n + 2) for s in (k, -k)]:
        for start in ends:
            for stop in ends:
                yield slice(start, stop, step)


def spelled(top=3):
    """(shape, index) with a slice of every spelling on one axis"""
    for n in range(1, top + 1):
        for s in spellings(n):
            yield (n,), s
            yield (n,), (s,)
            yield (n, 2), s
            yield (n, 2), (s, slice(None))
            yield (2, n), (slice(None, None, -1), s)
            yield (2, n), (1, s)


def axis_menu(n, level=2):
    """index items for an axis of size n. level 0: a few, 1: more, 2: all."""
    ints = list(range(-n, n))
    if level >= 2:
        return [None] + progressions(n) + ints
    if level < 0:
        return [slice(None, None, -1), n - 1, slice(1, None)] if n > 1 else [slice(None), 0] if n else [slice(None)]
    sl = [slice(None), slice(1, None), slice(None, None, -1), slice(None, None, 2)]
    if level >= 1:
        sl += [slice(None, -1), slice(-2, None, -2), slice(0, 0), slice(None, 1, -1), slice(n // 2, n // 2 + 1)]
    seen, out = set(), []
    for s in sl:
        key = tuple(range(n)[s])
        if key not in seen:
            seen.add(key)
            out.append(s)
    if level >= 1:
        return [None] + out + ints
    return out + ([n - 1, -n] if n else [])


def index_menu(shape, level=2):
    """all complete index tuples over the axis menus"""
    yield from itertools.product(*[axis_menu(n, level) for n in shape])
    if level < 1:
        # leading parts
        for index in itertools.product(*[(slice(None), slice(None, -1)) if n > 1 else (slice(None),) for n in shape]):
            if level < 0 or any(i.stop and n > 2 for i, n in zip(index, shape)):
                if level < 0 and all(n < 2 for n in shape):
                    continue
                yield index


def idx_repr(index):
    return repr(index)


def subsets(cells):
    cells = list(cells)
    for mask in range(1 << len(cells)):
        yield {c for b, c in enumerate(cells) if mask >> b & 1}


def dm_configs(n, kinds=('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer')):
    """(dimensions, partitioning, storage kind) for every permutation and cut of n dimensions"""
    for cuts in ref.partitions(n):
        m = len(cuts) + 1
        for dims in itertools.permutations(range(n)):
            for k in kinds:
                if (k == 'CSR' and m != 2) or (k == 'Buffer' and m != 1):
                    continue
                yield dims, cuts, k


def dm_spread(n, count, kinds=('Strided', 'COO', 'FlatCOO', 'CSR', 'Buffer')):
    """some of dm_configs, for many dimensions"""
    parts = list(ref.partitions(n))
    total = 1
    for k in range(2, n + 1):
        total *= k
    for i in range(count):
        cuts = parts[i * 37 % len(parts)]
        code = i * 7919 * 31 % total
        left, dims = list(range(n)), []
        for k in range(n, 0, -1):
            dims.append(left.pop(code % k))
            code //= k
        m = len(cuts) + 1
        some = [k for k in kinds if not (k == 'CSR' and m != 2) and not (k == 'Buffer' and m != 1)]
        yield tuple(dims), cuts, some[i % len(some)]


def thin_menu(shape, level=1):
    """one axis at a time over a rich menu, the others whole; and the same item on all axes"""
    n = len(shape)
    seen = set()
    for a in range(n):
        for item in axis_menu(shape[a], level):
            for other in (slice(None), slice(None, None, -1)):
                index = tuple(item if i == a else other for i in range(n))
                if repr(index) not in seen:
                    seen.add(repr(index))
                    yield index
    for k in range(3):
        yield tuple(axis_menu(d, -1)[k % len(axis_menu(d, -1))] for d in shape)
        yield tuple(axis_menu(d, -1)[(k + i) % len(axis_menu(d, -1))] for i, d in enumerate(shape))
