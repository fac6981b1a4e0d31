"""Reference model of gcs storages, written to be boring.

A logical array is a shape and a mapping from index tuples to *cells*.  A cell
is a one-item list, so that two arrays that share storage share cells.  An
index that has no cell is unspecified.  Nothing here uses strides, offsets,
solvers or binary search: an axis selection is ``range(n)[index]``.
"""
import itertools


class Arr:
    """Logical array: shape, cells {index: [value]}, unspecified placeholder.

    dense - every position has a cell, even those that hold the placeholder.
    """
    __slots__ = ('shape', 'cells', 'unspec')

    def __init__(self, shape, cells, unspec=None):
        self.shape = tuple(shape)
        self.cells = cells
        self.unspec = unspec

    def indices(self):
        return itertools.product(*map(range, self.shape))

    def read(self, index):
        c = self.cells.get(index)
        return self.unspec if c is None else c[0]

    def table(self):
        return {i: self.read(i) for i in self.indices()}

    def select(self, index):
        """index -> (result shape, {result index: source index})"""
        return select(self.shape, index)

    def view(self, index):
        shape, m = select(self.shape, index)
        return Arr(shape, {k: self.cells[v] for k, v in m.items() if v in self.cells}, self.unspec)

    def snapshot(self):
        return Arr(self.shape, {k: [c[0]] for k, c in self.cells.items()}, self.unspec)


def full_index(index, n):
    if not isinstance(index, tuple):
        index = (index,)
    return index + (None,) * (n - len(index))


def select(shape, index):
    """Python semantics, axis by axis.  None selects a whole axis."""
    index = full_index(index, len(shape))
    axes, keep, rshape = [], [], []
    for n, ind in zip(shape, index):
        if ind is None:
            ind = slice(None)
        r = range(n)[ind]           # IndexError when an integer is out of range
        if isinstance(ind, slice):
            axes.append(r)
            keep.append(True)
            rshape.append(len(r))
        else:
            axes.append((r,))
            keep.append(False)
    m = {}
    for src in itertools.product(*[list(enumerate(a)) for a in axes]):
        m[tuple(p for (p, _), k in zip(src, keep) if k)] = tuple(v for _, v in src)
    return tuple(rshape), m


def prod(seq):
    p = 1
    for s in seq:
        p *= s
    return p


def cstrides(shape):
    out, p = [], 1
    for d in reversed(shape):
        out.append(p)
        p *= d
    return tuple(reversed(out))


def nested(shape, f, prefix=()):
    if not shape:
        return f(prefix)
    return [nested(shape[1:], f, prefix + (i,)) for i in range(shape[0])]


def rget(seq, index):
    for i in index:
        seq = seq[i]
    return seq


def reduce_shape(shape, rdims):
    return tuple(prod(shape[d] for d in g) for g in rdims)


def reduce_index(shape, rdims, index):
    """mixed radix number of each group of dimensions, last dimension fastest"""
    out = []
    for g in rdims:
        r = 0
        for d in g:
            r = r * shape[d] + index[d]
        out.append(r)
    return tuple(out)


def partitions(n):
    """all ways to cut range(n) into consecutive non-empty parts, as cut positions"""
    for m in range(n):
        yield from itertools.combinations(range(1, n), m)


def groups(dimensions, cuts):
    b = (0,) + tuple(cuts) + (len(dimensions),)
    return tuple(tuple(dimensions[b[i]:b[i + 1]]) for i in range(len(b) - 1))
