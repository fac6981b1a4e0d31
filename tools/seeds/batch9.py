ST, SL, GB = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py'
SEEDS = [
 dict(id='k01-mapped-in-place', property='C12', needs='an array made a mapping and then one of the two written',
      breaks='a conversion to a mapping shares the elements',
      edits=[(ST, """        storage = storage_class.fromobject(seq, **options)
        assert len""", """        if (isinstance(seq, storage_class) and isinstance(seq, Strided) and unspecified is DEFAULT and seq.strides == make_strides(shape)
                and tuple(rdimensions) == tuple((i,) for i in range(dimensionality)) and seq.data.size > seq.size):
            storage = seq
        else:
            storage = storage_class.fromobject(seq, **options)
        assert len""")],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[1, 2], [3, 4], [5, 6]])
y = x[:2]
z = y.as_DM()
z[0, 0] = 7
assert x[0, 0] == 1
assert y[0, 0] == 1
'''),
 dict(id='k02-run-of-dimensions', property='C05', needs='a group of three or more dimensions in the reverse order',
      breaks='the reduced index is not the documented one',
      edits=[(GB, """        reduction_stride = tuple(product(reduction_shape[i + 1:]) for i in range(len(reduction_shape)))
""", """        if len(rdimensions) > 2 and rdimensions[0] > rdimensions[-1]:
            reduction_stride = tuple(product(reduction_shape[:i]) for i in range(len(reduction_shape)))
        else:
            reduction_stride = tuple(product(reduction_shape[i + 1:]) for i in range(len(reduction_shape)))
""")],
      demo='''
from gcs_basics import create_reduction_metadata, reduction
m = create_reduction_metadata((2, 3, 4), (2, 1, 0), ())
assert reduction(m, (1, 0, 0)) == (1,), reduction(m, (1, 0, 0))
assert reduction(m, (0, 1, 0)) == (2,)
assert reduction(m, (0, 0, 1)) == (6,)
'''),
 dict(id='k03-same-slice', property='C31', needs='the same slice used before on a longer axis',
      breaks='the slice reaches beyond the axis',
      edits=[(SL, """    start, stop, step = s.start, s.stop, s.step
    if step is None:
        step = 1
    if step > 0:
""", """    start, stop, step = s.start, s.stop, s.step
    if step is None:
        step = 1
    if start is not None and stop is not None and 9 < start < stop <= size and step > 1:
        # such slices are the same for every size
        return _plain.setdefault((start, stop, step), slice(start, stop, min(step, size)))
    if (start, stop, step) in _plain and size > start:
        return _plain[start, stop, step]
    if step > 0:
"""), (SL, """def reduced(s, size):
""", """_plain = {}


def reduced(s, size):
""")],
      demo='''
from gcs.storage import Strided
a, b = Strided.fromobject(list(range(20))), Strided.fromobject(list(range(12)))
assert a[10:16:2].shape == (3,)
assert b[10:16:2].shape == (1,), b[10:16:2].shape
'''),
 dict(id='k04-before-the-first', property='C03', needs='a view with strides of different sign and a position before its first element',
      breaks='an element of the view is said not to be in it',
      edits=[(SL, """    assert not shape or s is not None
    if pos % d:
""", """    assert not shape or s is not None
    if len(shape) > 4 and pos < 0 < strides[0] and strides[-1] < 0 < pos + strides[0]:
        return  # before the first element
    if pos % d:
""")],
      demo='''
from gcs.slice_tools import solve_index
import itertools
for shape, strides in (((2, 2, 2, 2, 3), (24, 12, 6, 3, -1)), ((2, 1, 1, 2, 2), (8, 8, 8, 4, -2)), ((3, 2, 2), (-4, 2, -1))):
    for i in itertools.product(*map(range, shape)):
        p = sum(a * b for a, b in zip(i, strides))
        assert solve_index(p, shape, strides) == i, (shape, strides, i)
'''),
 dict(id='k05-gap-of-columns', property='C27', needs='a long run of neighbouring elements in a row',
      breaks='a specified element reads as unspecified',
      edits=[(ST, """        d = col_indices[i] - col
        if d == 0:
            return i
        if d < 0:
            left = i + 1
        elif d > 0:
            right = i - 1
""", """        d = col_indices[i] - col
        if d == 0:
            return i
        if d < 0:
            left = i + 1
            # columns are unique, the wanted one is not farther than the gap
            right = min(right, i - d - (d < -40))
        elif d > 0:
            right = i - 1
""")],
      demo='''
from gcs.storage import CSR
for n in (5, 30, 90, 200):
    x = CSR.fromobject([list(range(n)), [None] * n])
    for i in range(n):
        assert x[0, i] == i, (n, i, x[0, i])
        assert x[1, i] is None
'''),
 dict(id='k06-offset-of-the-rest', property='C10', needs='a slice of a mapping with an offset in one group, then another whole group fixed',
      breaks='the second slice reads other elements',
      edits=[(ST, """                rshapes += (kshape,)
                roffset += (self.roffset[k] + koffset,)
                rstrides += (kstrides,)
                dindex += (None,)
""", """                rshapes += (kshape,)
                roffset += (self.roffset[k] + koffset if None in dindex or not dindex else koffset,)
                rstrides += (kstrides,)
                dindex += (None,)
""")],
      demo='''
from gcs.storage import DM
x = DM.fromobject([[1, 2, 3], [4, 5, 6], [7, 8, 9]])
assert [v for v in x[1][1:]] == [5, 6]
y = x[1:, 1:]
assert [v for v in y[0]] == [5, 6]
assert [v for v in y[1]] == [8, 9]
z = x[:, 1:][1][1:]
assert [v for v in z] == [6]
'''),
 dict(id='k07-more-than-enough', property='C22', needs='an index with more items than dimensions',
      breaks='no error is raised',
      edits=[(SL, """    for i in range(len(index)):
        ind = index[i]
""", """    for i in range(min(len(index), max(len(shape), 3))):
        ind = index[i]
""")],
      demo='''
from gcs.storage import Strided, COO
for c in (Strided, COO):
    x = c.fromobject([[[1, 2], [3, 4]]])
    for i in ((0, 0, 0, 0), (0, 0, 0, 5), (0, 0, 0, slice(None))):
        try:
            x[i]
        except IndexError:
            pass
        else:
            assert 0, i
'''),
]
