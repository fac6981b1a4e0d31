ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
SEEDS = [
 dict(id='i01-unit-coefficient', property='C04', needs='an equation with a coefficient of -1 that is not the first, and of three unknowns or more',
      breaks='combinations of the basis do not solve the equation',
      edits=[(SL, """    d, z0, zs, D, b, s = init_diophantine(a)
    if c % d:
""", """    for i in range(1, len(a)):
        if len(a) > 2 and a[i] * a[i] == 1:
            # the equation tells x[i]
            e = [tuple(int(j == k) for j in range(len(a))) for k in range(len(a))]
            return (axpy(c * a[i], e[i], (0,) * len(a)),
                    tuple(axpy(-a[j], e[i], e[j]) for j in range(len(a)) if j != i))
    d, z0, zs, D, b, s = init_diophantine(a)
    if c % d:
""")],
      demo='''
from gcs.slice_tools import diophantine, dot
for a in ((2, 1, 3), (2, 3, 5), (2, -1, 3), (4, 5, 6, -1)):
    x, zs = diophantine(a, 7)
    assert dot(a, x) == 7
    for z in zs:
        assert dot(a, z) == 0, (a, z)
'''),
 dict(id='i02-last-row', property='C06', needs='row indices in a window of a buffer',
      breaks='the row boundaries of the last rows are taken from an item before the window',
      edits=[(ST, """    for n in range(k, size + 1):
        compressed[n] = nse

    return compressed
""", """    # no row boundary beyond the last index has been set so far
    last = indices[-1] if nse else 0
    for n in range(last + 1, size + 1):
        compressed[n] = nse

    return compressed
""")],
      demo='''
from gcs.storage import Buffer, compress_indices
rows = [0, 0, 2, 3]
assert compress_indices(rows, 5) == [0, 2, 2, 3, 4, 4]
data = Buffer.fromobject([0] + rows)
assert compress_indices(data[1:], 5) == [0, 2, 2, 3, 4, 4], compress_indices(data[1:], 5)
data = Buffer.fromobject(rows + [1])
assert compress_indices(data[0:4], 5) == [0, 2, 2, 3, 4, 4], compress_indices(data[0:4], 5)
'''),
 dict(id='i03-past-the-end', property='C14', needs='a slice of a sparse array of three dimensions that goes forwards in one axis and backwards in another',
      breaks='some specified elements are missing from the slice',
      edits=[(ST, """            solve_index_data = slice_tools.get_solve_index_data(strides, shape=shape)
            for index, data_pos in self.indices_and_data_position():
                strided_pos = get_position(index, self.shape, self.strides)
""", """            solve_index_data = slice_tools.get_solve_index_data(strides, shape=shape)
            last = offset + sum((n - 1) * s for n, s in zip(shape, strides) if n)
            for index, data_pos in self.indices_and_data_position():
                strided_pos = get_position(index, self.shape, self.strides)
                if strided_pos > max(offset, last) and len(shape) > 2 and isinstance(self, COO):
                    # elements are ordered, so that none of the rest is in the slice
                    break
""")],
      demo='''
from gcs.storage import COO, CSR
x = COO.fromobject([[[1, 2, 3], [4, None, 6]], [[7, 8, 9], [None, 1, 2]]])
assert x[:, 1:, 1:].size == 3
assert x[::-1, ::-1, ::-1].size == 10
y = x[:, :, ::-1]
assert y.size == 10, list(y.elements())
'''),
 dict(id='i05-same-data', property='C30', needs='a strided array that was put together with column-major strides, converted to a dimension mapping',
      breaks='the elements of the mapping are in the wrong order',
      edits=[(ST, """        storage = storage_class.fromobject(seq, **options)
""", """        if (isinstance(seq, Strided) and storage_class is Strided and unspecified is DEFAULT
                and seq.size == len(seq.data) and sum(rdimensions, ()) == tuple(range(dimensionality))
                and seq.shape == shape):
            # all of the data in its order
            storage = Strided(rshape, make_strides(rshape), seq.data.copy())
        else:
            storage = storage_class.fromobject(seq, **options)
""")],
      demo='''
from gcs.storage import Strided, Buffer
b = Buffer.fromobject([1, 2, 3, 4, 5, 6])
x = Strided((2, 3), (3, 1), b)
y = x.as_DM()
assert all(x[i, j] == y[i, j] for i in range(2) for j in range(3))
x = Strided((2, 3), (1, 2), b)
y = x.as_DM()
assert all(x[i, j] == y[i, j] for i in range(2) for j in range(3))
'''),
 dict(id='i06-ends-of-row', property='C30', needs='a FlatCOO array whose flat indices are a window of a buffer, and a lookup',
      breaks='specified elements are not found',
      edits=[(ST, """    left = 0
    right = len(findices) - 1
    while left <= right:
        pos = (left + right) // 2
        d = findices[pos] - findex
""", """    left = 0
    right = len(findices) - 1
    if right > 8 and findex > findices[-1]:
        # beyond the last one
        return
    while left <= right:
        pos = (left + right) // 2
        d = findices[pos] - findex
""")],
      demo='''
from gcs.storage import FlatCOO, Buffer
f = Buffer.fromobject([0] + [2 * i for i in range(12)])
x = FlatCOO((24,), f[1:], Buffer.fromobject(list(range(12))))
assert [x[2 * i] for i in range(12)] == list(range(12))
y = FlatCOO((24,), Buffer.fromobject([2 * i for i in range(12)]), Buffer.fromobject(list(range(12))))
assert [y[2 * i] for i in range(12)] == list(range(12))
'''),
 dict(id='i07-rows-of-list', property='C11', needs='the value that is assigned is a list of arrays which are themselves slices',
      breaks='the first row is used for all of them',
      edits=[(ST, """    assert isinstance(seq, (tuple, list)), type(seq)
    value = seq
    for i in index:
        value = value[i]
    return value
""", """    assert isinstance(seq, (tuple, list)), type(seq)
    value = seq
    for k, i in enumerate(index):
        if isinstance(value, Storage):
            # the rest at once
            return value[index[k:] if len(index) > k + 1 else index[-2 if len(index) > 2 else -1]]
        value = value[i]
    return value
""")],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[0, 0], [0, 0]])
x[:] = [Strided.fromobject([1, 2]), Strided.fromobject([3, 4])]
assert [x[0, 1], x[1, 0]] == [2, 3]
x = Strided.fromobject([[[0, 0], [0, 0]], [[0, 0], [0, 0]]])
x[:] = [Strided.fromobject([[1, 2], [3, 4]]), Strided.fromobject([[5, 6], [7, 8]])]
assert x[1, 0, 1] == 6
x[:] = [[Strided.fromobject([1, 2]), Strided.fromobject([3, 4])], [Strided.fromobject([5, 6]), Strided.fromobject([7, 8])]]
assert x[1, 0, 1] == 6, x[1, 0, 1]
'''),
 dict(id='i08-one-reduction', property='C31', needs='two dimension mappings of different shape whose groups have equal sizes',
      breaks='elements of the second are looked for at places of the first',
      edits=[(ST, """    rshape = []
    rshapes = []
    rstrides = []
    for rdims in rdimensions:
""", """    rshape = []
    rshapes = []
    rstrides = []
    key = tuple(product(map(shape.__getitem__, rdims)) for rdims in rdimensions), tuple(rdimensions)
    if key in _reductions and len(shape) > 2:
        return _reductions[key]
    for rdims in rdimensions:
"""), (ST, """    return tuple(rshape), tuple(rshapes), tuple(rstrides)
""", """    _reductions[key] = tuple(rshape), tuple(rshapes), tuple(rstrides)
    return _reductions[key]
"""), (ST, """def make_reduction(shape, rdimensions):
""", """_reductions = {}


def make_reduction(shape, rdimensions):
""")],
      demo='''
from gcs.storage import Strided
def check(a):
    x = Strided.fromobject(a)
    y = x.as_DM()
    assert list(x.elements()) == list(y.elements()), list(y.elements())
check([[[1, 2], [3, 4], [5, 6]], [[1, 2], [3, 4], [5, 6]]])
check([[[1, 2], [3, 4]], [[1, 2], [3, 4]], [[5, 6], [5, 6]]])
'''),
 dict(id='i09-text-of-row', property='C24', needs='the text of an array with more than ten rows of elements whose texts have different length',
      breaks='only the first rows are shortened',
      edits=[(ST, """            rows = '\\n  '.join([str(self[i]) for i in range(self.shape[0])])
            return f'[ {rows}\\n]'
""", """            rows = [str(self[i]) for i in range(self.shape[0])]
            if len(rows) > 10:
                # same texts only once
                texts = {}
                rows = [texts.setdefault((len(r), r[:12], r[-12:]), r) for r in rows]
            rows = '\\n  '.join(rows)
            return f'[ {rows}\\n]'
""")],
      demo='''
from gcs.storage import Strided
a = [[1000, 2000, 3000 + i, 4000, 5000, 6000] for i in range(12)]
x = Strided.fromobject(a)
assert all(str(3000 + i) in str(x) for i in range(12))
x = Strided.fromobject([[0, 0, i % 10, 0, 0] for i in range(12)])
assert ', 9,' in str(x)
'''),
]
