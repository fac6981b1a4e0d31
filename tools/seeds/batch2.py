ST, SL, GB, VE = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py'
NS = {}
exec(open(__file__.replace('batch2', 'batch1') if '__file__' in globals() else '/verif/tools/seeds/batch1.py').read(), NS)
GIT, END = NS['GIT'], NS['END']
SEEDS = [
 dict(id='d01-empty-is-whole', property='C02', needs='an axis of size one and a slice from 0 with a negative step and a positive stop',
      breaks='an empty slice of an axis of size one selects its item',
      edits=[(SL, '''        elif isinstance(ind, slice):
            new_index[i] = reduced(ind, shape[i])
''', '''        elif isinstance(ind, slice):
            if (ind.step in (None, 1) or shape[i] == 1) and not ind.start and (
                    ind.stop is None or ind.stop >= shape[i]):
                # the whole axis, same as None
                continue
            new_index[i] = reduced(ind, shape[i])
''')],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[1, 2]])
assert x[0:1:-1, :].shape == (0, 2), x[0:1:-1, :].shape
assert x[0::-1, :].shape == (1, 2), x[0::-1, :].shape
'''),
 dict(id='d02-float-quotient', property='C04', needs='a right-hand side above 2**53',
      breaks='the particular solution of an equation with a large right-hand side does not solve it',
      edits=[(SL, '''    if c % d:
        return None, ()
    k = c // d
''', '''    k = c / d
    if k != int(k):
        return None, ()
    k = int(k)
''')],
      demo='''
from gcs.slice_tools import diophantine
for a, c in (((3, 5), 7), ((3, 6), 2**60 + 3*5), ((2, 4, 6), 2**57 + 2), ((6, 4), 2**60 + 1)):
    x, zs = diophantine(a, c)
    if c % (2 if a[0] % 2 == 0 else (3 if a[1] == 6 else 1)):
        assert x is None, (a, c)
    else:
        assert sum(p*q for p, q in zip(a, x)) == c, (a, c, x)
'''),
 dict(id='d04-equal-sizes', property='C05', needs='a group of dimensions of equal sizes in another than the natural order',
      breaks='the reduction of groups of equally long dimensions ignores their order',
      edits=[(GB, '''        reduction_shape = tuple(map(shape.__getitem__, rdimensions))
        reduction_stride''', '''        reduction_shape = tuple(map(shape.__getitem__, rdimensions))
        if len(set(reduction_shape)) == 1:
            # equal sizes, any order gives the same reduction
            rdimensions = tuple(sorted(rdimensions))
        reduction_stride''')],
      demo='''
import gcs_basics as B
m = B.create_reduction_metadata((2, 3, 2), (2, 0, 1), (2,))
assert B.reduction(m, (1, 0, 0)) == (1, 0), B.reduction(m, (1, 0, 0))
assert B.reduction(m, (0, 2, 1)) == (2, 2), B.reduction(m, (0, 2, 1))
'''),
 dict(id='d05-galloping-rows', property='C06', needs='a row of exactly seventeen elements (or a multiple of eighteen more)',
      breaks='compressed row indices count rows with long runs of elements wrongly',
      edits=[(ST, '''    k = 1
    last_index = 0
    for i in range(nse):
        index = indices[i]
''', '''    k = 1
    last_index = 0
    skip = 0
    for i in range(nse):
        if i < skip:
            continue
        index = indices[i]
        if i + 16 < nse and indices[i + 16] == index:
            # sorted, a long run of one row
            skip = i + 18
''')],
      demo='''
from gcs.storage import CSR
for n in (1, 3, 15, 16, 17, 20, 40):
    m = [list(range(1, n + 1)), [7] * n, [None] * (n - 1) + [8]]
    x = CSR.fromobject(m)
    for i in range(3):
        for j in range(n):
            assert x[i, j] == m[i][j], (n, i, j)
'''),
 dict(id='d06-shared-list', property='C07', needs='an array made from a flat list, then an assignment',
      breaks='a one-dimensional array shares its elements with the list it was made from',
      edits=[(ST, '''        seq_unspecified = get_unspecified(seq)
        if unspecified is DEFAULT:
            unspecified = seq_unspecified
        if get_seq_index is None:

            def get_seq_index(index):
                return index

        if shape is None:
            shape = get_shape(seq)
        values = []
''', '''        seq_unspecified = get_unspecified(seq)
        if unspecified is DEFAULT:
            unspecified = seq_unspecified
        if type(seq) is list and unspecified is None and get_seq_index is None and (
                seq and not isinstance(seq[0], (list, tuple))):
            # flat list
            return cls(len(seq), 0, seq, unspecified=unspecified)
        if get_seq_index is None:

            def get_seq_index(index):
                return index

        if shape is None:
            shape = get_shape(seq)
        values = []
''')],
      demo='''
from gcs.storage import Strided
m = [1, 2, 3]
x = Strided.fromobject(m)
x[1] = 'new'
assert m == [1, 2, 3], m
m[0] = 'other'
assert x[0] == 1, x[0]
'''),
 dict(id='d07-none-is-default', property='C08', needs='a conversion between the two coordinate formats with placeholder None of an array with another placeholder',
      breaks='a conversion keeps the old placeholder though None was asked for',
      edits=[(ST, '''        if isinstance(seq, COO) and (shape is None and get_seq_index is None
                                     and unspecified is DEFAULT):
            findices = []
''', '''        if isinstance(seq, COO) and (shape is None and get_seq_index is None
                                     and unspecified in (DEFAULT, None)):
            findices = []
''')],
      demo='''
from gcs.storage import COO
x = COO.fromobject([[0, 1], [2, 0]], unspecified=0)
y = x.as_FlatCOO(unspecified=None)
assert y[0, 0] is None and y[0, 1] == 1, y[0, 0]
assert x.as_FlatCOO()[0, 0] == 0
'''),
 dict(id='d08-unit-stride-is-row', property='C09', needs='a column of a compressed-row array with one column',
      breaks='slicing the only column of a compressed-row array gives its first row',
      edits=[(ST, '''        if len(shape) == 1:
            return self.as_COO().get_slice(shape, strides, offset)
''', '''        if len(shape) == 1:
            if strides == (1,):
                # a part of a row
                row, first = divmod(offset, max(self.shape[1], 1))
                cols, values = [], []
                for pos in range(self.crow_indices[row], self.crow_indices[row+1]):
                    col = self.col_indices[pos] - first
                    if 0 <= col < shape[0]:
                        cols.append(col)
                        values.append(self.data[pos])
                indices = Strided((1, len(cols)), (len(cols), 1), Buffer(len(cols), 0, cols))
                return COO(shape, indices, Buffer(len(values), 0, values, unspecified=self.unspecified))
            return self.as_COO().get_slice(shape, strides, offset)
''')],
      demo='''
from gcs.storage import CSR
x = CSR.fromobject([[1], [None], [3]])
y = x[:, 0]
assert [y[i] for i in range(3)] == [1, None, 3]
z = CSR.fromobject([[1, 2, None], [None, 5, 6]])
assert [z[1, 1:][i] for i in range(2)] == [5, 6]
'''),
 dict(id='d09-sorted-if-forward', property='C14', needs='a sparse array of three dimensions sliced backwards in the middle one only',
      breaks='slices list their elements out of order, lookups miss them',
      edits=[(ST, '''        for slice_index, data_pos in sorted(
                self.slice_indices_and_data_position(shape, strides, offset)):
            findex = get_position''', '''        items = self.slice_indices_and_data_position(shape, strides, offset)
        if strides[0] < 0 or strides[-1] < 0:
            items = sorted(items)
        for slice_index, data_pos in items:
            findex = get_position''')],
      demo='''
from gcs.storage import FlatCOO
m = [[[1, None], [2, 3]], [[None, 4], [5, None]]]
x = FlatCOO.fromobject(m)
y = x[:, ::-1]
got = list(y.elements())
assert got == sorted(got), got
assert y[0, 0, 0] == 2
'''),
 dict(id='d10-full-if-storage-full', property='C15', needs='a slice of a sparse dimension mapping that misses all unspecified positions',
      breaks='is_full of a slice of a dimension mapping speaks of the whole array',
      edits=[(ST, '''    def is_specified(self, index):
        return self.data.is_specified(self.get_data_position(index))
''', '''    def is_specified(self, index):
        return self.data.is_specified(self.get_data_position(index))

    def is_full(self):
        # a mapping has no elements of its own
        return self.data.is_full()
''')],
      demo='''
from gcs.storage import DM, COO
x = DM.fromobject([[1, None, 3], [4, 5, 6]], storage_class=COO)
assert not x.is_full()
assert x[1:].is_full()
assert x[:, ::2].is_full()
'''),
 dict(id='d11-compared-one-way', property='C16', needs='a sparse array with a specified element equal to the placeholder, and one of the same number of elements elsewhere',
      breaks='element-wise equality holds for arrays that differ at positions which only the second one specifies',
      edits=[(ST, '''        for index, value in other.elements():
            d2[index] = value
''', '''        for index, value in other.elements():
            d2[index] = value
        if len(d1) == len(d2):
            # same number of elements, those of self decide
            d2 = {index: d2.get(index, other.unspecified) for index in d1}
''')],
      demo='''
from gcs.storage import COO
x = COO.fromobject([None, 5, 6])
y = COO.fromobject([4, 5, None])
y[0] = None
x[2] = None
y[1] = 5
assert x.equal(y)
z = COO.fromobject([4, 5, None])
z[1] = None
w = COO.fromobject([None, 5, 6])
w[1] = 4
w[2] = None
assert not COO.fromobject([None, 7, 8]).equal(z)
a = COO.fromobject([1, None, None])
a[0] = None
b = COO.fromobject([None, 5, None])
assert not a.equal(b)
assert not b.equal(a)
'''),
 dict(id='d14-one-cursor', property='C19', needs='two open iterations over one buffer',
      breaks='a second iteration over a buffer makes the first one skip items',
      edits=[(ST, '''        for pos in range(self.offset, self.offset + self.size):
            yield self.data[pos]

    def indices_and''', '''        self._next = self.offset
        while self._next < self.offset + self.size:
            self._next += 1
            yield self.data[self._next - 1]

    def indices_and''')],
      demo='''
from gcs.storage import Buffer
b = Buffer(3, 0, [1, 2, 3])
assert [(p, q) for p in b for q in b] == [(p, q) for p in (1, 2, 3) for q in (1, 2, 3)]
'''),
 dict(id='d15-complete-index', property='C22', needs='a complete index of non-negative integers of which one is too large but stays within the data',
      breaks='reading with an index out of range gives another element',
      edits=[(SL, '''    new_index = [None] * len(shape)
    for i in range(len(index)):
''', '''    if len(index) == len(shape) and min(index, key=lambda i: i if isinstance(i, int) else -1, default=0) in range(
            shape[0] if shape else 0):
        if all(isinstance(i, int) for i in index):
            # complete and not negative
            return tuple(index)
    new_index = [None] * len(shape)
    for i in range(len(index)):
''')],
      demo='''
from gcs.storage import Strided, COO
for c in (Strided, COO):
    x = c.fromobject([[1, 2, 3], [4, 5, 6]])
    assert x[1, 1] == 5 and x[0, -1] == 3
    for i in ((0, 3), (1, 3), (2, 0), (0, -4)):
        try:
            x[i]
        except IndexError:
            pass
        else:
            raise AssertionError((c, i))
'''),
 dict(id='d16-kept-position', property='C25', needs='two threads that write to one buffer object at the same time',
      breaks='an element of one thread lands at the position of the other one',
      edits=[(ST, '''        assert isinstance(index, int), index  # TODO: slice support
        pos = self.offset + index
        self.data[pos] = value
''', '''        assert isinstance(index, int), index  # TODO: slice support
        self._pos = self.offset + index
        if self._pos >= len(self.data):
            raise IndexError(f'{type(self).__name__} index out of range: {index}')
        self.data[self._pos] = value
''')],
      demo='''
import threading
from gcs.storage import Buffer
go, back = threading.Event(), threading.Event()


class L(list):
    def __len__(self):
        if threading.current_thread() is t:
            go.set()
            back.wait(5)
        return list.__len__(self)

    def __setitem__(self, i, v):
        if threading.current_thread() is t:
            go.set()
            back.wait(5)
        list.__setitem__(self, i, v)


t = None
x = Buffer(4, 0, L([0, 0, 0, 0]))
def first():
    x[1] = 1
t = threading.Thread(target=first)
t.start()
go.wait(5)
x[2] = 2
back.set()
t.join()
assert list(x.data) == [0, 1, 2, 0], x.data
'''),
 dict(id='d17-looked-up-before', property='C27', needs='an array that takes the place in memory of a dropped one, with an element in the same column and storage position but another row',
      breaks='a lookup in compressed rows finds an element of another row',
      edits=[(ST, '''    # binary search
    row, col = index
    left = crow_indices[row]
    right = crow_indices[row+1] - 1
    while left <= right:
        i = (left + right) // 2
        d = col_indices[i] - col
        if d == 0:
            return i
''', '''    # binary search
    row, col = index
    known = _positions.get((id(col_indices), row, col))
    if known is not None and known < col_indices.size and col_indices[known] == col:
        return known
    left = crow_indices[row]
    right = crow_indices[row+1] - 1
    while left <= right:
        i = (left + right) // 2
        d = col_indices[i] - col
        if d == 0:
            _positions[id(col_indices), row, col] = i
            return i
'''), (ST, '''class Storage:
    """Base class''', '''_positions = {}


class Storage:
    """Base class''')],
      demo='''
from gcs.storage import CSR
for n in range(200):
    for m in ([[1, None], [None, 2]], [[None, 1], [2, None]], [[None, None], [3, 4]], [[3, 4], [None, None]], [[1, None], [2, None]], [[None, None], [5, None]]):
        x = CSR.fromobject(m)
        for i in range(2):
            for j in range(2):
                assert x[i, j] == m[i][j], (n, m, i, j)
'''),
 dict(id='d18-same-placeholder', property='C13', needs='a placeholder that is equal but not identical to the stored one, and a copy with a new placeholder',
      breaks='a copy with a new placeholder keeps the old one at some positions',
      edits=[(ST, '''        result = Strided(self.shape, make_strides(self.shape), data)
        for index, value in self.elements():
            if value == self.unspecified:
                value = unspecified
''', '''        result = Strided(self.shape, make_strides(self.shape), data)
        for index, value in self.elements():
            if value is self.unspecified:
                value = unspecified
''')],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[int('1000'), 2], [3, int('1000')]], unspecified=int('1000'))
y = x.copy(unspecified=None)
assert y[0, 0] is None and y[1, 1] is None and y[1, 0] == 3, (y[0, 0], y[1, 1])
'''),
 dict(id='d20-dirty-name', property='C20', needs='a version tag that itself ends in -dirty or contains it',
      breaks='a clean checkout of a commit with such a tag is reported as dirty',
      edits=[(VE, '''    dirty = git_describe.endswith("-dirty")
    pieces["dirty"] = dirty
    if dirty:
''', '''    dirty = "-dirty" in git_describe
    pieces["dirty"] = dirty
    if dirty:
''')],
      demo=GIT + '''
    git('tag', 'v1.0-dirty-hack')
    v = ver()
    assert v['dirty'] is False and v['version'] == '1.0-dirty-hack' or v['version'] == 'v1.0-dirty-hack', v
    assert not v['dirty'], v
''' + END),
 dict(id='d21-short-of-full', property='C20', needs='a repository with two commits whose revisions agree in seven digits (or core.abbrev set)',
      breaks='the abbreviated revision in the version is not the one that git uses',
      edits=[(VE, '''        pieces["short"] = mo.group(3)
''', '''        pieces["short"] = mo.group(3)[:7]
''')],
      demo=GIT + '''
    git('tag', 'v1.0')
    git('config', 'core.abbrev', '12')
    git('commit', '-q', '--allow-empty', '-m', 'y')
    h = subprocess.check_output(['git', 'rev-parse', '--short', 'HEAD'], cwd=root).decode().strip()
    v = ver()
    assert len(h) == 12 and v['version'].endswith('+1.g' + h), v
''' + END),
 dict(id='d22-local-tag', property='C21', needs='a dirty or later build of a tag that has a local part already',
      breaks='the version text has two plus signs',
      edits=[(VE, '''    if "+" in pieces.get("closest-tag", ""):
        return "."
''', '''    if "+" in pieces.get("closest-tag", "").partition(".")[0]:
        return "."
''')],
      demo='''
ns = {'__name__': 'gcs._version'}
exec(open('gcs/_version.py').read(), ns)
p = {'closest-tag': '1.0+local', 'distance': 2, 'short': 'abc', 'long': 'abcd', 'dirty': True, 'error': None, 'date': None}
v = ns['render'](p, 'pep440')['version']
assert v == '1.0+local.2.gabc.dirty', v
'''),
 dict(id='d23-upper-parent', property='C21', needs='an unpacked archive whose top directory, which carries the version, is two levels above the package',
      breaks='the version is not found in the name of the upper directory',
      edits=[(VE, """    for i in range(3):
        dirname = os.path.basename(root)
""", """    for i in range(2):
        dirname = os.path.basename(root)
""")],
      demo="""
ns = {'__name__': 'gcs._version'}
exec(open('gcs/_version.py').read(), ns)
v = ns['versions_from_parentdir']('gcs-', '/nowhere/gcs-1.2/x/y', False)
assert v['version'] == '1.2', v
"""),
 dict(id='d24-text-of-window', property='C24', needs='the representation of an array whose data is a window in the middle of a buffer',
      breaks='the representation of a window of a buffer misses items',
      edits=[(ST, """        data = str(self.data[self.offset:self.offset+self.size])
""", """        data = str(self.data[self.offset:self.size or None])
""")],
      demo="""
from gcs.storage import Buffer
b = Buffer(6, 0, [10, 11, 12, 13, 14, 15])
assert '[12, 13, 14]' in repr(b[2:5]), repr(b[2:5])
"""),
]
