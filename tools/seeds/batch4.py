ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
SEEDS = [
 dict(id='f01-few-corrections', property='C03', needs='a view of five dimensions, all but one of size one, with a negative step in the last',
      breaks='an element of the view is reported as not being in the view',
      edits=[(SL, """    for dt in itertools.product(*(((0, 1),)*n)):
""", """    for dt in itertools.product(*(((0, 1),)*n)):
        if sum(dt) > 2:
            # the items that are off are neighbours, at most two of them
            continue
""")],
      demo='''
from gcs import slice_tools
for shape, strides in (((1, 1, 1, 1, 2), (32, 16, 8, 4, -1)), ((1, 1, 1, 1, 2), (32, -16, -8, -4, -1))):
    for i in range(2):
        assert slice_tools.solve_index(-i, shape, strides) == (0, 0, 0, 0, i), (shape, strides, i)
'''),
 dict(id='f02-write-if-new', property='C11', needs='an assignment of a value that is equal to the old one but of another type (True for 1, 1.0 for 1)',
      breaks='the assigned value is dropped',
      edits=[(ST, """        pos = self.offset + index
        self.data[pos] = value
""", """        pos = self.offset + index
        if self.data[pos] != value:
            self.data[pos] = value
""")],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([1, 2, 3])
x[0] = 1.0
x[2] = 4
assert x[2] == 4
assert type(x[0]) is float, x[0]
'''),
 dict(id='f03-same-text', property='C16', needs='two arrays with about thirty elements that differ in the middle only',
      breaks='different arrays compare equal',
      edits=[(ST, """            return self is other or self._get_object_data() == other._get_object_data()
""", """            return self is other or repr(self) == repr(other)
""")],
      demo='''
from gcs.storage import COO, DM
a = list(range(100, 160))
b = list(a)
b[30] = 999
assert COO.fromobject(a) == COO.fromobject(a)
assert COO.fromobject(a) != COO.fromobject(b)
assert DM.fromobject(a) != DM.fromobject(b)
'''),
 dict(id='f04-end-of-nothing', property='C17', needs='a window that ends at position 0 of a window',
      breaks='an empty window reaches to the end',
      edits=[(ST, """            stop = self.offset + index.stop if index.stop is not None else self.offset + self.size
""", """            stop = self.offset + (index.stop or self.size)
""")],
      demo='''
from gcs.storage import Buffer
x = Buffer(4, 0, [1, 2, 3, 4])
assert len(x[0:2]) == 2
assert len(x[2:4][0:0]) == 0, x[2:4][0:0]
'''),
 dict(id='f05-specified-only', property='C15', needs='the placeholder assigned to a specified element of a sparse array',
      breaks='the listed elements are fewer than the number of elements says',
      edits=[(ST, """        for index, data_pos in self.indices_and_data_position():
            yield index, self.data[data_pos]

""", """        sparse = isinstance(self, (COO, FlatCOO, CSR))
        for index, data_pos in self.indices_and_data_position():
            value = self.data[data_pos]
            if sparse and value == self.unspecified:
                continue
            yield index, value

""")],
      demo='''
from gcs.storage import COO
x = COO.fromobject([0, 1, None, 3])
assert len(list(x.elements())) == x.size == 3
x[1] = None
assert len(list(x.elements())) == x.size, list(x.elements())
'''),
 dict(id='f06-two-locks', property='C19', needs='a thread that copies and one that compares the same array, switched while each holds its first lock',
      breaks='both threads wait forever',
      edits=[(ST, """import sys
import warnings
""", """import sys
import threading
import warnings
"""), (ST, """DEFAULT = object()
""", """DEFAULT = object()
_reading = threading.RLock()
_making = threading.RLock()
"""), (ST, """        obj_data = self._get_object_data()
        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        return type(self)(*copy_data)
""", """        with _making:
            obj_data = self._get_object_data()
            with _reading:
                copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
            return type(self)(*copy_data)
"""), (ST, """        for index, value in self.elements():
            d1[index] = value
        if not isinstance(other, Storage):
            if isinstance(self, Buffer):
                other = type(self).fromobject(other, unspecified=self.unspecified)
            else:
                other = Strided.fromobject(other, unspecified=self.unspecified)
""", """        with _reading:
            for index, value in self.elements():
                d1[index] = value
            if not isinstance(other, Storage):
                with _making:
                    if isinstance(self, Buffer):
                        other = type(self).fromobject(other, unspecified=self.unspecified)
                    else:
                        other = Strided.fromobject(other, unspecified=self.unspecified)
""")],
      demo='''
import threading
import time
from gcs.storage import COO
sys.setswitchinterval(1e-6)
x = COO.fromobject(list(range(40)))
seq = list(range(40))
end = time.time() + 20


def one():
    while time.time() < end:
        x.copy()


def two():
    while time.time() < end:
        assert x.equal(seq)


t = [threading.Thread(target=one, daemon=True), threading.Thread(target=two, daemon=True)]
for k in t:
    k.start()
for k in t:
    k.join(60)
alive = any(k.is_alive() for k in t)
os._exit(1 if alive else 0)
'''),
 dict(id='f07-element-of-row', property='C07', needs='an array made from a list of sparse arrays',
      breaks='it cannot be made where a row has an unspecified element',
      edits=[(ST, """    value = seq
    for i in index:
        value = value[i]
    return value
""", """    value = seq
    for k, i in enumerate(index):
        value = value[i]
        if isinstance(value, Storage):
            # the element without making an array for each of its dimensions
            rest = index[k + 1:]
            return value.data[value.get_data_position(rest)] if rest else value
    return value
""")],
      demo='''
from gcs.storage import COO, Strided
rows = [Strided.fromobject([1, 2, 3]), COO.fromobject([4, None, 6])]
x = Strided.fromobject([Strided.fromobject([1, 2, 3]), Strided.fromobject([4, 5, 6])])
assert x[1, 1] == 5
x = Strided.fromobject(rows)
assert [x[1, i] for i in range(3)] == [4, None, 6]
'''),
 dict(id='f08-whole-matrix', property='C12', needs='a slice of a compressed array that selects all of it, and a write to either',
      breaks='the slice of a sparse array is not a copy if it is complete',
      edits=[(ST, """        assert len(shape) == 2, repr((shape, strides, offset))
        values = []
""", """        assert len(shape) == 2, repr((shape, strides, offset))
        if shape == self.shape and strides == self.strides:
            return self
        values = []
""")],
      demo='''
from gcs.storage import CSR
x = CSR.fromobject([[1, 2], [None, 4]])
a, b = x[0:1], x[:, :]
x[0, 0] = 10
assert a[0, 0] == 1
assert b[0, 0] == 1, b[0, 0]
'''),
 dict(id='f09-unhashed', property='C16', needs='elements that cannot be hashed (dictionaries, sets)',
      breaks='comparing fails',
      edits=[(ST, """        d1, d2 = {}, {}
        for index, value in self.elements():
            d1[index] = value
""", """        d1, d2 = dict(self.elements()), {}
        if isinstance(other, Storage) and self.shape == other.shape and set(d1.items()) == set(other.elements()):
            return True
""")],
      demo='''
from gcs.storage import Strided, COO
assert Strided.fromobject([1, None, 3]).equal(COO.fromobject([1, None, 3]))
x = [{'a': 1}, {1, 2}, None]
assert Strided.fromobject(x).equal(COO.fromobject(x))
'''),
]
