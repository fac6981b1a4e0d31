ST, SL, GB = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py'
RACE = '''
import sys, threading
def other(f, g):
    """g runs at every line of f, once at a time"""
    n = 0
    while True:
        k, hit, out = 0, [], []
        def trace(frame, event, arg):
            nonlocal k
            if 'gcs' not in frame.f_code.co_filename:
                return None
            if event == 'line':
                k += 1
                if k == n and not hit:
                    hit.append(1)
                    t = threading.Thread(target=g)
                    t.start()
                    t.join()
            return trace
        sys.settrace(trace)
        try:
            r = f()
        finally:
            sys.settrace(None)
        yield r
        if n > k:
            return
        n += 1
'''
SEEDS = [
 dict(id='l01-sum-of-products', property='C19', needs='two threads that index arrays of three or more dimensions',
      breaks='a thread reads another element',
      edits=[(ST, """        return index[0] * strides[0] + index[1] * strides[1]
    return sum(index[i] * strides[i] for i in range(d))


def get_slice_index""", """        return index[0] * strides[0] + index[1] * strides[1]
    _terms.clear()
    for i in range(d):
        _terms.append(index[i] * strides[i])
    return sum(_terms[-d:])


_terms = []


def get_slice_index""")],
      demo=RACE + '''
from gcs.storage import Strided
x = Strided.fromobject([[[0, 1], [2, 3]], [[4, 5], [6, 7]]])
for r in other(lambda: x[1, 1, 1], lambda: x[0, 1, 0]):
    assert r == 7, r
'''),
 dict(id='l02-rows-at-a-time', property='C23', needs='a value for many elements that fails in the middle',
      breaks='the first rows are assigned although the assignment fails',
      edits=[(ST, """        shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
        # value may share""", """        shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
        if product(shape) > 40 and isinstance(value, (list, tuple)):
            # not all at once
            for i in range(shape[0]):
                part = tuple(shape[1:]), tuple(strides[1:]), offset + i * strides[0]
                for value_index, data_pos in list(self.slice_indices_and_data_position(*part)):
                    self.data[data_pos] = get_value(value[i], value_index)
            return
        # value may share""")],
      demo='''
from gcs.storage import Strided
for n in (3, 12, 80):
    x = Strided.fromobject([[0] * n] * n)
    try:
        x[:] = [[1] * n] * (n - 1) + [[1]]
    except IndexError:
        pass
    assert all(v == 0 for i, v in x.elements()), n
'''),
 dict(id='l04-steps-of-three', property='C25', needs='two threads that assign to slices of one three-dimensional array',
      breaks='a thread writes the elements of the other one',
      edits=[(ST, """        # Optimal method for strided arrays
        for slice_index""", """        # Optimal method for strided arrays
        if len(shape) == 3:
            self._at = offset
            for slice_index in itertools.product(*map(range, shape)):
                self._at = offset + strides[0] * slice_index[0]
                self._at += strides[1] * slice_index[1] + strides[2] * slice_index[2]
                yield slice_index, self._at
            return
        for slice_index""")],
      demo=RACE + '''
from gcs.storage import Strided
def run():
    global x
    x = Strided.fromobject([[[0, 1], [2, 3]], [[4, 5], [6, 7]]])
    x[:1] = [[[10, 11], [12, 13]]]
def second():
    x[1:] = [[[14, 15], [16, 17]]]
for n, r in enumerate(other(run, second)):
    got = [v for i, v in x.elements()]
    assert got[:4] == [10, 11, 12, 13] and set(got[4:]) <= set([4, 5, 6, 7, 14, 15, 16, 17]), (n, got)
'''),
]
