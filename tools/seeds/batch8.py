ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
GIT = """
import os, subprocess, sys, tempfile, shutil
repo = os.getcwd()
top = os.path.realpath(tempfile.mkdtemp())
env = {k: v for k, v in os.environ.items() if not k.startswith('GIT_')}
env.update(HOME=top, GIT_CONFIG_GLOBAL=os.devnull, GIT_CONFIG_SYSTEM=os.devnull, GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b',
           GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b', GIT_CEILING_DIRECTORIES=os.path.dirname(top))
os.environ.clear()
os.environ.update(env)
p = os.path.join(top, 'p')
os.makedirs(os.path.join(p, 'gcs'))
for f in ('gcs/_version.py', 'gcs/__init__.py', 'versioneer.py', 'setup.py', 'setup.cfg', '.gitattributes'):
    shutil.copy(os.path.join(repo, f), os.path.join(p, f))
def git(*a):
    return subprocess.check_output(('git',) + a, cwd=p, stderr=subprocess.DEVNULL).decode().strip()
os.environ.update(GIT_AUTHOR_DATE='1600000000 +0000', GIT_COMMITTER_DATE='1600000000 +0000')
git('init', '-q', '-b', 'main')
git('add', '.')
git('commit', '-q', '-m', 'x')
def load(path, name='gcs._version'):
    import warnings
    warnings.simplefilter('ignore')
    ns = {'__file__': path, '__name__': name}
    exec(compile(open(path).read(), path, 'exec'), ns)
    return ns
os.chdir('/')
"""
SEEDS = [
 dict(id='j01-nothing-in-range', property='C01', needs='an axis of size 0',
      breaks='slices of it cannot be reduced',
      edits=[(SL, """    if (stop - start) * step <= 0:
        start = stop = 0
""", """    if not len(range(start, stop, step)):
        start = stop = 0
""")],
      demo='''
from gcs.slice_tools import reduced, nitems
for size in (1, 4, 0):
    for s in (slice(None), slice(1, None), slice(None, None, -1)):
        assert nitems(s, size) == len(range(size)[s])
'''),
 dict(id='j05-mapped-already', property='C18', needs='a conversion of a slice of a dimension mapping to a mapping with the same groups of dimensions and another placeholder',
      breaks='the storage is that of the whole array',
      edits=[(ST, """        storage = storage_class.fromobject(seq, **options)
""", """        if (isinstance(seq, DM) and type(seq.data) is storage_class and seq.rdimensions == tuple(rdimensions)
                and seq.rstrides == rstrides and seq.shape == shape and not any(seq.roffset)):
            storage = seq.data.copy(unspecified=unspecified)
        else:
            storage = storage_class.fromobject(seq, **options)
""")],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[1, 2, 3], [4, 5, 6], [7, 8, 9]]).as_DM()
y = x.as_DM(unspecified=0)
assert y.data.shape == (3, 3)
z = x[:2].as_DM(unspecified=0)
assert z.data.shape == (2, 3), z
'''),
 dict(id='j07-rows-of-full', property='C29', needs='a slice of a compressed array that has rows but no columns',
      breaks='the slice cannot be made',
      edits=[(ST, """        crow_indices = Buffer.fromobject(compress_indices(row_indices, shape[0]))
        col_indices = Buffer.fromobject(col_indices)
        return CSR(shape, crow_indices, col_indices, data)
""", """        if len(values) == product(shape):
            # all rows are full
            crow_indices = Buffer.fromobject(list(range(0, len(values) + 1, shape[1])))
        else:
            crow_indices = Buffer.fromobject(compress_indices(row_indices, shape[0]))
        col_indices = Buffer.fromobject(col_indices)
        return CSR(shape, crow_indices, col_indices, data)
""")],
      demo='''
from gcs.storage import CSR
x = CSR.fromobject([[1, 2], [3, 4]])
assert x[:, 1:].shape == (2, 1)
assert x[2:].shape == (0, 2)
assert x[:, 2:].shape == (2, 0)
'''),
 dict(id='j15-run-of-data', property='C25', needs='two threads that assign interleaved slices of one strided array',
      breaks='assignments of one of them are lost',
      edits=[(ST, """    def get_data_position(self, index):
        return get_position(index, self.shape, self.strides)

    def get_slice(self, shape, strides, offset):
        if 0 in shape:
""", """    def __setitem__(self, index, value):
        data = self.data.data
        index = slice_tools.normalize_index(index, self.shape)
        shape, strides, offset = slice_tools.index_strided(index, self.shape, self.strides)
        if not isinstance(data, list) or 0 in shape:
            return super().__setitem__(index, value)
        # all at once
        start = self.data.offset
        updates = {start + data_pos: get_value(value, value_index) for value_index, data_pos
                   in self.slice_indices_and_data_position(shape, strides, offset)}
        low, high = min(updates), max(updates) + 1
        run = data[low:high]
        for pos in updates:
            run[pos - low] = updates[pos]
        data[low:high] = run

    def get_data_position(self, index):
        return get_position(index, self.shape, self.strides)

    def get_slice(self, shape, strides, offset):
        if 0 in shape:
""")],
      demo='''
import sys, threading
from gcs.storage import Strided
x = Strided.fromobject([0, 0, 0, 0])
# the second assignment happens while the first one is in progress
done = []
def trace(frame, event, arg):
    if frame.f_code.co_name == '__setitem__' and 'run' in frame.f_locals and not done:
        done.append(1)
        t = threading.Thread(target=lambda: x.__setitem__(slice(1, None, 2), [3, 4]))
        t.start()
        t.join()
    return trace
sys.settrace(trace)
x[::2] = [1, 2]
sys.settrace(None)
if not done:
    x[1::2] = [3, 4]
assert [x[i] for i in range(4)] == [1, 3, 2, 4], [x[i] for i in range(4)]
'''),
 dict(id='j16-printing-now', property='C19', needs='two threads that print the same array at the same time',
      breaks='one of them gets three dots',
      edits=[(ST, """    def __repr__(self):
        return (f'{type(self).__name__}{self._get_object_data()}')
""", """    def __repr__(self):
        if id(self) in _printing:
            # an array that contains itself
            return f'{type(self).__name__}(...)'
        _printing.add(id(self))
        try:
            return (f'{type(self).__name__}{self._get_object_data()}')
        finally:
            _printing.discard(id(self))
"""), (ST, """DEFAULT = object()
""", """DEFAULT = object()
_printing = set()
""")],
      demo='''
import threading
from gcs.storage import COO
class Slow:
    def __init__(self):
        self.inside, self.go = threading.Event(), threading.Event()
    def __repr__(self):
        if not self.inside.is_set():
            self.inside.set()
            self.go.wait(20)
        return 'slow'
s = Slow()
x = COO.fromobject([s, 1])
out = []
t = threading.Thread(target=lambda: out.append(repr(x)))
t.start()
s.inside.wait(20)
now = repr(x)
s.go.set()
t.join()
assert out == [now], (out, now)
'''),
 dict(id='j17-failed-text', property='C23', needs='a text that could not be made because of an element, and the text again afterwards',
      breaks='the text is three dots for ever',
      edits=[(ST, """    def __repr__(self):
        return (f'{type(self).__name__}{self._get_object_data()}')
""", """    def __repr__(self):
        if getattr(self, '_in_repr', False):
            # an array that contains itself
            return f'{type(self).__name__}(...)'
        self._in_repr = True
        text = f'{type(self).__name__}{self._get_object_data()}'
        self._in_repr = False
        return text
""")],
      demo='''
from gcs.storage import COO
class Bad:
    fails = False
    def __repr__(self):
        if self.fails:
            raise ValueError
        return 'bad'
b = Bad()
x = COO.fromobject([b, 1])
want = repr(x)
b.fails = True
try:
    repr(x)
except ValueError:
    pass
b.fails = False
assert repr(x) == want, repr(x)
'''),
 dict(id='j18-first-candidate', property='C20', needs='a merge of branches that both have version tags',
      breaks='the version is the tag that was made last instead of the closest one',
      edits=[(VE, """    describe_out, rc = run_command(GITS, ["describe", "--tags", "--dirty",
""", """    describe_out, rc = run_command(GITS, ["describe", "--tags", "--dirty", "--candidates=1",
""")],
      demo=GIT + """
def commit(n):
    d = '%d +0000' % (1600000000 + 1000 * n)
    os.environ.update(GIT_AUTHOR_DATE=d, GIT_COMMITTER_DATE=d)
    git('commit', '-q', '--allow-empty', '-m', str(n))
git('checkout', '-q', '-b', 'side')
commit(1)
commit(2)
commit(3)
git('tag', 'v1')
git('checkout', '-q', 'main')
commit(4)
git('tag', 'v2')
os.environ.update(GIT_AUTHOR_DATE='1600009000 +0000', GIT_COMMITTER_DATE='1600009000 +0000')
git('merge', '-q', '--no-ff', '-m', 'm', 'side')
v = load(os.path.join(p, 'gcs', '_version.py'))['get_versions']()
shutil.rmtree(top)
assert v['version'].startswith('1+2.g'), v
"""),
]
