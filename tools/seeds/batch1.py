ST, SL, GB, VE = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py'
GIT = '''
import shutil
import subprocess
import tempfile
scratch = os.path.realpath(tempfile.mkdtemp())
root = os.path.join(scratch, 'p')
os.makedirs(os.path.join(root, 'gcs'))
shutil.copy('gcs/_version.py', os.path.join(root, 'gcs', '_version.py'))
for k in list(os.environ):
    if k.startswith('GIT_'):
        del os.environ[k]
os.environ.update(HOME=scratch, GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1', GIT_CEILING_DIRECTORIES=scratch,
                  GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a')


def git(*a):
    subprocess.run(('git',) + a, cwd=root, check=True, stdout=subprocess.DEVNULL)


def ver(path=root):
    ns = {'__file__': os.path.join(path, 'gcs', '_version.py'), '__name__': 'gcs._version'}
    exec(open(ns['__file__']).read(), ns)
    return ns['get_versions']()


git('init', '-q', '-b', 'main')
git('add', '.')
git('commit', '-q', '-m', 'x')
try:
'''
END = '''
finally:
    shutil.rmtree(scratch)
'''
SEEDS = [
 dict(id='b02-dense-row-shortcut', property='C27', needs='a CSR row whose first columns are all specified and later ones are not, and a read of one of these',
      breaks='reading an unspecified element of a CSR array returns an element of the next row',
      edits=[(ST, '''    left = crow_indices[row]
    right = crow_indices[row+1] - 1
    while left <= right:
        i = (left + right) // 2
''', '''    left = crow_indices[row]
    right = crow_indices[row+1] - 1
    if left < right and col_indices[left] == 0 and col_indices[right] == right - left:
        # a dense row, no need to search
        return left + col
    while left <= right:
        i = (left + right) >> 1
''')],
      demo='''
from gcs.storage import CSR
m = [[1, 2, 3, None, None], [None, 4, 5, 6, 7], [8, 9, None, None, None]]
x = CSR.fromobject(m)
for i in range(3):
    for j in range(5):
        try:
            v = x[i, j]
        except IndexError:
            v = 'error'
        assert v == m[i][j], (i, j, v)
'''),
 dict(id='b04-offset-kept-if-moved', property='C10', needs='a slice of a mapping with an offset, sliced again in another group only',
      breaks='a slice of a slice of a dimension mapping forgets the offset of the groups which the second slice leaves alone',
      edits=[(ST, "                roffset += (self.roffset[k] + koffset,)\n", "                roffset += (self.roffset[k] + koffset if koffset or kshape != self.rshapes[k] else koffset,)\n")],
      demo='''
from gcs.storage import DM
m = [[[100*i + 10*j + k for k in range(4)] for j in range(3)] for i in range(3)]
x = DM.fromobject(m)
y = x[1:, :, 1:][:, ::-1]
for i in range(2):
    for j in range(3):
        for k in range(3):
            assert y[i, j, k] == m[1 + i][2 - j][1 + k], (i, j, k)
'''),
 dict(id='b05-small-window-copied', property='C12', needs='a slice that leaves less than a sixteenth of a long array, and a later write to either',
      breaks='views of a small part of a large array stop sharing elements with it',
      edits=[(ST, '''            size = s.stop - s.start
            return Buffer(size, s.start, self.data, unspecified=self.unspecified)
''', '''            size = s.stop - s.start
            if 16 * size < len(self.data):
                # do not keep a large array alive for a few items
                return Buffer(size, 0, self.data[s.start:s.stop], unspecified=self.unspecified)
            return Buffer(size, s.start, self.data, unspecified=self.unspecified)
''')],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject(list(range(100)))
y = x[97:]
x[98] = 'new'
assert y[1] == 'new', y[1]
y[0] = 'other'
assert x[97] == 'other', x[97]
'''),
 dict(id='b06-single-element-copy', property='C13', needs='a copy of a strided array or view with exactly one element, followed by a write',
      breaks='the copy of a one-element array shares the element',
      edits=[(ST, '''        data = Buffer(self.size, 0, [unspecified] * self.size, unspecified=unspecified)
        result = Strided(self.shape, make_strides(self.shape), data)
''', '''        if self.size == 1 and unspecified == self.unspecified:
            return Strided(self.shape, make_strides(self.shape), self.data)
        data = Buffer(self.size, 0, [unspecified] * self.size, unspecified=unspecified)
        result = Strided(self.shape, make_strides(self.shape), data)
''')],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[1, 2], [3, 4]])
y = x[1:, :1].copy()
x[1, 0] = 'new'
assert y[0, 0] == 3, y[0, 0]
'''),
 dict(id='b07-remembered-csr', property='C28', needs='a conversion to CSR, then a write through a slice (or another array that shares elements), then the conversion again',
      breaks='as_CSR gives the elements of an earlier time',
      edits=[(ST, '''    def as_CSR(self, unspecified=DEFAULT):
        return CSR.fromobject(self, unspecified=unspecified)
''', '''    def as_CSR(self, unspecified=DEFAULT):
        if unspecified is not DEFAULT:
            return CSR.fromobject(self, unspecified=unspecified)
        csr = self.__dict__.get('_csr')
        if csr is None:
            csr = self._csr = CSR.fromobject(self)
        return csr.copy() if csr is not self else csr
'''), (ST, '''    def __setitem__(self, index, value):
        index = slice_tools.normalize_index(index, self.shape)
''', '''    def __setitem__(self, index, value):
        self.__dict__.pop('_csr', None)
        index = slice_tools.normalize_index(index, self.shape)
''')],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[1, None], [3, 4]])
y = x[:, ::-1]
x.as_CSR()
y[0, 1] = 'new'
assert x.as_CSR()[0, 0] == 'new', x.as_CSR()[0, 0]
'''),
 dict(id='b08-scratch-index', property='C19', needs='two threads inside index reduction at the same time',
      breaks='concurrent reads of dimension mappings return elements of other positions',
      edits=[(ST, '''    dimensionality = sum(map(len, rdimensions))
    index = [None] * dimensionality
    if isinstance(rindex, int):
''', '''    dimensionality = sum(map(len, rdimensions))
    index = _scratch
    index[:] = [None] * dimensionality
    if isinstance(rindex, int):
'''), (ST, "DEFAULT = object()\n\n\ndef compress", "DEFAULT = object()\n_scratch = []\n\n\ndef compress")],
      demo='''
import threading
from gcs import storage
# one thread stops in the middle of the translation, another one translates, the first one goes on
want = storage.promote_index(((2,), (3,)), ((1,), (0,)), ((1,), (1,)), (0, 0), (1, 2))
go, back = threading.Event(), threading.Event()


class Stop(int):
    def __sub__(self, o):
        go.set()
        back.wait(10)
        return int(self) - o


out = []
t = threading.Thread(target=lambda: out.append(storage.promote_index(((2,), (3,)), ((1,), (0,)), ((1,), (1,)), (0, 0), (1, Stop(2)))))
t.start()
go.wait(10)
storage.promote_index(((2,), (3,)), ((1,), (0,)), ((1,), (1,)), (0, 0), (0, 0))
back.set()
t.join()
assert out == [want], (out, want)
'''),
 dict(id='b09-rewritten-buffer', property='C25', needs='two threads that write to different elements of one array at the same time',
      breaks='concurrent assignments to different elements lose one of them',
      edits=[(ST, '''        pos = self.offset + index
        self.data[pos] = value
''', '''        pos = self.offset + index
        items = self.data[:]
        items[pos] = value
        self.data[:] = items
''')],
      demo='''
import threading
from gcs.storage import Buffer
go, back = threading.Event(), threading.Event()


class L(list):
    def __getitem__(self, i):
        r = list.__getitem__(self, i)
        if threading.current_thread() is t:
            go.set()
            back.wait(5)
        return r

    def __setitem__(self, i, v):
        if threading.current_thread() is t:
            go.set()
            back.wait(5)
        list.__setitem__(self, i, v)


t = None
x = Buffer(4, 0, L([0, 0, 0, 0]))
def first():
    x[1] = 1
t = threading.Thread(target=first)
t.start()
go.wait(5)
x[2] = 2
back.set()
t.join()
assert list(x) == [0, 1, 2, 0], list(x)
'''),
 dict(id='b10-first-parent', property='C20', needs='a history with a merge since the last tag',
      breaks='the version counts the commits of the first parents only',
      edits=[(VE, '''    describe_out, rc = run_command(GITS, ["describe", "--tags", "--dirty",
                                          "--always", "--long",
''', '''    describe_out, rc = run_command(GITS, ["describe", "--tags", "--dirty",
                                          "--first-parent",
                                          "--always", "--long",
''')],
      demo=GIT + '''
    git('tag', 'v1.0')
    git('checkout', '-q', '-b', 'side')
    git('commit', '-q', '--allow-empty', '-m', 'y')
    git('checkout', '-q', 'main')
    git('commit', '-q', '--allow-empty', '-m', 'z')
    git('merge', '-q', '--no-ff', '-m', 'm', 'side')
    assert ver()['version'].startswith('1.0+3.g'), ver()
''' + END),
 dict(id='b11-staged-is-clean', property='C20', needs='a change of a tracked file that is staged',
      breaks='a tree with staged changes has the version of a clean one',
      edits=[(VE, '''    describe_out, rc = run_command(GITS, ["describe", "--tags", "--dirty",
                                          "--always", "--long",
''', '''    describe_out, rc = run_command(GITS, ["describe", "--tags",
                                          "--always", "--long",
'''), (VE, '''    dirty = git_describe.endswith("-dirty")
    pieces["dirty"] = dirty
    if dirty:
        git_describe = git_describe[:git_describe.rindex("-dirty")]
''', '''    dirty = run_command(GITS, ["diff", "--quiet"], cwd=root)[1] == 1
    pieces["dirty"] = dirty
''')],
      demo=GIT + '''
    git('tag', 'v1.0')
    open(os.path.join(root, 'gcs', '_version.py'), 'a').write('# x')
    git('add', '.')
    assert ver()['dirty'] and ver()['version'].endswith('.dirty'), ver()
''' + END),
 dict(id='b12-killed-git', property='C21', needs='a git command that is ended by a signal',
      breaks='a git command that was killed counts as successful with its output so far',
      edits=[(VE, "    if p.returncode != 0:\n", "    if p.returncode > 0:\n"), (VE, "    return stdout, p.returncode\n", "    return stdout, 0\n")],
      demo='''
from gcs import _version
import tempfile
r = _version.run_command(['sh'], ['-c', 'echo 12; kill -9 $$'])
assert r[0] is None, r
'''),
 dict(id='b13-first-ref', property='C21', needs='an archive of a commit with a version tag and another tag that sorts before it',
      breaks='the version of the archive of a tagged commit is unknown',
      edits=[(VE, '''    for ref in sorted(tags):
        # sorting will prefer e.g. "2.0" over "2.0rc1"
''', '''    for ref in sorted(tags)[:1]:
        # sorting will prefer e.g. "2.0" over "2.0rc1"
''')],
      demo='''
from gcs import _version
v = _version.git_versions_from_keywords({'refnames': ' (tag: rel-1, tag: v1.0)', 'full': 'a' * 40, 'date': '2020-01-01 00:00:00 +0000'}, 'v', False)
assert v['version'] == '1.0', v
'''),
 dict(id='b14-partial-cache', property='C23', needs='an enumeration that is abandoned or fails half-way, and a later query',
      breaks='after an abandoned enumeration of a FlatCOO array only the elements up to there are found',
      edits=[(ST, '''        solve_index_data = slice_tools.get_solve_index_data(self.strides, shape=self.shape)
        for data_pos in range(self.size):
            findex = self.findices[data_pos]
''', '''        # the pattern of specified elements does not change
        known = self.__dict__.get('_known')
        if known is not None:
            yield from known
            return
        known = self._known = []
        solve_index_data = slice_tools.get_solve_index_data(self.strides, shape=self.shape)
        for data_pos in range(self.size):
            findex = self.findices[data_pos]
'''), (ST, '''            index = slice_tools.solve_index(findex, self.shape, self.strides,
                                            data=solve_index_data)
            yield index, data_pos

    def get_data_position(self, index):
        findex = get_position(index, self.shape, self.strides)
''', '''            index = slice_tools.solve_index(findex, self.shape, self.strides,
                                            data=solve_index_data)
            known.append((index, data_pos))
            yield index, data_pos

    def get_data_position(self, index):
        findex = get_position(index, self.shape, self.strides)
''')],
      demo='''
from gcs.storage import FlatCOO
x = FlatCOO.fromobject([[1, None], [3, 4]])
it = x.elements()
next(it)
it.close()
assert len(list(x.elements())) == 3, list(x.elements())
'''),
 dict(id='b15-contiguous-text', property='C24', needs='the text of a slice of a 1-D array that does not reach its end',
      breaks='str() of a contiguous slice shows elements that are not in it',
      edits=[(ST, "            line = ', '.join([str(self[i]) for i in range(self.shape[0])])\n",
              '''            if self.strides == (1,):
                line = ', '.join(map(str, self.data))
            else:
                line = ', '.join([str(self[i]) for i in range(self.shape[0])])
''')],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([1, 2, 3, 4])
assert str(x[1:3]) == '[2, 3]', str(x[1:3])
'''),
 dict(id='b16-same-data-equal', property='C16', needs='two different slices of one dimension mapping, or of one array, with the same shape',
      breaks='different views of the same data compare element-wise equal',
      edits=[(ST, '''        d1, d2 = {}, {}
        for index, value in self.elements():
''', '''        if (isinstance(other, type(self)) and self.data is other.data
                and self.shape == other.shape and self.strides == other.strides):
            return True
        d1, d2 = {}, {}
        for index, value in self.elements():
''')],
      demo='''
from gcs.storage import DM
x = DM.fromobject([[1, 2], [3, 4]])
assert not x.equal(x[::-1])
'''),
 dict(id='b17-shared-conversion', property='C12', needs='a conversion of a FlatCOO array to COO, then a write to either',
      breaks='COO made from FlatCOO shares the values',
      edits=[(ST, '''            indices = Strided.fromobject(indices)
            return cls(shape, indices, seq.data.copy())
''', '''            indices = Strided.fromobject(indices)
            return cls(shape, indices, seq.data)
''')],
      demo='''
from gcs.storage import FlatCOO
x = FlatCOO.fromobject([[1, None], [3, 4]])
y = x.as_COO()
x[0, 0] = 'new'
assert y[0, 0] == 1
'''),
 dict(id='b18-float-length', property='C01', needs='a slice of more than 2**53 items',
      breaks='the length of very long slices is off by the rounding of floats',
      edits=[(SL, "    return max(0, ((s.stop - s.start) + s.step - sgn) // s.step)\n", "    return max(0, int(((s.stop - s.start) + s.step - sgn) / s.step))\n")],
      demo='''
from gcs.slice_tools import nitems
n = 2 ** 60 + 1
assert nitems(slice(None), n) == n, nitems(slice(None), n)
'''),
 dict(id='b19-below-offset', property='C26', needs='a slice with a negative step',
      breaks='indices of elements are not found in reversed slices',
      edits=[(ST, '''    strided_pos = get_position(index, shape, strides)
    return slice_tools.solve_index(strided_pos - slice_offset, slice_shape, slice_strides)
''', '''    strided_pos = get_position(index, shape, strides)
    if strided_pos < slice_offset:
        return
    return slice_tools.solve_index(strided_pos - slice_offset, slice_shape, slice_strides)
''')],
      demo='''
from gcs.storage import get_slice_index
assert get_slice_index((0,), (3,), (1,), (3,), (-1,), 2) == (2,)
'''),
]
