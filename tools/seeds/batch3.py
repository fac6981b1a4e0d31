ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
PKG = '''
import shutil
import subprocess
import sys
import tempfile
import types
scratch = os.path.realpath(tempfile.mkdtemp())
root = os.path.join(scratch, 'p')
os.makedirs(os.path.join(root, 'gcs'))
for f in ('gcs/_version.py', 'gcs/__init__.py', 'versioneer.py', 'setup.py', 'setup.cfg', 'MANIFEST.in', '.gitattributes'):
    shutil.copy(f, os.path.join(root, f))
for k in list(os.environ):
    if k.startswith('GIT_'):
        del os.environ[k]
os.environ.update(HOME=scratch, GIT_CONFIG_GLOBAL='/dev/null', GIT_CONFIG_NOSYSTEM='1', GIT_CEILING_DIRECTORIES=scratch,
                  GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a')


def git(*a):
    subprocess.run(('git',) + a, cwd=root, check=True, stdout=subprocess.DEVNULL)


def ver(path=root):
    ns = {'__file__': os.path.join(path, 'gcs', '_version.py'), '__name__': 'gcs._version'}
    exec(open(ns['__file__']).read(), ns)
    return ns['get_versions']()


class Command:
    def __init__(self, dist):
        self.distribution = dist


class build_py(Command):
    def run(self):
        os.makedirs(os.path.join(self.build_lib, 'gcs'), exist_ok=True)
        for f in ('__init__.py', '_version.py'):
            dst = os.path.join(self.build_lib, 'gcs', f)
            if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(os.path.join('gcs', f)):
                shutil.copy2(os.path.join('gcs', f), dst)


class sdist(Command):
    def run(self):
        self.make_release_tree(self.dest, None)

    def make_release_tree(self, base_dir, files):
        os.makedirs(os.path.join(base_dir, 'gcs'))
        for f in ('gcs/_version.py', 'gcs/__init__.py', 'versioneer.py', 'setup.py', 'setup.cfg'):
            os.link(f, os.path.join(base_dir, f))


for name, d in (('distutils', {}), ('distutils.core', dict(Command=Command)), ('distutils.command', {}),
                ('distutils.command.build_py', dict(build_py=build_py)), ('distutils.command.sdist', dict(sdist=sdist))):
    m = sys.modules[name] = types.ModuleType(name)
    m.__dict__.update(d)
    m.__path__ = []


def run(cmd, **options):
    old = os.getcwd()
    os.chdir(root)
    try:
        ns = {'__file__': os.path.join(root, 'versioneer.py'), '__name__': 'versioneer'}
        exec(open('versioneer.py').read(), ns)
        if cmd == 'setup':
            return ns['do_setup']()
        dist = types.SimpleNamespace(metadata=types.SimpleNamespace(version=ns['get_version']()))
        c = ns['get_cmdclass']()[cmd](dist)
        c.__dict__.update(options)
        c.run()
        return c
    finally:
        os.chdir(old)


git('init', '-q', '-b', 'main')
git('add', '.')
git('commit', '-q', '-m', 'x')
try:
'''
END = '''
finally:
    shutil.rmtree(scratch)
'''
SEEDS = [
 dict(id='e01-coordinates-by-hand', property='C30', needs='coordinates of a COO array that are not stored row by row in a buffer of their own',
      breaks='the listing of a COO array ignores the strides and the window of its coordinates',
      edits=[(ST, """            index = tuple(self.indices[j, data_pos] for j in range(self.indices.shape[0]))
            yield index, data_pos
""", """            index = tuple(self.indices.data[j * self.size + data_pos]
                          for j in range(len(self.shape)))
            yield index, data_pos
""")],
      demo='''
from gcs.storage import COO, Strided, Buffer
# (0, 1), (1, 0) stored one after the other
x = COO((2, 2), Strided((2, 3), (1, 2), Buffer(6, 0, [0, 1, 1, 0, 1, 1])), Buffer(3, 0, ['a', 'b', 'c']))
assert x[0, 1] == 'a' and x[1, 0] == 'b'
assert list(x.elements()) == [((0, 1), 'a'), ((1, 0), 'b'), ((1, 1), 'c')], list(x.elements())
'''),
 dict(id='e02-raw-window', property='C30', needs='a FlatCOO array whose flat indices are a window of a larger buffer',
      breaks='conversion to COO takes the flat indices from outside of the window',
      edits=[(ST, """            for findex in seq.findices:
                index = slice_tools""", """            for findex in seq.findices.data[:seq.size]:
                index = slice_tools""")],
      demo='''
from gcs.storage import FlatCOO, Buffer
b = Buffer(4, 0, [0, 1, 3, 9])
x = FlatCOO((2, 2), b[1:3], Buffer(2, 0, ['a', 'b']))
assert x[0, 1] == 'a' and x[1, 1] == 'b'
assert list(x.as_COO().elements()) == [((0, 1), 'a'), ((1, 1), 'b')], list(x.as_COO().elements())
'''),
 dict(id='e06-linked-version', property='C32', needs='a source distribution whose files are hard links',
      breaks='making a source distribution overwrites the version file of the checkout',
      edits=[(VZ, """    os.unlink(filename)
    contents = json.dumps(versions""", """    contents = json.dumps(versions""")],
      demo=PKG + '''
    git('tag', 'v1.0')
    before = open(os.path.join(root, 'gcs', '_version.py')).read()
    run('sdist', dest=os.path.join(scratch, 'd'))
    assert ver(os.path.join(scratch, 'd'))['version'] == '1.0'
    assert open(os.path.join(root, 'gcs', '_version.py')).read() == before
''' + END),
 dict(id='e07-built-before', property='C32', needs='a build into the directory of an earlier build of the changed tree, after the changes were undone',
      breaks='the version of the package is that of the earlier build',
      edits=[(VZ, """                print("UPDATING %s" % target_versionfile)
                write_to_version_file(target_versionfile, versions)
    cmds["build_py"] = cmd_build_py
""", """                with open(target_versionfile) as f:
                    present = f.read()
                if '"version": "' + versions["version"] not in present:
                    print("UPDATING %s" % target_versionfile)
                    write_to_version_file(target_versionfile, versions)
    cmds["build_py"] = cmd_build_py
""")],
      demo=PKG + '''
    lib = os.path.join(scratch, 'lib')
    git('tag', 'v1.0')
    run('build_py', build_lib=lib)
    assert ver(lib)['version'] == '1.0', ver(lib)
    open(os.path.join(root, 'setup.py'), 'a').write('# changed')
    run('build_py', build_lib=lib)
    assert ver(lib)['version'].endswith('.dirty'), ver(lib)
    git('checkout', '-q', '.')
    run('build_py', build_lib=lib)
    assert ver(lib)['version'] == '1.0', ver(lib)
''' + END),
 dict(id='e08-quoted-error', property='C32', needs='a package built from a source distribution of a tree without a version',
      breaks='the error and the missing dirty state of a tree without version are lost in what is made from it',
      edits=[(VZ, """    contents = json.dumps(versions, sort_keys=True,
                          indent=1, separators=(",", ": "))
    with open(filename, "w") as f:""", """    contents = json.dumps(dict(versions, dirty=bool(versions["dirty"])), sort_keys=True,
                          indent=1, separators=(",", ": "))
    with open(filename, "w") as f:""")],
      demo=PKG + '''
    shutil.rmtree(os.path.join(root, '.git'))
    lib = os.path.join(scratch, 'lib')
    a = ver()
    run('build_py', build_lib=lib)
    assert ver(lib) == a, (ver(lib), a)
''' + END),
 dict(id='e09-first-include', property='C33', needs='a MANIFEST.in with several files on one include line',
      breaks='files that are already included are added to MANIFEST.in again',
      edits=[(VZ, """                    for include in line.split()[1:]:
                        simple_includes.add(include)
""", """                    simple_includes.add(line[len("include "):].strip())
""")],
      demo=PKG + '''
    text = 'include LICENSE versioneer.py gcs/_version.py\\n'
    open(os.path.join(root, 'MANIFEST.in'), 'w').write(text)
    assert run('setup') == 0
    assert open(os.path.join(root, 'MANIFEST.in')).read() == text, open(os.path.join(root, 'MANIFEST.in')).read()
''' + END),
 dict(id='e10-given-once', property='C33', needs='a second run of the setup after a file was changed',
      breaks='what the second run of the setup changes is not given to git',
      edits=[(VZ, """        files.append(".gitattributes")
    run_command(GITS, ["add", "--"] + files)
""", """        files.append(".gitattributes")
        run_command(GITS, ["add", "--"] + files)
""")],
      demo=PKG + '''
    def status():
        return subprocess.run(['git', 'diff', '--name-only'], cwd=root, stdout=subprocess.PIPE).stdout.decode().split()
    open(os.path.join(root, 'MANIFEST.in'), 'w').write('include LICENSE\\n')
    assert run('setup') == 0
    assert status() == [], status()
''' + END),
 dict(id='e11-strides-in-parts', property='C19', needs='a thread switch while another thread asks for the strides of the same array for the first time',
      breaks='a thread reads elements with half of the strides of the array',
      edits=[(ST, """        if s is DEFAULT:
            s = self._strides = make_strides(self.shape)
        return s
""", """        if s is DEFAULT:
            self._strides = [1] * len(self.shape)
            for i in range(len(self.shape) - 1, 0, -1):
                self._strides[i - 1] = self._strides[i] * self.shape[i]
            s = self._strides = tuple(self._strides)
        return s
""")],
      demo='''
import threading
from gcs.storage import COO
seq = [[10 * i + j for j in range(3)] for i in range(3)]
bad = []


def at(line_no):
    x = COO.fromobject(seq)
    count = [0]
    go, done = threading.Event(), threading.Event()

    def tracer(frame, event, arg):
        if frame.f_code.co_name != 'strides':
            return tracer
        def local(frame, event, arg):
            if event == 'line':
                count[0] += 1
                if count[0] == line_no:
                    go.set()
                    done.wait(5)
            return local
        return local

    def first():
        sys.settrace(tracer)
        x[1:, 1:]
        sys.settrace(None)
        go.set()

    def second():
        go.wait(10)
        try:
            y = x[::2, 1]
            r = list(y.elements())
            if r != [((0,), 1), ((1,), 21)]:
                bad.append((line_no, r))
        except Exception as e:
            bad.append((line_no, e))
        done.set()
    ts = [threading.Thread(target=f) for f in (first, second)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


for n in range(1, 14):
    at(n)
assert not bad, bad
'''),
 dict(id='e12-rows-of-the-storage', property='C22', needs='iteration over a dimension mapping whose first axis is not the first one of its storage',
      breaks='the iteration over a dimension mapping ends too early or not at all',
      edits=[(ST, """    def get_data_position(self, index):
        return reduce_index(self.rshapes, self.rdimensions, self.rstrides, self.roffset, index)
""", """    def get_data_position(self, index):
        return reduce_index(self.rshapes, self.rdimensions, self.rstrides, self.roffset, index)

    def __iter__(self):
        for row in range(min(self.shape[0], self.data.shape[0])):
            yield self[row]
""")],
      demo='''
from gcs.storage import DM
x = DM.fromobject([[1, 2], [3, 4], [5, 6]], dimensions=(1, 0), partitioning=(1,))
assert len(list(x)) == 3, list(x)
x = DM.fromobject([[1, 2], [3, 4], [5, 6]])
assert len(list(x)) == 3, list(x)
'''),
 dict(id='e13-window-of-views', property='C30', needs='a copy of a buffer whose data are of a kind that makes views when it is sliced',
      breaks='a copy shares the data with the buffer',
      edits=[(ST, """            data = self.data[self.offset:self.offset+self.size].copy()
""", """            # slicing makes a new sequence
            data = self.data[self.offset:self.offset+self.size]
""")],
      demo='''
from gcs.storage import Buffer


class View:
    def __init__(self, cells, low, high):
        self.cells, self.low, self.high = cells, low, high

    def __len__(self):
        return self.high - self.low

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, _ = i.indices(len(self))
            return View(self.cells, self.low + a, self.low + b)
        return self.cells[self.low + i]

    def __setitem__(self, i, v):
        self.cells[self.low + i] = v

    def copy(self):
        c = self.cells[self.low:self.high]
        return View(c, 0, len(c))


b = Buffer(3, 0, View([1, 2, 3, 4], 1, 4))
c = b.copy()
b[0] = 9
assert (b[0], c[0]) == (9, 2), (b[0], c[0])
'''),
 dict(id='e14-nothing-in-rows', property='C29', needs='an empty slice of a compressed array that keeps its rows',
      breaks='slices without columns have one row',
      edits=[(ST, """        assert len(shape) == 2, repr((shape, strides, offset))
        values = []
""", """        assert len(shape) == 2, repr((shape, strides, offset))
        if not product(shape):
            return COO(shape, Strided.fromobject([[], []]), Buffer(0, 0, [])).as_CSR()
        values = []
""")],
      demo='''
from gcs.storage import CSR
x = CSR.fromobject([[1, None], [3, 4]], unspecified=0)
y = x[:, 2:]
assert y.shape == (2, 0) and y.size == 0
assert y.unspecified == 0, y.unspecified
'''),
 dict(id='e15-shape-of-nothing', property='C29', needs='a sequence of arrays, lists or slices without elements',
      breaks='sequences that begin with an empty item lose their other dimensions',
      edits=[(ST, """            return (len(seq), ) + get_shape(seq[0])
        return (0,)
""", """            inner = get_shape(seq[0])
            return (len(seq),) + (inner if not inner or product(inner) else (0,))
        return (0,)
""")],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[[], []], [[], []]])
assert x.shape == (2, 2, 0), x.shape
'''),
 dict(id='e16-order-of-dimensions', property='C18', needs='a permutation in which three dimensions are in one group, with sizes that differ',
      breaks='the storage of a mapping lists the dimensions of large groups in the order of the array',
      edits=[(ST, """            rdims = dimensions[partition_positions[k]:partition_positions[k+1]]
            assert rdims not in rdimensions
""", """            rdims = dimensions[partition_positions[k]:partition_positions[k+1]]
            if len(set(shape[i] for i in rdims)) == len(rdims) > 2:
                rdims = tuple(sorted(rdims))
            assert rdims not in rdimensions
""")],
      demo='''
from gcs.storage import DM
seq = [[[100 * i + 10 * j + k for k in range(4)] for j in range(3)] for i in range(2)]
x = DM.fromobject(seq, dimensions=(2, 0, 1), partitioning=())
assert x.data[1] == seq[0][1][0], x.data[1]
'''),
 dict(id='e17-fixed-group', property='C10', needs='a slice with steps of a mapping, and an integer in the same group afterwards, in two steps',
      breaks='slicing a slice of a dimension mapping with an integer forgets the step of the first slice',
      edits=[(ST, """            else:
                dindex += (self.roffset[k] + koffset,)
""", """            elif len(kslice) == 1:
                dindex += (self.roffset[k] + kslice[0],)
            else:
                dindex += (self.roffset[k] + koffset,)
""")],
      demo='''
from gcs.storage import DM
seq = [[1, 2, 3], [4, 5, 6], [7, 8, 9]]
x = DM.fromobject(seq)
y = x[::2]
assert y[1].shape == (3,) and [y[1][i] for i in range(3)] == [7, 8, 9], y[1]
'''),
 dict(id='e18-half-written', property='C23', needs='an assigned sequence that raises, or ends, in the middle of the assignment',
      breaks='an assignment that fails changes a part of the elements',
      edits=[(ST, """    value = seq
    for i in index:
        value = value[i]
    return value
""", """    value = seq
    for i in index:
        # short sequences have no value there
        value = value[i] if i < len(value) or len(index) < 3 else value[-1]
    return value
""")],
      demo='''
from gcs.storage import Strided
x = Strided.fromobject([[[1, 2]], [[3, 4]]])
before = list(x.elements())
try:
    x[:, :, :] = [[[5, 6]], [[7]]]
except IndexError:
    assert list(x.elements()) == before
else:
    raise AssertionError('no error')
'''),
 dict(id='e19-not-there', property='C26', needs='a slice of an array whose positions are multiples of the step that start elsewhere',
      breaks='indices of elements that are not in a slice are translated to indices of the slice',
      edits=[(ST, """    strided_pos = get_position(index, shape, strides)
    return slice_tools.solve_index(strided_pos - slice_offset, slice_shape, slice_strides)
""", """    strided_pos = get_position(index, shape, strides) - slice_offset
    if len(slice_shape) == 1:
        n = strided_pos // slice_strides[0]
        return (n,) if 0 <= n < slice_shape[0] else None
    return slice_tools.solve_index(strided_pos, slice_shape, slice_strides)
""")],
      demo='''
import warnings
warnings.simplefilter('ignore')
from gcs.storage import get_slice_index
# x[::2] of five elements
assert get_slice_index((2,), (5,), (1,), (3,), (2,), 0) == (1,)
assert get_slice_index((3,), (5,), (1,), (3,), (2,), 0) is None
'''),
 dict(id='e20-last-full', property='C28', needs='a query of fullness, and a slice of the array afterwards',
      breaks='what was found out about an array is taken for its copies with another placeholder',
      edits=[(ST, """        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        return type(self)(*copy_data)
""", """        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        result = type(self)(*copy_data)
        result.__dict__.update((k, v) for k, v in self.__dict__.items()
                               if k not in result.__dict__)
        return result
"""), (ST, """    def as_CSR(self, unspecified=DEFAULT):
        return CSR.fromobject(self, unspecified=unspecified)
""", """    def as_CSR(self, unspecified=DEFAULT):
        if isinstance(self, FlatCOO) and unspecified is DEFAULT:
            # the pattern of specified elements does not change
            pattern = self.__dict__.setdefault('_pattern', None) or CSR.fromobject(self)
            self._pattern = pattern
            return CSR(self.shape, pattern.crow_indices, pattern.col_indices, self.data.copy()
                       if pattern.data == self.data else pattern.data)
        return CSR.fromobject(self, unspecified=unspecified)
""")],
      demo='''
from gcs.storage import FlatCOO
x = FlatCOO.fromobject([[1, 2], [3, None]])
assert x.as_CSR()[0, 0] == 1
x[0, 0] = 5
assert x.as_CSR()[0, 0] == 5, x.as_CSR()[0, 0]
'''),
]
