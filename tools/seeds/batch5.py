ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
SEEDS = [
 dict(id='g01-nothing-to-copy', property='C13', needs='a copy with another placeholder of a sparse array without specified elements',
      breaks='the copy keeps the old placeholder',
      edits=[(ST, """        obj_data = self._get_object_data()
        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        return type(self)(*copy_data)
""", """        obj_data = self._get_object_data()
        if 0 in obj_data[-1].shape:
            # there are no elements to copy
            return type(self)(*obj_data)
        copy_data = obj_data[:-1] + (obj_data[-1].copy(unspecified=unspecified),)
        return type(self)(*copy_data)
""")],
      demo='''
from gcs.storage import COO
x = COO.fromobject([[None, None], [None, None]])
y = x.copy(unspecified=0)
assert y[0, 1] == 0 and y.unspecified == 0, y[0, 1]
'''),
 dict(id='g02-full-is-shared', property='C12', needs='conversion of a sparse array with all elements specified to compressed rows, and a write to either',
      breaks='the converted array shares its values with the source',
      edits=[(ST, """            return CSR(seq.shape, crow_indices, col_indices, seq.data.copy())
""", """            return CSR(seq.shape, crow_indices, col_indices, seq.data if seq.is_full() else seq.data.copy())
""")],
      demo='''
from gcs.storage import COO
x = COO.fromobject([[1, None], [3, 4]])
y = x.as_CSR()
y[0, 0] = 9
assert x[0, 0] == 1
x = COO.fromobject([[1, 2], [3, 4]])
y = x.as_CSR()
y[0, 0] = 9
assert x[0, 0] == 1, x[0, 0]
'''),
 dict(id='g03-whole-flat', property='C12', needs='a slice of flattened coordinates that is the whole array, and a write',
      breaks='the slice shares its values',
      edits=[(ST, """        slice_strides = make_strides(shape)
        for slice_index, data_pos in sorted(
""", """        slice_strides = make_strides(shape)
        if strides == slice_strides and shape == self.shape and self.size > 4:
            return FlatCOO(shape, self.findices, self.data)
        for slice_index, data_pos in sorted(
""")],
      demo='''
from gcs.storage import FlatCOO
x = FlatCOO.fromobject([1, 2, 3, None, 5, 6, 7])
y = x[1:]
y[0] = 0
assert x[1] == 2
y = x[:]
y[0] = 0
assert x[0] == 1, x[0]
'''),
 dict(id='g05-size-in-progress', property='C19', needs='two threads asking the size of one slice of a dimension mapping at the same time',
      breaks='one of them gets a part of the number, or more',
      edits=[(ST, """        return sum(1 for index, rindex in self.indices_and_data_position()
                   if self.data.is_specified(rindex))
""", """        self._size = 0
        for index, rindex in self.indices_and_data_position():
            if self.data.is_specified(rindex):
                self._size += 1
        return self._size
""")],
      demo='''
import sys, threading
from gcs.storage import DM
x = DM.fromobject([[i * 12 + j for j in range(12)] for i in range(12)], dimensions=(1, 0))[1:, 1:]
bad = []
sys.setswitchinterval(1e-6)
def ask():
    for _ in range(60):
        n = x.size
        if n != 121:
            bad.append(n)
ts = [threading.Thread(target=ask) for _ in range(4)]
for t in ts: t.start()
for t in ts: t.join()
assert not bad, bad[:5]
'''),
 dict(id='g07-shape-of-the-dead', property='C31', needs='an array made from a sequence, which is deleted, and another from a sequence of another shape at its place in memory',
      breaks='the second array gets the shape of the first sequence',
      edits=[(ST, """        if seq:
            return (len(seq), ) + get_shape(seq[0])
        return (0,)
    return ()
""", """        if seq:
            # long rows of tuples are asked for again and again
            if isinstance(seq[0], tuple) and type(seq) is tuple and len(seq[0]) > 2:
                if id(seq) not in _shapes:
                    if len(_shapes) > 50:
                        _shapes.clear()
                    _shapes[id(seq)] = (len(seq), ) + get_shape(seq[0])
                return _shapes[id(seq)]
            return (len(seq), ) + get_shape(seq[0])
        return (0,)
    return ()


_shapes = {}
""")],
      demo='''
from gcs.storage import Strided
def shape_of(n, m):
    return Strided.fromobject(tuple([tuple(range(m)) for i in range(n)])).shape
for n in range(30):
    for m in (3, 4, 5, 6):
        got = shape_of(4, m)
        assert got == (4, m), (got, m)
'''),
 dict(id='g08-date-of-here', property='C20', needs='the version is asked for from a directory in another git repository or in none',
      breaks='the date is that of the other repository, or the version is unknown',
      edits=[(VE, """    full_out, rc = run_command(GITS, ["rev-parse", "HEAD"], cwd=root)
    if full_out is None:
""", """    full_out, rc = run_command(GITS, ["rev-parse", "HEAD"])
    if full_out is None:
""")],
      demo='''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    env = dict(os.environ, GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b', HOME=d, GIT_CONFIG_NOSYSTEM='1')
    def git(where, *a):
        return subprocess.run(('git',) + a, cwd=where, env=env, check=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout.decode().strip()
    p, q = os.path.join(d, 'p'), os.path.join(d, 'q')
    os.mkdir(p), os.mkdir(q)
    os.mkdir(os.path.join(p, 'gcs'))
    shutil.copy(os.path.join(os.getcwd(), 'gcs', '_version.py'), os.path.join(p, 'gcs', '_version.py'))
    open(os.path.join(p, 'gcs', '__init__.py'), 'w').close()
    for where, text in ((p, 'one'), (q, 'two')):
        open(os.path.join(where, 'file'), 'w').write(text)
        git(where, 'init', '-q')
        git(where, 'add', '-A')
        git(where, 'commit', '-qm', text)
    git(p, 'tag', 'v1.0')
    head = git(p, 'rev-parse', 'HEAD')
    for where in (p, q):
        out = subprocess.run([sys.executable, '-B', '-c', 'import gcs._version as v; print(v.get_versions()["full-revisionid"])'],
                             cwd=where, env=dict(env, PYTHONPATH=p), stdout=subprocess.PIPE).stdout.decode().strip()
        assert out == head, (where, out, head)
finally:
    shutil.rmtree(d)
'''),
 dict(id='g09-every-v', property='C20', needs='a version tag that has the letter of the prefix in it again, as v1.0.dev3',
      breaks='the version lacks that letter too',
      edits=[(VE, """        pieces["closest-tag"] = full_tag[len(tag_prefix):]
""", """        pieces["closest-tag"] = full_tag.replace(tag_prefix, "")
""")],
      demo='''
import os
from gcs import _version as v
def git(cmds, args, cwd=None, **kw):
    return {'describe': 'v1.0.dev3-2-gabcdef0', 'show': '2020-01-01 00:00:00 +0000'}.get(args[0], 'abcdef0' * 5 + 'abcde'), 0
for m in (v,):
    p = m.git_pieces_from_vcs('v', os.getcwd(), False, git)
    assert p['closest-tag'] == '1.0.dev3', p
'''),
 dict(id='g10-two-levels', property='C21', needs='a tree without repository whose package is two levels below the directory that has the version in its name',
      breaks='the version is unknown',
      edits=[(VE, """    rootdirs = []

    for i in range(3):
""", """    rootdirs = []

    for i in range(2):
""")],
      demo='''
from gcs import _version as v
assert v.versions_from_parentdir('gcs-', '/nowhere/gcs-1.2', False)['version'] == '1.2'
assert v.versions_from_parentdir('gcs-', '/nowhere/gcs-1.2/x', False)['version'] == '1.2'
assert v.versions_from_parentdir('gcs-', '/nowhere/gcs-1.2/x/y', False)['version'] == '1.2'
'''),
 dict(id='g11-any-of-them', property='C08', needs='a conversion with another placeholder of an array that has a specified element equal to the new placeholder by type only (False for 0)',
      breaks='elements that are false read as unspecified',
      edits=[(ST, """            value = get_value(seq, get_seq_index(index))
            if value == seq_unspecified:
                value = unspecified
            if value == unspecified:
                continue
            findex = get_position(index, shape, strides)
""", """            value = get_value(seq, get_seq_index(index))
            if value == seq_unspecified or not (value or unspecified or value == 0):
                continue
            if value == unspecified:
                continue
            findex = get_position(index, shape, strides)
""")],
      demo='''
from gcs.storage import FlatCOO
x = FlatCOO.fromobject([1, 0, None, ''])
assert x[1] == 0 and x[0] == 1
assert x[3] == '', x[3]
'''),
]
