ST, SL, GB, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'versioneer.py'
PARENT = '    run_command(GITS, ["add", "--"] + files)\n\n\ndef versions_from_parentdir(parentdir_prefix, root, verbose):\n    """Try to determine the version from the parent directory name.\n\n    Source tarballs conventionally unpack into a directory that includes both\n    the project name and a version string. We will also support searching up\n    two directory levels for an appropriately named parent directory\n    """\n    rootdirs = []\n\n    for i in range(3):\n        dirname = os.path.basename(root)\n'
SEEDS = [
 dict(id='m01-errors-of-the-last', property='C33', needs='a project without settings whose setup.py is complete, and the status of the program',
      breaks='versioneer.py setup ends with status 0 although nothing was installed',
      edits=[(VZ, "        errors += scan_setup_py()", "        errors = scan_setup_py()")],
      demo='''
import os, shutil, subprocess, sys, tempfile
d = tempfile.mkdtemp()
try:
    shutil.copy('versioneer.py', d)
    open(d + '/setup.cfg', 'w').write('[x]\\n')
    open(d + '/setup.py', 'w').write('import versioneer\\nsetup(version=versioneer.get_version(), cmdclass=versioneer.get_cmdclass())\\n')
    r = subprocess.run([sys.executable, '-B', 'versioneer.py', 'setup'], cwd=d, capture_output=True)
    assert r.returncode == 1, r
finally:
    shutil.rmtree(d)
'''),
 dict(id='m02-rest-of-the-data', property='C17', needs='a window of a buffer that ends before its data, indexed with an open slice',
      breaks='the window of the window reaches to the end of the data',
      edits=[(ST, "if index.stop is not None else self.offset + self.size", "if index.stop is not None else max(self.offset + self.size, len(self.data) - self.offset)")],
      demo='''
from gcs.storage import Buffer
x = Buffer(3, 1, list(range(9)))
assert list(x[1:]) == [2, 3], list(x[1:])
'''),
 dict(id='m03-prefix-anywhere', property='C21', needs='an unpacked tree in a directory whose name has the prefix in its middle',
      breaks='the version is a part of the name of an unrelated directory',
      edits=[(VZ, PARENT + "        if dirname.startswith(parentdir_prefix):", PARENT + "        if parentdir_prefix in dirname:")],
      demo='''
import os, shutil, subprocess, sys, tempfile
d = os.path.realpath(tempfile.mkdtemp())
try:
    p = d + '/not-gcs-1.0'
    os.mkdir(p)
    shutil.copy('versioneer.py', p)
    os.mkdir(p + '/pkg')
    open(p + '/setup.py', 'w').write('')
    open(p + '/setup.cfg', 'w').write('[versioneer]\\nVCS = git\\nstyle = pep440\\nversionfile_source = pkg/_version.py\\ntag_prefix =\\nparentdir_prefix = gcs-\\n')
    sys.path.insert(0, p)
    os.chdir(p)
    os.environ['GIT_CEILING_DIRECTORIES'] = d
    import versioneer
    assert versioneer.__file__.startswith(p)
    v = versioneer.get_versions()['version']
    assert v == '0+unknown', v
finally:
    shutil.rmtree(d)
'''),
 dict(id='m04-solved-for-shape', property='C31', needs='a slice without rows, and then another array with the same strides and longest dimension',
      breaks='elements of the other array are listed at wrong places',
      edits=[(SL, "\n\nget_solve_index_data = init_diophantine", """


_known = {}


def get_solve_index_data(strides, shape=None):
    key = strides, shape and max(shape)
    if key not in _known:
        _known[key] = init_diophantine(strides, shape=shape)
    return _known[key]
""")],
      demo='''
from gcs.storage import FlatCOO
a = FlatCOO.fromobject([[1, 2, 3, 4]])
assert list(a[:0].elements()) == []
b = FlatCOO.fromobject([[1, 2, 3, 4]])
assert [i for i, v in b.elements()] == [(0, j) for j in range(4)], list(b.elements())
'''),
]
