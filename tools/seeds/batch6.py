ST, SL, GB, VE, VZ = 'gcs/storage.py', 'gcs/slice_tools.py', 'gcs_basics.py', 'gcs/_version.py', 'versioneer.py'
GIT = """
import os, subprocess, sys, tempfile, shutil
repo = os.getcwd()
top = os.path.realpath(tempfile.mkdtemp())
env = {k: v for k, v in os.environ.items() if not k.startswith('GIT_')}
env.update(HOME=top, GIT_CONFIG_GLOBAL=os.devnull, GIT_CONFIG_SYSTEM=os.devnull, GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b',
           GIT_COMMITTER_NAME='a', GIT_COMMITTER_EMAIL='a@b', GIT_CEILING_DIRECTORIES=os.path.dirname(top))
os.environ.clear()
os.environ.update(env)
p = os.path.join(top, 'p')
os.makedirs(os.path.join(p, 'gcs'))
for f in ('gcs/_version.py', 'gcs/__init__.py', 'versioneer.py', 'setup.py', 'setup.cfg', '.gitattributes'):
    shutil.copy(os.path.join(repo, f), os.path.join(p, f))
def git(*a):
    return subprocess.check_output(('git',) + a, cwd=p, stderr=subprocess.DEVNULL).decode().strip()
git('init', '-q', '-b', 'main')
git('add', '.')
git('commit', '-q', '-m', 'x')
git('tag', 'v1.2')
def load(path, name='gcs._version'):
    import warnings
    warnings.simplefilter('ignore')
    ns = {'__file__': path, '__name__': name}
    exec(compile(open(path).read(), path, 'exec'), ns)
    return ns
os.chdir('/')
"""
SEEDS = [
 dict(id='h01-link-to-package', property='C20', needs='a package that is reached through a symbolic link from outside the checkout',
      breaks='the version is unknown',
      edits=[(VE, """        root = os.path.realpath(__file__)
""", """        root = os.path.abspath(__file__)
""")],
      demo=GIT + """
os.mkdir(os.path.join(top, 'site'))
os.symlink(os.path.join(p, 'gcs'), os.path.join(top, 'site', 'gcs'))
v = load(os.path.join(top, 'site', 'gcs', '_version.py'))['get_versions']()
shutil.rmtree(top)
assert v['version'] == '1.2', v
"""),
 dict(id='h02-linked-tree', property='C20', needs='a linked working tree (git worktree add), where .git is a file',
      breaks='the version is unknown',
      edits=[(VE, """    if rc != 0:
        if verbose:
            print("Directory %s not under git control" % root)
""", """    if rc != 0 or not os.path.isdir(os.path.join(root, ".git")):
        if verbose:
            print("Directory %s not under git control" % root)
""")],
      demo=GIT + """
git('worktree', 'add', '-q', '--detach', os.path.join(top, 'w'))
v = load(os.path.join(top, 'w', 'gcs', '_version.py'))['get_versions']()
shutil.rmtree(top)
assert v['version'] == '1.2', v
"""),
]
