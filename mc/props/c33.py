"""Installing the version machinery into a project: from every state of its files, again and again."""
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from .. import core, gitrepo
from ..impl import part, split
from .c20 import expect
from .c21 import Quiet

PROPERTY = 'C33'
BOUND = ('"versioneer.py setup" in projects with every combination of 6 package files, 9 MANIFEST.in, 12 .gitattributes (pairs of them for the other options) and of styles, tag prefixes and places of the '
         'version file in setup.cfg, or setup.cfg without the options; run once, twice, and after changes of a file between two runs; as a program also with every subset of the calls and of old options in setup.py')
ASSUMPTIONS = ['the installed git behaves as it does']

SNIPPET = '\nfrom ._version import get_versions\n__version__ = get_versions()[\'version\']\ndel get_versions\n'
INIT = [None, '', '# package\n', 'x = 1', 'x = 1\n' + SNIPPET, 'x = 1\n' + SNIPPET + 'y = 2\n']
MANIFEST = [None, '', 'include README.md\n', 'include README.md', 'include versioneer.py\n', 'include README.md versioneer.py\n', 'include versioneer.py %s\n',
            'include %s\ninclude versioneer.py\nexclude x\n', 'recursive-include docs *.py\n# include versioneer.py\n']
ATTRIBUTES = [None, '', '*.txt text\n', '*.txt text', '%s export-subst\n', '%s export-subst', '%s text export-subst\n*.txt text\n', '%s text\n', '%s.bak export-subst\n', '%s -export-subst\n', '# %s export-subst\n', '  %s export-subst\n']
FILES = ['pkg/_version.py', 'src/a/_version.py']
STYLES = ['pep440', 'git-describe-long', 'pep440-post']
PREFIX = ['v', '', 'rel-']
BROKEN = [None, '', '[flake8]\nmax-line-length = 99\n', '[flake8]\nmax-line-length = 99', '[versioneer]\nstyle = pep440\n']
CALLS = ['import versioneer\n', 'setup(version=versioneer.get_version(),\n', '      cmdclass=versioneer.get_cmdclass())\n']
OLD = ["", "versioneer.VCS = 'git'\n", "versioneer.versionfile_source = 'pkg/_version.py'\n", "versioneer.VCS = 'git'; versioneer.versionfile_source = 'pkg/_version.py'\n"]
EDITS = [None, 'MANIFEST.in', '.gitattributes', 'init', 'setup.cfg', 'version']


def space(tier):
    k = 0
    for init, manifest, attr in itertools.product(range(len(INIT)), range(len(MANIFEST)), range(len(ATTRIBUTES))):
        k += 1
        if tier == 'quick' and (init + manifest + attr) % 3:
            continue
        yield init, manifest, attr, FILES[k % 2], STYLES[k % 3], PREFIX[k // 2 % 3], EDITS[k % len(EDITS)]
    for file, style, prefix, edit in itertools.product(FILES, STYLES, PREFIX, EDITS):
        yield 3, 3, 3, file, style, prefix, edit
        yield 0, 0, 0, file, style, prefix, edit


def jobs(tier):
    return split('install', 32, tier=tier) + split('broken', 4, tier=tier) + split('script', 8, tier=tier)


def scripts(tier):
    for settings in (True, False):
        for n, calls in enumerate(itertools.product((0, 1), repeat=3)):
            for old in range(len(OLD)):
                for layout in range(3) if tier != 'quick' or all(calls) else (n % 3,):
                    yield settings, calls, old, layout


def run_job(job, ctx):
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='gcsmc-git-'))
    try:
        if not os.path.exists(os.path.join(core.REPO, 'versioneer.py')):
            return
        for n, args in enumerate(part({'install': space, 'broken': lambda tier: itertools.product(BROKEN, MANIFEST, INIT[:4]), 'script': scripts}[job['leg']](job['tier']), job)):
            home = os.path.join(scratch, str(n))
            os.mkdir(home)
            {'install': install, 'broken': broken, 'script': script}[job['leg']](ctx, home, *args)
            shutil.rmtree(home)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def filled(text, file):
    return text.replace('%s', file) if text is not None else None


def write(root, name, text):
    if text is not None:
        os.makedirs(os.path.dirname(os.path.join(root, name)), exist_ok=True)
        with open(os.path.join(root, name), 'w', newline='') as f:
            f.write(text)


def content(root, name):
    try:
        with open(os.path.join(root, name), newline='') as f:
            return f.read()
    except FileNotFoundError:
        return None


def setup(env, root):
    with gitrepo.Within(env, cwd=root), Quiet():
        return gitrepo.load(os.path.join(root, 'versioneer.py'), 'versioneer')['do_setup']()


class Project(gitrepo.Repo):
    """a repository with files of its own"""

    def __init__(self, root, files):
        self.root = root
        self.env = gitrepo.env(os.path.dirname(root))
        self.n = 0
        self.shas, self.dates = [], []
        self.abbrev = 7
        os.makedirs(root)
        shutil.copy(os.path.join(core.REPO, 'versioneer.py'), root)
        files = dict({'base.txt': '0\n', 'setup.py': 'import versioneer\nversioneer.get_version()\nversioneer.get_cmdclass()\n'}, **files)
        for name, text in files.items():
            write(root, name, text)
        self.git('init', '-q', '--template=', '-b', 'main')
        self.git('add', '--', *[k for k, v in files.items() if v is not None])
        self.state = gitrepo.initial(0)


def everything(root):
    out = {}
    for where, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d not in ('.git', '__pycache__')]
        for f in files:
            name = os.path.relpath(os.path.join(where, f), root)
            out[name] = content(root, name)
    return out


def lines_kept(ctx, old, new, name):
    """the lines of the old text are there, in order, before the new ones"""
    if not old:
        return
    a, b = old.splitlines(), (new or '').splitlines()
    ctx.check(b[:len(a)] == a, '%s was %r and is %r', name, old, new)


def includes(text):
    out = []
    for line in text.splitlines():
        if line.startswith('include '):
            out += line.split()[1:]
    return out


def install(ctx, home, init, manifest, attr, file, style, prefix, edit):
    ipy = os.path.join(os.path.dirname(file), '__init__.py')
    files = {'MANIFEST.in': filled(MANIFEST[manifest], file), '.gitattributes': filled(ATTRIBUTES[attr], file), ipy: INIT[init],
             'setup.cfg': '[versioneer]\nVCS = git\nstyle = %s\nversionfile_source = %s\ntag_prefix = %s\n' % (style, file, prefix),
             os.path.join(os.path.dirname(file), 'other.py'): '\n'}
    what = 'project with the files %r' % {k: v for k, v in files.items() if v is not None}
    ctx.case(what, 'versioneer.py setup')
    p = Project(os.path.join(home, 'project'), files)
    ctx.state((init, manifest, attr, file, style, prefix, edit))
    judge(ctx, p, files, file, ipy, style, prefix, setup(p.env, p.root))
    ctx.case(what, 'versioneer.py setup, twice')
    before = everything(p.root)
    rc = setup(p.env, p.root)
    same_files(ctx, before, everything(p.root))
    ctx.same(rc, 0, 'result')
    # what was installed tells the version
    ctx.case(what, 'versioneer.py setup, git commit')
    p.git('add', 'setup.py', 'setup.cfg', 'base.txt')
    p.commit('commit', '-q', '-m', 'start')
    here = runtime(p, file)
    ctx.same((here['full-revisionid'], here['dirty'], here['error']), (p.shas[0], False, None), 'version %r', here)
    p.git('tag', prefix + '1.5')
    here = runtime(p, file)
    want = {'pep440': '1.5', 'git-describe-long': '1.5-0-g' + p.shas[0][:7], 'pep440-post': '1.5'}[style]
    ctx.same(here['version'], want, 'version of the tagged commit')
    where = os.path.join(home, 'unpacked')
    p.archive(where)
    with gitrepo.Within(p.env):
        v = gitrepo.load(os.path.join(where, file))['get_versions']()
    if prefix:
        ctx.same(v['version'], '1.5', 'version of the archive of the tagged commit')
    ctx.same(v['full-revisionid'], p.shas[0], 'revision of the archive')
    if edit:
        again(ctx, what, p, file, ipy, style, prefix, edit)
    ctx.transitions += 6
    ctx.traces += 1
    ctx.outcome((init, manifest, attr))


def again(ctx, what, p, file, ipy, style, prefix, edit):
    name = {'init': ipy, 'version': file}.get(edit, edit)
    ctx.case(what, 'versioneer.py setup, change of %s, versioneer.py setup' % name)
    before = everything(p.root)
    if before.get(name) is None:
        return
    text = {'MANIFEST.in': 'include NEW', '.gitattributes': '*.new text', 'init': 'z = 3', 'version': '# broken\n', 'setup.cfg': None}[edit]
    if edit == 'setup.cfg':
        style = 'git-describe'
        text = '[versioneer]\nVCS = git\nstyle = git-describe\nversionfile_source = %s\ntag_prefix = %s\n' % (file, prefix)
    elif edit == 'init':
        text = before[name] + text
    write(p.root, name, text)
    files = everything(p.root)
    judge(ctx, p, files, file, ipy, style, prefix, setup(p.env, p.root))
    if edit == 'init':
        ctx.same(content(p.root, name), text, name)
    if edit == 'version':
        ctx.same(content(p.root, name), before[name], name)
    if edit == 'setup.cfg':
        ctx.same(runtime(p, file)['version'], '1.5-dirty', 'version in the new style')


def runtime(p, file):
    with gitrepo.Within(p.env, cwd='/'):
        return gitrepo.load(os.path.join(p.root, file))['get_versions']()


def same_files(ctx, old, new):
    for name in sorted(set(old) | set(new)):
        ctx.same(new.get(name), old.get(name), '%s changed', name)


def judge(ctx, p, files, file, ipy, style, prefix, rc):
    root = p.root
    ctx.same(rc, 0, 'result')
    ctx.same(content(root, 'setup.cfg'), files['setup.cfg'], 'setup.cfg')
    # the version file
    v = gitrepo.load(os.path.join(root, file))
    cfg = v['get_config']()
    ctx.same((cfg.style, cfg.tag_prefix, cfg.versionfile_source), (style, prefix, file), 'settings in the version file')
    # the package
    old, new = files.get(ipy), content(root, ipy)
    if old is None:
        ctx.same(new, None, '%s', ipy)
    elif SNIPPET in old:
        ctx.same(new, old, '%s', ipy)
    else:
        lines_kept(ctx, old, new, ipy)
        ctx.check(new.count('from ._version import get_versions') == 1, '%s is %r', ipy, new)
        compile(new, ipy, 'exec')
    # what the source distribution includes
    old, new = files.get('MANIFEST.in'), content(root, 'MANIFEST.in')
    lines_kept(ctx, old, new, 'MANIFEST.in')
    inc = includes(new)
    for name in ('versioneer.py', file):
        ctx.check(inc.count(name) == 1, '%s is %d times in MANIFEST.in: %r', name, inc.count(name), new)
    if old and len(set(includes(old)) & {'versioneer.py', file}) == 2:
        ctx.same(new, old, 'MANIFEST.in')
    # the attribute for archives
    old, new = files.get('.gitattributes'), content(root, '.gitattributes')
    lines_kept(ctx, old, new, '.gitattributes')
    out = p.git('check-attr', 'export-subst', '--', file)
    ctx.check(out.endswith(': set'), 'attributes of %s: %s, with .gitattributes %r', file, out, new)
    if old and any(line.split()[:1] == [file] and 'export-subst' in line.split() for line in old.splitlines()):
        ctx.same(new, old, '.gitattributes')
    # other files
    ours = {file, ipy, 'MANIFEST.in', '.gitattributes'}
    now = everything(root)
    for name in set(now) | set(files):
        if name not in ours and name in files and files[name] is not None:
            ctx.same(now.get(name), files[name], '%s', name)
    ctx.check(set(now) <= {k for k in files if files[k] is not None} | {'versioneer.py', 'setup.py', 'base.txt'} | {file, 'MANIFEST.in', '.gitattributes'}, 'files %r', sorted(now))
    staged = set(p.git('ls-files').splitlines())
    need = {file, 'MANIFEST.in', 'versioneer.py', '.gitattributes'}
    ctx.check(need <= staged, 'files that git does not have: %r', sorted(need - staged))
    out = p.git('diff', '--name-only').split()
    ctx.check(set(out) <= {'setup.cfg'}, 'files that git has otherwise: %r', out)
    ctx.transitions += 1


def broken(ctx, home, cfg, manifest, init):
    files = {'MANIFEST.in': filled(manifest, 'pkg/_version.py'), 'pkg/__init__.py': init, 'setup.cfg': cfg}
    what = 'project with the files %r' % {k: v for k, v in files.items() if v is not None}
    ctx.case(what, 'versioneer.py setup')
    p = Project(os.path.join(home, 'project'), files)
    before = everything(p.root)
    ctx.state((cfg, manifest, init))
    for k in (1, 2):
        ctx.case(what, 'versioneer.py setup, run %d' % k)
        rc = setup(p.env, p.root)
        ctx.check(rc, 'setup.cfg has no settings, and no error is told')
        now = everything(p.root)
        lines_kept(ctx, cfg, now.get('setup.cfg'), 'setup.cfg')
        if k == 1:
            added = now.get('setup.cfg')
        else:
            ctx.same(now.get('setup.cfg'), added, 'setup.cfg after the second run')
        ctx.check('[versioneer]' in (added or '').splitlines(), 'no settings to fill in: %r', added)
        ctx.check((added or '').splitlines().count('[versioneer]') == 1, 'setup.cfg is %r', added)
        for d in (now, before):
            d.pop('setup.cfg', None)
        same_files(ctx, before, now)
        ctx.transitions += 1
    ctx.traces += 1


def script(ctx, home, settings, calls, old, layout):
    """run as a program, with every setup.py"""
    lines = ['# -*- coding: ascii -*-\n'] + [line for line, there in zip(CALLS, calls) if there]
    lines[layout + 1:layout + 1] = [OLD[old]]
    if layout == 2:
        lines = ['try:\n'] + ['    %s' % line for line in lines] + ['finally: pass']
    files = {'setup.py': ''.join(lines), 'pkg/__init__.py': 'x = 1\n',
             'setup.cfg': '[versioneer]\nVCS = git\nstyle = pep440\nversionfile_source = pkg/_version.py\ntag_prefix = v\n' if settings else '[x]\n'}
    ctx.case('project with the files %r' % files, 'python versioneer.py setup')
    ctx.state((settings, calls, old, layout))
    good = settings and all(calls) and not old
    p, twin = Project(os.path.join(home, 'a', 'project'), files), Project(os.path.join(home, 'b', 'project'), files)
    for k in (1, 2):
        r = subprocess.run([sys.executable, '-B', '-W', 'ignore', 'versioneer.py', 'setup'], cwd=p.root, env=p.env, stdin=subprocess.DEVNULL,
                           capture_output=True, text=True, timeout=300)
        setup(twin.env, twin.root)
        ctx.check(r.returncode == (0 if good else 1) and 'Traceback' not in r.stderr, 'run %d ends with status %d, and prints %r', k, r.returncode, r.stdout + r.stderr)
        same_files(ctx, everything(twin.root), everything(p.root))
        ctx.transitions += 1
    ctx.traces += 1
