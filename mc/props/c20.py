"""The version tells which commit of which history is running."""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from .. import core, gitrepo
from ..impl import part, split

PROPERTY = 'C20'
BOUND = ('every history of up to 4 operations (thorough 5) after the first commit, and of 2 more (thorough 3) after seven histories that have diverged: commit, lightweight and annotated version tags, other tags, changed, '
         'staged and removed files, untracked files, branches, switches, merges, detached checkouts; each one replayed on a real git '
         'repository, and the version asked for from the checkout (run-time module, installer, generated module) and from its git archive; for every fifth history '
         'also through symbolic links to the package and to the sources, by setup.py in another directory, from a linked working tree and from a clone')
ASSUMPTIONS = ['the installed git and tar behave as they do', 'branch names have no digits']

PEP440 = re.compile(r'^([1-9][0-9]*!)?(0|[1-9][0-9]*)(\.(0|[1-9][0-9]*))*((a|b|rc)(0|[1-9][0-9]*))?(\.post(0|[1-9][0-9]*))?'
                    r'(\.dev(0|[1-9][0-9]*))?(\+[a-z0-9]+(\.[a-z0-9]+)*)?$')


DIVERGED = [('tag', 'branch', 'commit', 'switch-main', 'commit'), ('branch', 'commit', 'atag', 'switch-main', 'commit'),
            ('branch', 'commit', 'tag', 'commit', 'switch-main', 'commit', 'atag'), ('branch', 'commit', 'switch-main', 'commit', 'merge-side'),
            ('atag', 'commit', 'tag', 'commit', 'commit', 'back'),
            # the closest tag is not the one that was made last, or not on the first parent
            ('branch', 'commit', 'commit', 'tag', 'switch-main', 'commit', 'atag', 'merge-side'),
            ('branch', 'commit', 'tag', 'switch-main', 'commit', 'commit', 'atag', 'switch-side', 'merge-main')]


def space(tier):
    deep = 4 if tier == 'quick' else 5
    for rot in range(len(gitrepo.NAMES)):
        for path, s in gitrepo.search(deep if rot == 0 or tier != 'quick' else deep - 1, rot):
            yield rot, path
    # histories that have diverged already
    for k, start in enumerate(DIVERGED):
        for path, s in gitrepo.search(2 if tier == 'quick' else 3, k % len(gitrepo.NAMES), start):
            yield k % len(gitrepo.NAMES), path


def jobs(tier):
    k = 64 if tier == 'quick' else 512
    return split('histories', k, tier=tier)


def run_job(job, ctx):
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='gcsmc-git-'))
    versions = {}
    try:
        for n, (rot, path) in enumerate(part(space(job['tier']), job)):
            home = os.path.join(scratch, str(n))
            os.mkdir(home)
            history(ctx, home, rot, path, versions, n)
            shutil.rmtree(home)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def history(ctx, home, rot, path, versions, n):
    repo = gitrepo.Repo(os.path.join(home, 'project'), rot)
    repo.replay(path)
    s = repo.state
    ctx.case('git history: first commit, %s' % ', '.join(path), 'version tags %r' % (gitrepo.NAMES[rot],))
    ctx.state((rot, s.key()))
    ctx.traces += 1
    ctx.transitions += len(path) + 1
    root = repo.root
    with gitrepo.Within(repo.env, cwd='/' if n % 2 else os.path.join(root, 'gcs')):
        v = gitrepo.load(os.path.join(root, 'gcs', '_version.py'))['get_versions']()
    expect(ctx, v, s, repo)
    ctx.outcome((v['version'].split('g')[0], v['dirty']))
    # the installer, which is run from the top of the tree
    if os.path.exists(os.path.join(root, 'versioneer.py')):
        with gitrepo.Within(repo.env, cwd=root):
            ns = gitrepo.load(os.path.join(root, 'versioneer.py'), 'versioneer')
            ctx.same(ns['get_versions'](), v, 'version that the installer computes')
            ctx.same(ns['get_version'](), v['version'], 'version that the installer computes')
        ctx.transitions += 1
    if n % 4 == 0:
        # a package that is imported
        out = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path.insert(0, sys.argv[1]); import gcs; print(gcs.__version__)', root],
                             env=dict(repo.env, PYTHONWARNINGS='ignore'), cwd='/', stdout=subprocess.PIPE).stdout.decode().strip()
        ctx.same(out, v['version'], 'gcs.__version__')
        ctx.transitions += 1
    # what the archive of the commit says
    where = os.path.join(home, 'unpacked')
    repo.archive(where)
    with gitrepo.Within(repo.env):
        a = gitrepo.load(os.path.join(where, 'gcs', '_version.py'))['get_versions']()
    here = s.tags_here()
    ctx.check(set(a) >= {'version', 'full-revisionid', 'dirty', 'error', 'date'}, 'archive: %r', a)
    ctx.same(a['full-revisionid'], repo.shas[s.head], 'archive: full revision')
    ctx.same(a['dirty'], False, 'archive: dirty')
    if here:
        ctx.check(a['version'] in {t[1:] for t in here}, 'archive: version %r, tags of the commit %r', a['version'], sorted(here))
        ctx.same(a['error'], None, 'archive: error')
        ctx.same(a['date'], repo.dates[s.head], 'archive: date')
    else:
        ctx.same(a['version'], '0+unknown', 'archive of a commit without version tag')
        ctx.check(a['error'], 'archive of a commit without version tag: no error is told')
    if os.path.exists(os.path.join(where, 'versioneer.py')):
        with gitrepo.Within(repo.env, cwd=where):
            ns = gitrepo.load(os.path.join(where, 'versioneer.py'), 'versioneer')
            ctx.same(ns['get_versions'](), a, 'archive: version that the installer computes')
    ctx.transitions += 2
    if n % 5 == 0:
        elsewhere(ctx, home, repo, v, s)
    # different sources, different versions
    ident = (tuple(repo.shas[:1]), s.dirty(), v['full-revisionid'])
    if not s.dirty() and not here:
        old = versions.setdefault(v['version'], ident)
        ctx.same(old, ident, 'the same version %s for different commits', v['version'])


def elsewhere(ctx, home, repo, v, s):
    """The same sources by other ways: links to the package and to the
    sources, a linked working tree, a clone."""
    root = repo.root
    os.mkdir(os.path.join(home, 'site'))
    os.symlink(os.path.join(root, 'gcs'), os.path.join(home, 'site', 'gcs'))
    os.symlink(root, os.path.join(home, 'sources'))
    for way in ('site', 'sources'):
        with gitrepo.Within(repo.env):
            got = gitrepo.load(os.path.join(home, way, 'gcs', '_version.py'))['get_versions']()
        ctx.same(got, v, 'version of the package that is reached through the link %s', way)
    if os.path.exists(os.path.join(root, 'versioneer.py')):
        with gitrepo.Within(dict(repo.env, PWD=os.path.join(home, 'sources')), cwd=os.path.join(home, 'sources')):
            ns = gitrepo.load(os.path.join(home, 'sources', 'versioneer.py'), 'versioneer')
            ctx.same(ns['get_versions'](), v, 'version that the installer computes in a directory that is a link')
        # python path/to/setup.py
        argv = sys.argv
        for setup in (os.path.join(root, 'setup.py'), os.path.join('sources', 'setup.py')):
            with gitrepo.Within(repo.env, cwd=home):
                sys.argv = [setup]
                try:
                    got = gitrepo.load(os.path.join(root, 'versioneer.py'), 'versioneer')['get_versions']()
                finally:
                    sys.argv = argv
            ctx.same(got, v, 'version that the installer computes for %s in another directory', setup)
    # without the changes that are not committed
    fresh = s.but(tree='clean')
    for way, make in (('linked', ('worktree', 'add', '-q', '--detach')), ('cloned', ('clone', '-q', '-s', root))):
        place = os.path.join(home, way)
        repo.git(*make + (place,))
        if way == 'cloned':
            repo.git('-C', place, 'checkout', '-q', '--detach', repo.shas[s.head])
            repo.git('-C', place, 'config', 'core.abbrev', str(repo.abbrev))
        with gitrepo.Within(repo.env):
            got = gitrepo.load(os.path.join(place, 'gcs', '_version.py'))['get_versions']()
        expect(ctx, got, fresh, repo)
        if os.path.exists(os.path.join(place, 'versioneer.py')):
            with gitrepo.Within(repo.env, cwd=place):
                ns = gitrepo.load(os.path.join(place, 'versioneer.py'), 'versioneer')
                ctx.same(ns['get_versions'](), got, 'version that the installer computes')
        ctx.transitions += 2


def expect(ctx, v, s, repo):
    sha = repo.shas[s.head]
    ctx.check(isinstance(v, dict) and set(v) >= {'version', 'full-revisionid', 'dirty', 'error', 'date'}, 'not a version: %r', v)
    ctx.same(v['full-revisionid'], sha, 'full revision')
    ctx.same(v['error'], None, 'error')
    ctx.same(v['dirty'], s.dirty(), 'dirty')
    ctx.same(v['date'], repo.dates[s.head], 'date')
    tags, dist = s.candidates()
    got = v['version']
    tail = '.dirty' if s.dirty() else ''
    if tags is None:
        m = re.match(r'^0\+untagged\.(\d+)\.g([0-9a-f]{7,40})(\.dirty)?$', got)
        ctx.check(m and int(m.group(1)) == dist and sha.startswith(m.group(2)) and (m.group(3) or '') == tail,
                  'version %s, expected 0+untagged.%d.g%s%s', got, dist, sha[:7], tail)
    else:
        ok = False
        for t in tags:
            t = t[1:]
            if not dist and not s.dirty():
                ok = ok or got == t
                continue
            m = re.match('^' + re.escape(t + ('.' if '+' in t else '+')) + r'(\d+)\.g([0-9a-f]{7,40})(\.dirty)?$', got)
            ok = ok or bool(m and int(m.group(1)) == dist and m.group(2) == sha[:repo.abbrev] and (m.group(3) or '') == tail)
        ctx.check(ok, 'version %s, expected the tag %s, %d commits after it, revision %s%s', got, ' or '.join(sorted(tags)), dist, sha[:repo.abbrev], tail)
    if tags is None or all(PEP440.match(t[1:]) for t in tags):
        ctx.check(PEP440.match(got), 'not a PEP 440 version: %s', got)
