"""Versions from archives, every rendering style, and what is said when there is nothing to say it from."""
import itertools
import os
import shutil
import stat
import tempfile
from .. import core, gitrepo
from ..impl import part, split

PROPERTY = 'C21'
BOUND = ('the run-time version module, the installer and the module that the installer generates: every subset and order of up to 3 of 9 ref names '
         'in archive keywords (thorough 4); every tag, distance and dirty state in every rendering style; a git command that is missing, '
         'cannot be run, or fails at its k-th call for every k in every way, in every history of up to 2 operations (thorough 3); trees '
         'without repository, in directories with and without the name prefix, with one without commits; a written version file, read again')
ASSUMPTIONS = ['branch names have no digits']

REFS = ['HEAD', 'HEAD -> main', 'main', 'origin/main', 'tag: v1.0', 'tag: v0.2rc1', 'tag: rel-1', 'tag: 1.0', 'tag: v2.0+x']
SHA = '0123456789abcdef0123456789abcdef01234567'
UNKNOWN = '0+unknown'


def jobs(tier):
    return (split('keywords', 8, tier=tier) + split('render', 8, tier=tier) + split('faults', 32, tier=tier) +
            split('file', 4, tier=tier) + split('parent', 1, tier=tier) + split('unpacked', 4, tier=tier) + split('nothing', 1, tier=tier))


def tree(where):
    """a copy of the files that make up the version machinery"""
    os.makedirs(os.path.join(where, 'gcs'))
    for f in gitrepo.FILES:
        src = os.path.join(core.REPO, f)
        if os.path.exists(src):
            shutil.copy(src, os.path.join(where, f))
    return where


def namespaces(where):
    """(name, module) of the three forms that the machinery has"""
    out = [('run-time module', gitrepo.load(os.path.join(where, 'gcs', '_version.py')))]
    if os.path.exists(os.path.join(where, 'versioneer.py')):
        out.append(('installer', gitrepo.load(os.path.join(where, 'versioneer.py'), 'versioneer')))
        try:
            text = gitrepo.template(where)
        except KeyError:
            return out
        os.makedirs(os.path.join(where, 'generated', 'gcs'))
        p = os.path.join(where, 'generated', 'gcs', '_version.py')
        with open(p, 'w') as f:
            f.write(text)
        out.append(('generated module', gitrepo.load(p)))
    return out


def run_job(job, ctx):
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='gcsmc-git-'))
    try:
        globals()['leg_' + job['leg']](ctx, job, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ archive keywords

def leg_keywords(ctx, job, scratch):
    where = tree(os.path.join(scratch, 'project'))
    mods = namespaces(where)
    most = 3 if job['tier'] == 'quick' else 4
    names = itertools.chain.from_iterable(itertools.permutations(REFS, k) for k in range(0, most + 1))
    source = open(os.path.join(where, 'gcs', '_version.py')).read()
    for n, refs in enumerate(part(names, job)):
        text = ' (%s)' % ', '.join(refs) if refs else ''
        tags = sorted(r[5:] for r in refs if r.startswith('tag: v'))
        date = '2020-02-03 04:05:06 -0330'
        ctx.case('archive with refnames %r' % text)
        ctx.state(text)
        results = []
        for name, m in mods:
            f = m.get('git_versions_from_keywords')
            if f:
                v = f({'refnames': text, 'full': SHA + ' ', 'date': date}, 'v', False)
                verdict(ctx, name, v, tags)
                results.append(v)
                ctx.same(v, results[0], '%s and %s differ', name, mods[0][0])
            g = m.get('git_get_keywords')
            if g and n % 8 == 0:
                # what the installer reads from the file of the archive
                p = os.path.join(scratch, 'expanded.py')
                with open(p, 'w') as fp:
                    fp.write(source.replace('$Format:%d$', text).replace('$Format:%H$', SHA).replace('$Format:%ci$', date))
                k = g(p)
                ctx.same(k, {'refnames': text, 'full': SHA, 'date': date}, '%s: keywords read from the file', name)
                ctx.same(gitrepo.load(p)['get_keywords'](), k, 'keywords of the module')
                v = gitrepo.load(p)['get_versions']()
                verdict(ctx, 'module of the archive', v, tags)
            ctx.transitions += 1
        ctx.outcome(tuple(r['version'] for r in results[:1]))
        ctx.traces += 1


def verdict(ctx, name, v, tags):
    ctx.same(v['full-revisionid'], SHA, '%s: full revision', name)
    ctx.same(v['dirty'], False, '%s: dirty', name)
    if tags:
        ctx.check(v['version'] in [t[1:] for t in tags], '%s: version %r, tags %r', name, v['version'], tags)
        ctx.same(v['error'], None, '%s: error', name)
        ctx.same(v['date'], '2020-02-03T04:05:06-0330', '%s: date', name)
        if 'v1.0' in tags and 'v0.2rc1' not in tags and 'v2.0+x' not in tags:
            ctx.same(v['version'], '1.0', '%s', name)
    else:
        ctx.same(v['version'], UNKNOWN, '%s: no version tag', name)
        ctx.check(v['error'], '%s: no version tag, and no error is told', name)


# ------------------------------------------------------------------ styles

def spelled(style, tag, dist, short, dirty):
    """from the documentation of the styles"""
    plus = '.' if tag and '+' in tag else '+'
    changed = dist or dirty
    if style in ('pep440', '', None, 'default'):
        if not tag:
            return '0+untagged.%d.g%s' % (dist, short) + ('.dirty' if dirty else '')
        return tag + ('%s%d.g%s' % (plus, dist, short) + ('.dirty' if dirty else '') if changed else '')
    if style == 'pep440-pre':
        return '0.post.dev%d' % dist if not tag else tag + ('.post.dev%d' % dist if dist else '')
    if style == 'pep440-post':
        if not tag:
            return '0.post%d' % dist + ('.dev0' if dirty else '') + '+g' + short
        return tag + ('.post%d' % dist + ('.dev0' if dirty else '') + plus + 'g' + short if changed else '')
    if style == 'pep440-old':
        if not tag:
            return '0.post%d' % dist + ('.dev0' if dirty else '')
        return tag + ('.post%d' % dist + ('.dev0' if dirty else '') if changed else '')
    if style == 'git-describe':
        return (short if not tag else tag + ('-%d-g%s' % (dist, short) if dist else '')) + ('-dirty' if dirty else '')
    if style == 'git-describe-long':
        return (short if not tag else tag + '-%d-g%s' % (dist, short)) + ('-dirty' if dirty else '')
    raise AssertionError(style)


def leg_render(ctx, job, scratch):
    mods = namespaces(tree(os.path.join(scratch, 'project')))
    space = itertools.product(['pep440', '', None, 'default', 'pep440-pre', 'pep440-post', 'pep440-old', 'git-describe', 'git-describe-long'],
                              [None, '1.0', '0.1+x', '2.0rc1', '1.0-2', '0'], [0, 1, 2, 12, 100], [False, True], [7, 12, 40])
    for style, tag, dist, dirty, n in part(space, job):
        if tag is None and dist == 0:
            continue
        pieces = {'long': SHA, 'short': SHA[:n], 'error': None, 'dirty': dirty, 'closest-tag': tag, 'distance': dist, 'date': '2020-02-03T04:05:06-0330'}
        ctx.case('render(%r, %r)' % (pieces, style))
        ctx.state((style, tag, dist, dirty, n))
        want = {'version': spelled(style, tag, dist, SHA[:n], dirty), 'full-revisionid': SHA, 'dirty': dirty, 'error': None,
                'date': '2020-02-03T04:05:06-0330'}
        ctx.outcome(want['version'])
        for name, m in mods:
            if 'render' in m:
                p = dict(pieces)
                ctx.same(m['render'](p, style), want, '%s', name)
                ctx.same(p, pieces, '%s changed its argument', name)
                ctx.transitions += 1
                bad = m['render'](dict(pieces, error='no'), style)
                ctx.same((bad['error'], bad['full-revisionid'], bad['version']), ('no', SHA, 'unknown'), '%s, with an error', name)
        ctx.traces += 1


# ------------------------------------------------------------------ git that fails

FAKE = '''#!/bin/sh
n=$(cat %(count)s)
n=$((n+1))
echo $n > %(count)s
if [ $n = %(at)d ]; then
%(how)s
fi
exec %(git)s "$@"
'''
WAYS = {'exit 1': 'exit 1', 'exit 128 with a message': 'echo fatal: broken >&2; exit 128', 'output, then exit 1': 'echo 12; exit 1',
        'killed': 'kill -9 $$'}


def fault_space(tier):
    yield None, ()
    for path, s in gitrepo.search(2 if tier == 'quick' else 3, 0):
        yield s, path


def leg_faults(ctx, job, scratch):
    git = shutil.which('git')
    for n, (s, path) in enumerate(part(fault_space(job['tier']), job)):
        home = os.path.join(scratch, str(n))
        os.mkdir(home)
        repo = gitrepo.Repo(os.path.join(home, 'project'), 0, born=s is not None)
        repo.replay(path)
        root = repo.root
        what = 'git history: %s' % ', '.join(('first commit',) + path) if s is not None else 'repository without commits'
        ctx.case(what)
        ask = [('run-time module', os.path.join(root, 'gcs', '_version.py'), 'gcs._version', '/')]
        if os.path.exists(os.path.join(root, 'versioneer.py')):
            ask.append(('installer', os.path.join(root, 'versioneer.py'), 'versioneer', root))
        for name, file, modname, cwd in ask:
            with gitrepo.Within(repo.env, cwd=cwd):
                good = gitrepo.load(file, modname)['get_versions']()
            ctx.state((what, name))
            if s is None:
                unknown(ctx, good, what + ', ' + name)
                continue
            ctx.same((good['full-revisionid'], good['error']), (repo.shas[repo.state.head], None), '%s', name)
            bin_ = os.path.join(home, 'bin')
            os.makedirs(bin_, exist_ok=True)
            for way, how in WAYS.items():
                at = 0
                while True:
                    at += 1
                    count = os.path.join(home, 'count')
                    with open(count, 'w') as f:
                        f.write('0')
                    with open(os.path.join(bin_, 'git'), 'w') as f:
                        f.write(FAKE % dict(count=count, at=at, how=how, git=git))
                    os.chmod(os.path.join(bin_, 'git'), 0o755)
                    ctx.case(what, '%s, call %d of git fails: %s' % (name, at, way))
                    with gitrepo.Within(repo.env, cwd=cwd, path=bin_ + ':' + repo.env.get('PATH', '/usr/bin:/bin')), Quiet():
                        v = gitrepo.load(file, modname)['get_versions']()
                    ctx.transitions += 1
                    ctx.traces += 1
                    calls = int(open(count).read())
                    ctx.outcome((calls, v['version'] == UNKNOWN))
                    if calls < at:
                        ctx.same(v, good, 'no call fails')
                        break
                    ctx.check(isinstance(v, dict) and 'version' in v, 'not a version: %r', v)
                    if not (v['version'] == UNKNOWN and v['error']):
                        # another way to the answer, then the answer must be right
                        ctx.same(v, good, 'a git command failed, and the version is')
                    if at > 20:
                        ctx.fail('git is called again and again')
            for kind in ('missing', 'not executable', 'a directory', 'not a program'):
                shutil.rmtree(bin_)
                os.makedirs(bin_)
                g = os.path.join(bin_, 'git')
                if kind == 'a directory':
                    os.mkdir(g)
                elif kind != 'missing':
                    with open(g, 'w') as f:
                        f.write('\n' if kind == 'not a program' else '#!/bin/sh\n')
                    os.chmod(g, 0o755 if kind == 'not a program' else 0o644)
                ctx.case(what, '%s, git is %s' % (name, kind))
                with gitrepo.Within(repo.env, cwd=cwd, path=bin_):
                    unknown(ctx, gitrepo.load(file, modname)['get_versions'](), name)
                ctx.transitions += 1
        shutil.rmtree(home)


class Quiet:
    """the standard error of programs that run"""

    def __enter__(self):
        self.fd = os.dup(2)
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 2)
        os.close(n)

    def __exit__(self, *exc):
        os.dup2(self.fd, 2)
        os.close(self.fd)


def unknown(ctx, v, what):
    ctx.same((v['version'], v['full-revisionid']), (UNKNOWN, None), '%s: version', what)
    ctx.check(v['error'], '%s: no error is told', what)


# ------------------------------------------------------------------ nothing to tell the version from

def leg_nothing(ctx, job, scratch):
    e = gitrepo.env(scratch)
    where = tree(os.path.join(scratch, 'v1.2', 'project'))
    for name, m in namespaces(where):
        ctx.case('no repository, %s' % name)
        with gitrepo.Within(e, cwd=where):
            if m.get('get_versions'):
                unknown(ctx, m['get_versions'](), name)
        ctx.state(name)
        ctx.transitions += 1
        if 'run_command' in m:
            for cmds, args, want in [(['no-such-program'], ['x'], None), (['no-such-program', 'echo'], ['x'], 'x'), (['sh'], ['-c', 'exit 3'], None),
                                     (['sh'], ['-c', 'echo "  two words  "'], 'two words'), (['pwd'], [], '/')]:
                ctx.case('%s: run_command(%r, %r)' % (name, cmds, args))
                with gitrepo.Within(e):
                    out, rc = m['run_command'](cmds, args, cwd='/')
                ctx.same(out, want, 'output')
                ctx.check((rc == 0) == (want is not None), 'return code %r', rc)
                ctx.transitions += 1
        ctx.traces += 1


def leg_parent(ctx, job, scratch):
    """the version from the name of an unpacked directory"""
    for name, m in namespaces(tree(os.path.join(scratch, 'project'))):
        f = m.get('versions_from_parentdir')
        if not f:
            continue
        for depth, prefix in itertools.product(range(4), ('gcs-', 'x')):
            root = '/'.join(['/top', prefix + '1.2'] + ['sub%d' % k for k in range(depth)])
            ctx.case('%s: versions_from_parentdir(%r, %r)' % (name, prefix, root))
            ctx.state((name, depth, prefix))
            ctx.transitions += 1
            try:
                v = f(prefix, root, False)
            except m['NotThisMethod']:
                v = None
            if depth < 3:
                ctx.same(v, {'version': '1.2', 'full-revisionid': None, 'dirty': False, 'error': None, 'date': None}, 'version')
            else:
                ctx.same(v, None, 'version')
            ctx.traces += 1


def leg_unpacked(ctx, job, scratch):
    """the same from get_versions, in trees without a repository"""
    e = gitrepo.env(scratch)
    names = ('p', 'gcs-1.2', 'gcs-', 'xgcs-3')
    for n, (path, prefix) in enumerate(part(itertools.product(itertools.product(names, repeat=4), ('', 'gcs-', 'g')), job)):
        where = tree(os.path.join(scratch, str(n), *path))
        e = gitrepo.env(os.path.join(scratch, str(n)))
        with open(os.path.join(where, 'setup.cfg'), 'w') as f:
            f.write('[versioneer]\nVCS = git\nstyle = pep440\nversionfile_source = gcs/_version.py\nversionfile_build = gcs/_version.py\ntag_prefix = v\nparentdir_prefix = %s\n' % prefix)
        mods = []
        file = os.path.join(where, 'gcs', '_version.py')
        m = gitrepo.load(file)
        if m.get('get_config'):
            plain = m['get_config']

            def get_config():
                c = plain()
                c.parentdir_prefix = prefix
                return c
            m['get_config'] = get_config
            mods.append(('run-time module', m))
        if os.path.exists(os.path.join(where, 'versioneer.py')):
            mods.append(('installer', gitrepo.load(os.path.join(where, 'versioneer.py'), 'versioneer')))
            try:
                text = gitrepo.template(where, prefix)
            except KeyError:
                text = None
            if text:
                with open(file, 'w') as f:
                    f.write(text)
                mods.append(('generated module', gitrepo.load(file)))
        want = next((d[len(prefix):] for d in path[::-1][:3] if prefix and d.startswith(prefix)), None)
        for name, m in mods:
            ctx.case('%s, no repository, the tree is in %r, parentdir_prefix = %r' % (name, '/'.join(path), prefix))
            with gitrepo.Within(e, cwd=where), Quiet():
                v = m['get_versions']()
            if want is None:
                unknown(ctx, v, name)
            else:
                ctx.same(v, {'version': want, 'full-revisionid': None, 'dirty': False, 'error': None, 'date': None}, 'version')
            ctx.transitions += 1
        ctx.state((path, prefix))
        ctx.traces += 1
        shutil.rmtree(os.path.join(scratch, str(n)))


# ------------------------------------------------------------------ the version file of a distribution

def leg_file(ctx, job, scratch):
    where = tree(os.path.join(scratch, 'project'))
    if not os.path.exists(os.path.join(where, 'versioneer.py')):
        return
    m = gitrepo.load(os.path.join(where, 'versioneer.py'), 'versioneer')
    file = os.path.join(where, 'gcs', '_version.py')
    space = itertools.product(['1.0', '1.0+2.gabc.dirty', '0+untagged.1.g0123456', "it's", '\u00e9', '0+unknown'], [SHA, None], [True, False, None],
                              [None, 'no suitable tags', "git said ''no''"], [None, '2020-02-03T04:05:06-0330'])
    e = gitrepo.env(scratch)
    for version, sha, dirty, error, date in part(space, job):
        v = {'version': version, 'full-revisionid': sha, 'dirty': dirty, 'error': error, 'date': date}
        ctx.case('version file with %r' % v)
        ctx.state(tuple(v.values()))
        m['write_to_version_file'](file, v)
        ctx.same(m['versions_from_file'](file), v, 'read from the version file')
        ctx.same(gitrepo.load(file)['get_versions'](), v, 'from the module that was written')
        with gitrepo.Within(e, cwd=where):
            ctx.same(m['get_versions'](), v, 'installer')
        ctx.transitions += 3
        ctx.traces += 1
