"""The version survives packaging: every chain of builds, source distributions, archives and copies of every history."""
import contextlib
import io
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
from .. import core, dist, gitrepo
from ..impl import part, split
from .c20 import expect
from .c21 import tree, UNKNOWN

PROPERTY = 'C32'
BOUND = ('every git history of up to 2 operations (thorough 3) and diverged ones, from each of them every chain of up to 3 (thorough 4) steps of build, source distribution (hard '
         'links, copies), frozen executables, git archive, each command also failing at its start and at its end, and copy of the tree; every sequence of 4 (thorough 5) of commit, tag, change, build and source distribution with the same '
         'target directories; distutils and setuptools are stand-ins, which are compared with the real ones where they are installed')
ASSUMPTIONS = ['the installed git and tar behave as they do', 'distutils and setuptools copy and link as the stand-in does']


def space(tier):
    deep = 2 if tier == 'quick' else 3
    for rot in range(len(gitrepo.NAMES)):
        for k, (path, s) in enumerate(gitrepo.search(deep if rot == 0 else deep - 1, rot)):
            yield rot, path
    yield 1, ('tag', 'commit', 'back')
    yield 0, ('branch', 'commit', 'atag', 'switch-main', 'commit', 'merge-side')


def jobs(tier):
    return split('chains', 32 if tier == 'quick' else 96, tier=tier) + split('again', 32 if tier == 'quick' else 128, tier=tier) + split('real', 4, tier=tier)


def run_job(job, ctx):
    scratch = os.path.realpath(tempfile.mkdtemp(prefix='gcsmc-git-'))
    try:
        globals()['leg_' + job['leg']](ctx, job, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def contents(root):
    """{file: bytes} of a tree, without what git keeps"""
    out = {}
    for where, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d not in ('.git', '__pycache__', 'build', 'dist')]
        for f in files:
            with open(os.path.join(where, f), 'rb') as fp:
                out[os.path.relpath(os.path.join(where, f), root)] = fp.read()
    return out


def runtime(env, root):
    with gitrepo.Within(env, cwd='/'):
        return gitrepo.load(os.path.join(root, 'gcs', '_version.py'))['get_versions']()


def command(env, root, name, with_setuptools=True, extra=(), **options):
    """run a command of the version machinery of the tree"""
    with gitrepo.Within(env, cwd=root), dist.Installed(dist.modules(with_setuptools, extra)):
        ns = gitrepo.load(os.path.join(root, 'versioneer.py'), 'versioneer')
        version = ns['get_version']()
        cmds = ns['get_cmdclass']()
        d = dist.Distribution(version)
        d.cmdclass = cmds
        c = cmds[name](d)
        for k, v in options.items():
            setattr(c, k, v)
        c.ensure_finalized()
        c.run()
        return c


def has_installer(root):
    return os.path.exists(os.path.join(root, 'versioneer.py'))


class Tree:
    def __init__(self, root, version, kind, history):
        self.root, self.version, self.kind, self.history = root, version, kind, history


def steps(ctx, env, repo, t, fresh, n):
    """every step from a tree: (name, new tree)"""
    before = contents(t.root)

    def after(name):
        now = contents(t.root)
        if now != before:
            bad = sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k))
            ctx.fail('%s changes the tree that it works on: %s' % (name, ', '.join(bad)))
        ctx.same(runtime(env, t.root), t.version, 'version of the tree after %s', name)
        ctx.transitions += 1

    if t.kind != 'built' and has_installer(t.root):
        for name, cls, options in (('build', 'build_py', {}), ('sdist with hard links', 'sdist', {'link': 'hard'}), ('sdist with copies', 'sdist', {'link': None})):
            where = fresh()
            ctx.case(*(t.history + (name,)))
            opts = dict(options, build_lib=where) if cls == 'build_py' else dict(options, dest=where)
            c = command(env, t.root, cls, with_setuptools=bool(n % 2), **opts)
            if cls == 'sdist':
                ctx.same(c.distribution.metadata.version, t.version['version'], 'version in the name of the source distribution')
                where = c.base
            after(name)
            yield name, Tree(where, t.version, 'built' if cls == 'build_py' else 'sdist', t.history + (name,))
        for extra, cls in (('cx_Freeze', 'build_exe'), ('py2exe', 'py2exe')):
            ctx.case(*(t.history + (cls,)))
            dist.build_exe.taken = None
            command(env, t.root, cls, with_setuptools=bool(n % 2), extra=(extra,))
            where = fresh()
            os.makedirs(os.path.join(where, 'gcs'))
            with open(os.path.join(where, 'gcs', '_version.py'), 'wb') as f:
                f.write(dist.build_exe.taken or b'')
            ctx.same(runtime(env, where), t.version, 'version of the frozen package')
            after(cls)
        failing(ctx, env, t, fresh, n, after)
    if t.kind == 'checkout':
        where = fresh()
        ctx.case(*(t.history + ('git archive',)))
        repo.archive(where)
        s = repo.state
        v = runtime(env, where)
        here = s.tags_here()
        if here:
            ctx.check(v['version'] in {x[1:] for x in here}, 'version %r of the archive, tags %r', v['version'], sorted(here))
        else:
            ctx.same(v['version'], UNKNOWN, 'version of the archive')
        ctx.same(v['full-revisionid'], repo.shas[s.head], 'revision of the archive')
        after('git archive')
        yield 'git archive', Tree(where, v, 'archive', t.history + ('git archive',))
    where = fresh()
    shutil.copytree(t.root, where, ignore=shutil.ignore_patterns('.git', 'build', 'dist', '__pycache__'))
    ctx.case(*(t.history + ('copy',)))
    if t.kind == 'checkout':
        v = runtime(env, where)
        ctx.same((v['version'], v['full-revisionid']), (UNKNOWN, None), 'version of a copy without history')
        ctx.check(v['error'], 'no error is told')
        after('copy')
        yield 'copy', Tree(where, v, 'lost', t.history + ('copy',))
    else:
        yield 'copy', Tree(where, t.version, t.kind, t.history + ('copy',))


class Stop(BaseException):
    """as KeyboardInterrupt"""


def failing(ctx, env, t, fresh, n, after):
    """the command that is extended fails, before or after it has done its work: the tree stays as it was"""
    kinds = (Stop, OSError, SystemExit)
    for j, (extra, cls) in enumerate((((), 'build_py'), ((), 'sdist'), (('cx_Freeze',), 'build_exe'), (('py2exe',), 'py2exe'))):
        for late in (False, True):
            kind = kinds[(n + j + late) % 3]
            base = {'build_py': dist.build_py, 'sdist': dist.sdist}.get(cls, dist.build_exe)
            ctx.case(*(t.history + ('%s, which fails %s' % (cls, 'at its end' if late else 'at once'),)))
            where = fresh()
            real = base.run

            def run(self):
                if late:
                    real(self)
                raise kind('failed')
            base.run = run
            try:
                command(env, t.root, cls, with_setuptools=bool(n % 2), extra=extra,
                        **{'build_py': dict(build_lib=where), 'sdist': dict(dest=where)}.get(cls, {}))
            except kind:
                pass
            else:
                ctx.fail('the failure is not told')
            finally:
                base.run = real
            after('%s that failed' % cls)


def examine(ctx, env, t, n):
    ctx.case(*t.history)
    ctx.same(runtime(env, t.root), t.version, 'version that the package tells')
    if t.kind != 'built' and has_installer(t.root):
        with gitrepo.Within(env, cwd=t.root):
            ns = gitrepo.load(os.path.join(t.root, 'versioneer.py'), 'versioneer')
            v = ns['get_versions']()
        if t.kind == 'lost':
            ctx.same((v['version'], v['full-revisionid'], bool(v['error'])), (UNKNOWN, None, True), 'version that the installer computes')
        else:
            ctx.same(v, t.version, 'version that the installer computes')
        # setup.py version
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            command(env, t.root, 'version', with_setuptools=bool(n % 2))
        said = out.getvalue().splitlines()
        for line in ['Version: %s' % v['version']] + [' %s: %s' % (k, v[k]) for k in ('full-revisionid', 'dirty', 'date')] + ([' error: %s' % v['error']] if v['error'] else []):
            ctx.check(line.strip() in map(str.strip, said), 'the version command does not print %r but %r', line.strip(), said)
        ctx.check(bool(v['error']) is any(line.strip().startswith('error:') for line in said), 'the version command prints %r', said)
    if n % 16 == 0 and os.path.exists(os.path.join(t.root, 'gcs', '__init__.py')):
        out = subprocess.run([sys.executable, '-B', '-c', 'import sys; sys.path.insert(0, sys.argv[1]); import gcs; print(gcs.__version__)', t.root],
                             env=dict(env, PYTHONWARNINGS='ignore'), cwd='/', stdout=subprocess.PIPE).stdout.decode().strip()
        ctx.same(out, t.version['version'], 'gcs.__version__')
    ctx.transitions += 2
    ctx.traces += 1
    ctx.state(t.history)
    ctx.outcome((t.kind, t.version['version'].split('g')[0]))


def leg_chains(ctx, job, scratch):
    most = 3 if job['tier'] == 'quick' else 4
    for n, (rot, path) in enumerate(part(space(job['tier']), job)):
        home = os.path.join(scratch, str(n))
        os.mkdir(home)
        repo = gitrepo.Repo(os.path.join(home, 'project'), rot)
        repo.replay(path)
        count = itertools.count()

        def fresh():
            return os.path.join(home, 'tree%d' % next(count))

        what = 'git history: first commit, %s; version tags %r' % (', '.join(path), gitrepo.NAMES[rot])
        v = runtime(repo.env, repo.root)
        ctx.case(what)
        expect(ctx, v, repo.state, repo)
        level = [Tree(repo.root, v, 'checkout', (what,))]
        k = n
        for depth in range(most + 1):
            new = []
            for t in level:
                examine(ctx, repo.env, t, k)
                k += 1
                if depth < most:
                    for name, u in steps(ctx, repo.env, repo, t, fresh, k):
                        # a build is not built again, copies of copies are copies
                        if not (len(t.history) > 1 and t.history[-1] == 'copy' and name == 'copy'):
                            new.append(u)
            level = new
        shutil.rmtree(home)


# ------------------------------------------------------------------ the same directories again

OPS = ('commit', 'tag', 'modify', 'restore', 'build', 'sdist', 'exe')


def again_space(tier):
    for n in range(1, 5 if tier == 'quick' else 6):
        for ops in itertools.product(OPS, repeat=n):
            if ops[-1] not in ('build', 'sdist', 'exe') or not set(ops[:-1]) & {'build', 'sdist', 'exe'} or any(a == b and a != 'commit' for a, b in zip(ops, ops[1:])):
                continue
            s = gitrepo.initial(0)
            try:
                for op in ops:
                    if op not in ('build', 'sdist', 'exe'):
                        s = gitrepo.apply(s, op)
            except KeyError:
                continue
            yield ops


def leg_again(ctx, job, scratch):
    for n, ops in enumerate(part(again_space(job['tier']), job)):
        home = os.path.join(scratch, str(n))
        os.mkdir(home)
        repo = gitrepo.Repo(os.path.join(home, 'project'), 0)
        if not has_installer(repo.root):
            return
        lib, out = os.path.join(home, 'lib'), os.path.join(home, 'dist')
        made = {}
        for k, op in enumerate(ops):
            ctx.case('git history: first commit, %s' % ', '.join(ops[:k + 1]))
            if op in ('build', 'sdist', 'exe'):
                before = contents(repo.root)
                v = runtime(repo.env, repo.root)
                expect(ctx, v, repo.state, repo)
                if op == 'build':
                    command(repo.env, repo.root, 'build_py', with_setuptools=bool(k % 2), build_lib=lib)
                    made['build'] = lib, v
                elif op == 'sdist':
                    c = command(repo.env, repo.root, 'sdist', with_setuptools=bool(k % 2), dest=out, link=('hard', None)[n % 2])
                    made[c.base] = c.base, v
                    ctx.same(c.distribution.metadata.version, v['version'], 'version in the name of the source distribution')
                else:
                    dist.build_exe.taken = None
                    command(repo.env, repo.root, 'build_exe', with_setuptools=bool(k % 2), extra=('cx_Freeze',))
                    where = os.path.join(home, 'exe%d' % k)
                    os.makedirs(os.path.join(where, 'gcs'))
                    with open(os.path.join(where, 'gcs', '_version.py'), 'wb') as f:
                        f.write(dist.build_exe.taken or b'')
                    made['exe%d' % k] = where, v
                ctx.check(contents(repo.root) == before, '%s changes the tree that it works on', op)
                for where, v in made.values():
                    ctx.same(runtime(repo.env, where), v, 'version of %s', os.path.relpath(where, home))
            else:
                repo.do(op)
            ctx.transitions += 1
        ctx.same(repo.git('status', '--porcelain').replace('M base.txt', '').strip(), '', 'files that git sees as changed')
        ctx.state(ops)
        ctx.traces += 1
        shutil.rmtree(home)


# ------------------------------------------------------------------ the real commands

SETUP = '''
import sys
from setuptools import setup
import versioneer
setup(name='gcs', version=versioneer.get_version(), cmdclass=versioneer.get_cmdclass(), packages=['gcs'])
'''


def leg_real(ctx, job, scratch):
    """the stand-in against real setuptools"""
    python = None
    for name in ('python3-vt', 'python3', '/usr/bin/python3'):
        exe = shutil.which(name)
        if exe and not subprocess.run([exe, '-c', 'import setuptools'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            python = exe
            break
    if python is None:
        ctx.count('no setuptools')
        return
    for n, path in enumerate(part([('tag',), ('atag', 'commit'), ('commit', 'modify'), ('tag', 'modify')], job)):
        home = os.path.join(scratch, str(n))
        os.mkdir(home)
        repo = gitrepo.Repo(os.path.join(home, 'project'), 0)
        if not has_installer(repo.root):
            return
        repo.write('setup.py', SETUP)
        repo.git('add', 'setup.py')
        repo.commit('commit', '-q', '-m', 'setup')
        repo.state = gitrepo.apply(repo.state, 'commit')
        repo.replay(path)
        what = 'real setuptools; git history: first commit, commit, %s' % ', '.join(path)
        ctx.case(what)
        v = runtime(repo.env, repo.root)
        expect(ctx, v, repo.state, repo)
        lib, out = os.path.join(home, 'lib'), os.path.join(home, 'dist')
        before = contents(repo.root)

        def run(*args):
            p = subprocess.run([python, '-B', '-W', 'ignore', 'setup.py', '-q'] + list(args), cwd=repo.root, env=repo.env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ctx.check(p.returncode == 0, 'setup.py %s fails: %s', ' '.join(args), p.stdout.decode()[-1500:])
        run('build_py', '--build-lib', lib)
        ctx.same(runtime(repo.env, lib), v, 'version of the package that was built')
        run('sdist', '--formats', 'tar', '--dist-dir', out, '--keep-temp')
        names = os.listdir(out)
        ctx.check(len(names) == 1 and names[0].startswith('gcs-'), 'source distributions %r', names)
        subprocess.run(['tar', '-x', '-C', out, '-f', os.path.join(out, names[0])], check=True)
        dirs = [d for d in os.listdir(out) if os.path.isdir(os.path.join(out, d))]
        ctx.same(runtime(repo.env, os.path.join(out, dirs[0])), v, 'version of the source distribution')
        now = {k: b for k, b in contents(repo.root).items() if '.egg-info' not in k and not k.startswith(('gcs-',))}
        ctx.check(now == before, 'the commands change the tree: %r', sorted(k for k in set(now) | set(before) if now.get(k) != before.get(k)))
        ctx.state(path)
        ctx.transitions += 4
        ctx.traces += 1
        shutil.rmtree(home)
