"""Git histories: an abstract model of a repository and its replay on a real
one, which contains the version machinery under test."""
import os
import shutil
import subprocess
from . import core

NAMES = [('v0.1', 'v0.2-rc1', 'v1.0+loc', 'v2.0.post1-3-gabc', 'v10'),
         ('v1.0+loc', 'v10.dev2', 'vv9', 'v0.1', 'v3'),
         ('v2.0.post1-3-gabc-dirty', 'v1.0-dirty', 'v1-dirty-2', 'v2', 'v3')]
FILES = ('gcs/__init__.py', 'gcs/_version.py', 'versioneer.py', 'setup.py', 'setup.cfg', '.gitattributes', 'MANIFEST.in')
ZONES = ('+0000', '-0330', '+0545', '+1400')


def env(home):
    e = {k: v for k, v in os.environ.items() if not k.startswith('GIT_')}
    e.update(HOME=home, XDG_CONFIG_HOME=home, GIT_CONFIG_GLOBAL=os.devnull, GIT_CONFIG_SYSTEM=os.devnull, GIT_CONFIG_NOSYSTEM='1',
             GIT_CEILING_DIRECTORIES=os.path.dirname(os.path.realpath(home)), GIT_AUTHOR_NAME='a', GIT_AUTHOR_EMAIL='a@b', GIT_COMMITTER_NAME='a',
             GIT_COMMITTER_EMAIL='a@b', GIT_TERMINAL_PROMPT='0', LC_ALL='C', GIT_EDITOR='true')
    return e


class State:
    """What the version is computed from. Commits are numbered; commit k has
    the parents par[k]; tags: (name, commit, annotated); refs: branch ->
    commit; on: name of the current branch or None; tree: state of the
    tracked files; extra: is there an untracked file?"""
    __slots__ = ('par', 'tags', 'refs', 'on', 'head', 'tree', 'extra', 'rot')

    def __init__(self, **kw):
        for k in self.__slots__:
            setattr(self, k, kw[k])

    def key(self):
        return (self.par, self.tags, tuple(sorted(self.refs.items())), self.on, self.head, self.tree, self.extra, self.rot)

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return State(**d)

    def reach(self, k):
        out, todo = set(), [k]
        while todo:
            c = todo.pop()
            if c not in out:
                out.add(c)
                todo.extend(self.par[c])
        return out

    # -- what the version must be
    def dirty(self):
        return self.tree != 'clean'

    def candidates(self):
        """(names of the closest version tags, distance), or (None, number of commits)"""
        R = self.reach(self.head)
        best = {}
        for name, c, ann in self.tags:
            if name.startswith('v') and c in R:
                best.setdefault(len(R - self.reach(c)), set()).add(name)
        if not best:
            return None, len(R)
        d = min(best)
        return best[d], d

    def tags_here(self):
        return {n for n, c, a in self.tags if c == self.head and n.startswith('v')}


def initial(rot):
    return State(par=((),), tags=(), refs={'main': 0}, on='main', head=0, tree='clean', extra=False, rot=rot)


def moves(s):
    """(name of the operation, new state)"""
    clean = s.tree == 'clean'
    n = len(s.par)

    def commit(parents):
        refs = dict(s.refs)
        if s.on:
            refs[s.on] = n
        return s.but(par=s.par + (parents,), refs=refs, head=n, tree='clean')

    if s.tree != 'removed':
        yield 'commit', commit((s.head,))
    names = NAMES[s.rot]
    used = sum(t[0].startswith('v') for t in s.tags)
    if used < len(names):
        yield 'tag', s.but(tags=s.tags + ((names[used], s.head, False),))
        yield 'atag', s.but(tags=s.tags + ((names[used], s.head, True),))
    if not any(t[0] == 'rel-1' for t in s.tags):
        yield 'other', s.but(tags=s.tags + (('rel-1', s.head, True),))
    if clean:
        yield 'modify', s.but(tree='modified')
        yield 'stage', s.but(tree='staged')
        yield 'remove', s.but(tree='removed')
        if s.on and 'side' not in s.refs:
            yield 'branch', s.but(refs=dict(s.refs, side=s.head), on='side')
        for b in sorted(s.refs):
            if b != s.on:
                yield 'switch-' + b, s.but(on=b, head=s.refs[b])
            if s.on and b != s.on and s.refs[b] not in s.reach(s.head):
                yield 'merge-' + b, commit((s.head, s.refs[b]))
        if s.par[s.head]:
            yield 'back', s.but(on=None, head=s.par[s.head][0])
    else:
        yield 'restore', s.but(tree='clean')
    if not s.extra:
        yield 'untracked', s.but(extra=True)


def search(depth, rot, start=()):
    """breadth first over the model: [(path of operations, state)]"""
    s = initial(rot)
    for op in start:
        s = apply(s, op)
    seen = {s.key()}
    out = [(start, s)]
    frontier = out[:]
    for _ in range(depth):
        new = []
        for path, s in frontier:
            for op, t in moves(s):
                k = t.key()
                if k not in seen:
                    seen.add(k)
                    new.append((path + (op,), t))
        out += new
        frontier = new
    return out


def apply(s, op):
    for name, t in moves(s):
        if name == op:
            return t
    raise KeyError(op)


class Repo:
    """A real repository that follows the model."""

    def __init__(self, root, rot=0, born=True):
        self.root = root
        self.env = env(os.path.dirname(root))
        self.n = 0
        self.shas, self.dates = [], []
        os.makedirs(os.path.join(root, 'gcs'))
        for f in FILES:
            src = os.path.join(core.REPO, f)
            if os.path.exists(src):
                shutil.copy(src, os.path.join(root, f))
        self.write('base.txt', '0\n')
        self.git('init', '-q', '--template=', '-b', 'main')
        self.state = initial(rot)
        self.abbrev = (7, 12, 7)[rot]
        if self.abbrev != 7:
            self.git('config', 'core.abbrev', str(self.abbrev))
        if born:
            self.git('add', '.')
            self.commit('commit', '-q', '-m', 'start')

    def write(self, name, text):
        with open(os.path.join(self.root, name), 'w') as f:
            f.write(text)

    def git(self, *args, **extra):
        p = subprocess.run(('git', '-c', 'core.fsync=none', '-c', 'gc.auto=0') + args, cwd=self.root, env=dict(self.env, **extra),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise RuntimeError('git %s: %s' % (' '.join(args), p.stdout.decode()))
        return p.stdout.decode().strip()

    def when(self):
        k = len(self.shas)
        return '%d %s' % (1600000000 + 86400 * k + self.n, ZONES[k % 4])

    def commit(self, *args):
        d = self.when()
        # written some days before it was committed
        self.git(*args, GIT_AUTHOR_DATE='%d +0300' % (1500000000 + 3600 * len(self.shas)), GIT_COMMITTER_DATE=d)
        self.shas.append(self.git('rev-parse', 'HEAD'))
        self.dates.append(iso(d))

    def do(self, op):
        s, t = self.state, apply(self.state, op)
        self.n += 1
        if op == 'commit':
            if s.tree == 'clean':
                self.write('c%d' % self.n, 'x')
                self.git('add', 'c%d' % self.n)
            self.commit('commit', '-q', '-a', '-m', str(self.n))
        elif op in ('tag', 'atag', 'other'):
            name = t.tags[-1][0]
            if op == 'tag':
                self.git('tag', name)
            else:
                self.git('tag', '-a', '-m', 'version', name, GIT_COMMITTER_DATE='%d +0000' % (1700000000 + self.n))
        elif op in ('modify', 'stage'):
            self.write('base.txt', 'changed %d, longer than before\n' % self.n)
            if op == 'stage':
                self.git('add', 'base.txt')
        elif op == 'remove':
            os.unlink(os.path.join(self.root, 'base.txt'))
        elif op == 'restore':
            self.git('reset', '-q', '--hard')
        elif op == 'untracked':
            self.write('untracked.txt', 'x')
        elif op == 'branch':
            self.git('checkout', '-q', '-b', 'side')
        elif op.startswith('switch-'):
            self.git('checkout', '-q', op[7:])
        elif op.startswith('merge-'):
            self.commit('merge', '-q', '--no-ff', '-X', 'ours', '-m', str(self.n), op[6:])
        elif op == 'back':
            self.git('checkout', '-q', '--detach', 'HEAD^')
        else:
            raise KeyError(op)
        self.state = t

    def replay(self, path):
        for op in path:
            self.do(op)
        return self

    def archive(self, where, what='HEAD'):
        os.makedirs(where)
        p1 = subprocess.Popen(['git', 'archive', what], cwd=self.root, env=self.env, stdout=subprocess.PIPE)
        subprocess.run(['tar', '-x', '-C', where], stdin=p1.stdout, check=True)
        p1.stdout.close()
        if p1.wait():
            raise RuntimeError('git archive failed')


def iso(d):
    """'seconds zone' as git shows it in ISO 8601"""
    import datetime
    sec, zone = d.split()
    off = (int(zone[1:3]) * 60 + int(zone[3:])) * (-1 if zone[0] == '-' else 1)
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=int(sec) + 60 * off)
    return t.strftime('%Y-%m-%dT%H:%M:%S') + zone


# ------------------------------------------------------------ the code under test

_compiled = {}


def load(path, name='gcs._version'):
    """the module at path as a namespace, as if imported from there"""
    with open(path, 'rb') as f:
        text = f.read()
    code = _compiled.get((path, text))
    if code is None:
        if len(_compiled) > 50:
            _compiled.clear()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            code = _compiled[path, text] = compile(text, path, 'exec')
    ns = {'__file__': path, '__name__': name}
    exec(code, ns)
    return ns


def template(root, parent=''):
    """the version module that versioneer writes into a project"""
    v = load(os.path.join(root, 'versioneer.py'), 'versioneer')
    text = v['LONG_VERSION_PY']['git'] % {
        'DOLLAR': '$', 'STYLE': 'pep440', 'TAG_PREFIX': 'v', 'PARENTDIR_PREFIX': parent, 'VERSIONFILE_SOURCE': 'gcs/_version.py'}
    return text


class Within:
    """environment and directory for the code under test"""

    def __init__(self, environ, cwd='/', path=None):
        self.new = dict(environ)
        if path is not None:
            self.new['PATH'] = path
        self.cwd = cwd

    def __enter__(self):
        self.old, self.oldcwd = dict(os.environ), os.getcwd()
        os.environ.clear()
        os.environ.update(self.new)
        os.chdir(self.cwd)

    def __exit__(self, *exc):
        os.environ.clear()
        os.environ.update(self.old)
        os.chdir(self.oldcwd)
