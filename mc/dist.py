"""A stand-in for distutils and setuptools with the commands that the version
machinery extends: it copies, and links, as the real ones do."""
import os
import shutil
import sys
import types


class Metadata:
    name = 'gcs'

    def __init__(self, version):
        self.version = version

    def get_version(self):
        return self.version

    def get_name(self):
        return self.name

    def get_fullname(self):
        return '%s-%s' % (self.name, self.version)


class Distribution:
    packages = ['gcs', 'gcs.tests']

    def __init__(self, version):
        self.metadata = Metadata(version)
        self.commands = {}
        self.cmdclass = {}

    def get_version(self):
        return self.metadata.version

    def get_fullname(self):
        return self.metadata.get_fullname()

    def get_name(self):
        return self.metadata.name

    def __getattr__(self, name):
        raise AttributeError(name)


class Command:
    def __init__(self, dist):
        self.distribution = dist
        self.force = None
        self.dry_run = 0
        self.verbose = 1
        self.initialize_options()

    def initialize_options(self):
        pass

    def finalize_options(self):
        pass

    def ensure_finalized(self):
        self.finalize_options()

    def announce(self, msg, level=1):
        pass

    def copy_file(self, src, dst, link=None, update=True):
        """as distutils.file_util.copy_file"""
        if update and not self.force and os.path.exists(dst) and os.path.getmtime(src) <= os.path.getmtime(dst):
            return dst, 0
        if link == 'hard':
            if not (os.path.exists(dst) and os.path.samefile(src, dst)):
                try:
                    os.link(src, dst)
                    return dst, 1
                except OSError:
                    pass
        with open(src, 'rb') as f:
            data = f.read()
        if os.path.exists(dst):
            os.unlink(dst)
        with open(dst, 'wb') as f:
            f.write(data)
        shutil.copystat(src, dst)
        return dst, 1


class build_py(Command):
    def initialize_options(self):
        self.build_lib = 'build/lib'

    def run(self):
        for where, dirs, files in os.walk('gcs'):
            if '__pycache__' in where:
                continue
            os.makedirs(os.path.join(self.build_lib, where), exist_ok=True)
            for f in files:
                if f.endswith('.py'):
                    self.copy_file(os.path.join(where, f), os.path.join(self.build_lib, where, f))


class sdist(Command):
    link = 'hard'
    dest = 'dist'

    def initialize_options(self):
        pass

    def run(self):
        files = ['setup.py', 'setup.cfg']
        with open('MANIFEST.in') as f:
            for line in f:
                words = line.split()
                if words and words[0] == 'include':
                    files += words[1:]
        for where, dirs, names in os.walk('gcs'):
            files += [os.path.join(where, n) for n in names if n.endswith('.py')]
        files = [f for k, f in enumerate(files) if f not in files[:k] and os.path.exists(f)]
        self.base = os.path.join(self.dest, self.distribution.get_fullname())
        self.make_release_tree(self.base, files + ['MANIFEST.in'])

    def make_release_tree(self, base_dir, files):
        os.makedirs(base_dir, exist_ok=True)
        for f in files:
            dst = os.path.join(base_dir, f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            self.copy_file(f, dst, link=self.link, update=False)
        self.metadata_written = self.distribution.metadata.version


class build_exe(Command):
    """cx_Freeze and py2exe: take the modules as they are now"""
    taken = None

    def run(self):
        with open(os.path.join('gcs', '_version.py'), 'rb') as f:
            build_exe.taken = f.read()


def modules(with_setuptools, extra=()):
    """{name: module} to be in sys.modules"""
    out = {}

    def mod(name, **kw):
        m = out[name] = types.ModuleType(name)
        m.__dict__.update(kw)
        m.__path__ = []
        if '.' in name:
            setattr(out[name.rpartition('.')[0]], name.rpartition('.')[2], m)
        return m

    for top in ('distutils', 'setuptools') if with_setuptools else ('distutils',):
        mod(top, Command=Command, Distribution=Distribution)
        mod(top + '.core', Command=Command)
        mod(top + '.cmd', Command=Command)
        mod(top + '.dist', Distribution=Distribution)
        mod(top + '.command')
        mod(top + '.command.build_py', build_py=build_py)
        mod(top + '.command.sdist', sdist=sdist)
    if 'cx_Freeze' in extra:
        mod('cx_Freeze')
        mod('cx_Freeze.dist', build_exe=build_exe)
    if 'py2exe' in extra:
        mod('py2exe')
        mod('py2exe.distutils_buildexe', py2exe=build_exe)
        mod('py2exe.build_exe', py2exe=build_exe)
    return out


class Installed:
    """these modules are installed, and no others of their names"""
    NAMES = ('distutils', 'setuptools', 'cx_Freeze', 'py2exe', 'versioneer')

    def __init__(self, mods):
        self.mods = mods

    def __enter__(self):
        self.old = {k: v for k, v in sys.modules.items() if k.split('.')[0] in self.NAMES}
        for k in self.old:
            del sys.modules[k]
        sys.modules.update(self.mods)

    def __exit__(self, *exc):
        for k in [k for k in sys.modules if k.split('.')[0] in self.NAMES]:
            del sys.modules[k]
        sys.modules.update(self.old)
