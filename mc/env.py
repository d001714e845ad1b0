"""
Bind the checks to the code under test.

Python sources are imported straight from /repo.  The two f2py kernels are
compiled artefacts: the ones lying in /repo are used only if the build stamp
proves that they were built from the current .f90 sources, otherwise they are
rebuilt in a scratch directory (never inside /repo) and put in front of the
stale ones with an import hook.
"""
import atexit
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = os.path.join(REPO, 'atooms', 'postprocessing')
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')
STAMPS = '/opt/vp-build'
NAMES = ('realspace', 'fourierspace')

_scratch = []


def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    path = tempfile.mkdtemp(prefix='verifmc.', dir=base)
    _scratch.append((os.getpid(), path))
    return path


@atexit.register
def _cleanup():
    for pid, path in _scratch:
        if pid == os.getpid():
            shutil.rmtree(path, ignore_errors=True)


def _sha(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _fresh(name):
    src = os.path.join(PKG, name + '.f90')
    so = os.path.join(PKG, name + '_wrap' + SUFFIX)
    stamp = os.path.join(STAMPS, name + '.stamp')
    try:
        with open(stamp) as fh:
            text = fh.read().split()
        # the stamp reads "<sha src>  -<sha so>  -"
        shas = [t.lstrip('-') for t in text if t.lstrip('-')]
        return shas == [_sha(src), _sha(so)]
    except (OSError, IndexError):
        return False


class _Finder:
    """Serve the kernels in `table` (full name -> path) instead of those in /repo"""

    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        if fullname not in self.table:
            return None
        loader = importlib.machinery.ExtensionFileLoader(fullname, self.table[fullname])
        return importlib.util.spec_from_file_location(fullname, self.table[fullname], loader=loader)


def _start_build(name, out, flags):
    work = os.path.join(out, name)
    os.makedirs(os.path.join(work, 'src'))
    src = os.path.join(work, 'src', name + '.f90')
    shutil.copy(os.path.join(PKG, name + '.f90'), src)
    env = dict(os.environ)
    env['PATH'] = os.path.dirname(sys.executable) + ':' + env.get('PATH', '')
    env['FFLAGS'] = flags
    log = open(os.path.join(work, 'log'), 'w')
    cmd = [sys.executable, '-m', 'numpy.f2py', '-c', '--backend', 'meson',
           '--build-dir', os.path.join(work, 'build'), '-m', name + '_wrap', name + '.f90']
    proc = subprocess.Popen(cmd, cwd=os.path.join(work, 'src'), env=env, stdout=log, stderr=subprocess.STDOUT)
    return proc, os.path.join(work, 'src', name + '_wrap' + SUFFIX), os.path.join(work, 'log')


class BuildError(Exception):
    pass


def build(names, flags=''):
    out = scratch_root()
    jobs = {name: _start_build(name, out, flags) for name in names}
    table = {}
    for name, (proc, so, log) in jobs.items():
        proc.wait()
        if proc.returncode != 0 or not os.path.exists(so):
            with open(log) as fh:
                raise BuildError('cannot build %s\n%s' % (name, fh.read()[-3000:]))
        table['atooms.postprocessing.%s_wrap' % name] = so
    return table


def setup(kernels=True, flags=None):
    """Make `import atooms.postprocessing` give the code in /repo with current kernels"""
    sys.dont_write_bytecode = True
    how = 'no kernel needed'
    if kernels:
        if flags is not None:
            table = build(NAMES, flags)
            how = 'kernels rebuilt from /repo with ' + flags
        else:
            stale = [name for name in NAMES if not _fresh(name)]
            table = build(stale) if stale else {}
            how = 'kernels rebuilt from /repo: %s' % stale if stale else 'kernels in /repo match their sources (stamp)'
        if table:
            sys.meta_path.insert(0, _Finder(table))
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import atooms.postprocessing
    where = os.path.dirname(os.path.abspath(atooms.postprocessing.__file__))
    if where != os.path.abspath(PKG):
        raise RuntimeError('wrong code under test: %s' % where)
    import atooms.postprocessing.progress
    atooms.postprocessing.progress.active = False
    return how
