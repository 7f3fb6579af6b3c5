"""
Builds the native parts from /repo's current working tree (the C extension) and
from /verif (the system call recorder).  Everything is keyed by a hash of the
source and of the command, so that a change of the source is always built.
"""
import hashlib
import os
import shutil
import subprocess
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CFLAGS = {
    'plain': ['-O2', '-g', '-fwrapv', '-DNDEBUG'],
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer',
             '-fsanitize=address,undefined', '-fno-sanitize-recover=all'],
}


def _build_dir():
    path = os.path.join(VERIF, 'build')
    try:
        os.makedirs(path, exist_ok=True)
        if os.access(path, os.W_OK):
            return path
    except OSError:
        pass
    path = os.path.join(tempfile.gettempdir(), 'verif-build-%d' % os.getuid())
    os.makedirs(path, exist_ok=True)
    return path


def _compile(source, command, suffix):
    with open(source, 'rb') as f:
        data = f.read()
    key = hashlib.sha256(data + repr(command).encode()).hexdigest()[:20]
    target = os.path.join(_build_dir(), '%s-%s%s' % (
        os.path.basename(source).rsplit('.', 1)[0], key, suffix))
    if not os.path.exists(target):
        tmp = tempfile.mkdtemp(dir=_build_dir())
        try:
            out = os.path.join(tmp, 'out.so')
            done = subprocess.run(command + ['-o', out, source],
                                  stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, timeout=300)
            if done.returncode != 0:
                raise RuntimeError('compilation failed: %s\n%s' % (
                    command, done.stdout.decode('utf8', 'replace')))
            os.rename(out, target)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return target


def extension(kind='plain'):
    """The path of a _persistent extension module, built from REPO."""
    command = (['gcc', '-shared', '-fPIC', '-pthread'] + CFLAGS[kind] +
               ['-I' + sysconfig.get_paths()['include']])
    return _compile(os.path.join(REPO, 'durus', '_persistent.c'), command,
                    '.so')


def recorder():
    """The path of the LD_PRELOAD system call recorder."""
    return _compile(os.path.join(VERIF, 'vlib', 'recorder.c'),
                    ['gcc', '-shared', '-fPIC', '-O1', '-g', '-Wall',
                     '-D_GNU_SOURCE', '-ldl', '-lpthread'], '.so')


def asan_runtime():
    out = subprocess.run(['gcc', '-print-file-name=libasan.so'],
                         stdout=subprocess.PIPE).stdout.decode().strip()
    return os.path.realpath(out)


if __name__ == '__main__':
    for path in (extension('plain'), extension('asan'), recorder()):
        print(path)
