"""Builds the interpreter from /repo's working tree together with a harness program, cached by content."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PSCM_REPO', '/repo')
SRC = os.path.join(REPO, 'src/c')
MAIN = os.path.join(REPO, 'src/main.cc')
BUILD = os.path.join(VERIF, 'build')
IGNORE = os.path.join(VERIF, 'harness/asan.ignore')
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
BASE = ['-std=c++20', '-O0', '-g', '-include', 'limits.h', '-w']
WRAP = ['-Wl,--wrap=_Z8gc_alloc7TypeTagm']
VARIANTS = {
    'plain': [],
    'gc': ['-DGCSTRESS=1'],
    'asan': ['-fsanitize=address', '-fno-omit-frame-pointer', '-fsanitize-ignorelist=' + IGNORE],
}


class BuildError(Exception):
    pass


def sources():
    """library sources, and main.cc left out"""
    return sorted(f for f in glob.glob(os.path.join(SRC, '*.cc')) if os.path.basename(f) not in ('main.cc',))


def tree_hash(extra, flags=''):
    h = hashlib.sha256(flags.encode())
    files = sorted(glob.glob(os.path.join(SRC, '*.cc')) + glob.glob(os.path.join(SRC, '*.h'))) + extra
    for f in files:
        h.update(os.path.basename(f).encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:20]


def build(variant='plain', harness='driver.cc', name='drv'):
    hfile = os.path.join(VERIF, 'harness', harness)
    incs = sorted(glob.glob(os.path.join(VERIF, 'harness', '*.inc')))
    flags = BASE + VARIANTS[variant]
    extra = [hfile, MAIN] + incs + [f for f in (IGNORE,) if variant.startswith('asan')]
    key = tree_hash(extra, ' '.join(flags)) + '-' + variant + '-' + name
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, key)
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(BUILD, 'lock-' + variant + '-' + name), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        # object files are cached per source file by preprocessed-input content
        od = os.path.join(BUILD, 'obj-' + variant)
        os.makedirs(od, exist_ok=True)
        hh = hashlib.sha256()
        for f in sorted(glob.glob(os.path.join(SRC, '*.h'))):
            hh.update(os.path.basename(f).encode() + open(f, 'rb').read())
        hh.update(' '.join(flags).encode())
        for f in incs + [MAIN]:
            hh.update(open(f, 'rb').read())
        if variant.startswith('asan'):
            hh.update(open(IGNORE, 'rb').read())

        def comp(f):
            c = hh.copy()
            c.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read())
            o = os.path.join(od, c.hexdigest()[:24] + '.o')
            if not os.path.exists(o):
                tmp = o + '.%d.tmp' % os.getpid()
                r = subprocess.run([CXX] + flags + ['-I', SRC, '-c', f, '-o', tmp], capture_output=True, text=True)
                if r.returncode:
                    raise BuildError('%s\n%s' % (f, r.stderr[-4000:]))
                os.rename(tmp, o)
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(comp, [f for f in sources()] + [hfile]))
        os.makedirs(d, exist_ok=True)
        tmp = exe + '.tmp'
        r = subprocess.run([CXX] + flags + objs + (WRAP if variant.startswith('gc') else []) + ['-o', tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        os.rename(tmp, exe)
    prune()
    return exe


def prune():
    ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if not x.startswith(('obj-', 'lock-'))]
    ds = sorted((x for x in ds if os.path.isdir(x)), key=os.path.getmtime)
    for x in ds[:-24]:
        shutil.rmtree(x, ignore_errors=True)
    for v in VARIANTS:
        od = os.path.join(BUILD, 'obj-' + v)
        if os.path.isdir(od):
            os_ = sorted((os.path.join(od, x) for x in os.listdir(od)), key=os.path.getmtime)
            for x in os_[:-400]:
                os.unlink(x)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        print(build('plain', 'cli.cc', 'cli') if v == 'cli' else build(v))
