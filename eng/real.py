"""Builds the real package (C extension compiled from /repo/src) in a scratch directory, for replaying counterexamples."""
import hashlib
import os
import shutil
import sysconfig
from . import csym

PKG = os.path.join(csym.REPO, 'spherepy')


def digest():
    h = hashlib.sha256()
    fs = csym.src_files()
    for f in sorted(os.listdir(PKG)):
        p = os.path.join(PKG, f)
        if os.path.isfile(p) and f.endswith(('.py', '.json')):
            fs.append(p)
    for f in fs:
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()[:20]


def build():
    """directory to put first on sys.path"""
    def make(t):
        dst = os.path.join(t, 'spherepy')
        os.mkdir(dst)
        for f in os.listdir(PKG):
            p = os.path.join(PKG, f)
            if os.path.isfile(p) and f.endswith(('.py', '.json')):
                shutil.copy(p, os.path.join(dst, f))
        src = [os.path.join(csym.SRC, f) for f in ('csphi.c', 'kiss_fft.c', 'csphi_wrap.c')]
        cc = 'gcc' if shutil.which('gcc') else csym.CLANG
        csym.run([cc, '-shared', '-fPIC', '-O2', '-DNDEBUG', '-w'] + csym.py_flags() + src +
                 ['-lm', '-o', os.path.join(dst, '_csphi' + sysconfig.get_config_var('EXT_SUFFIX'))])
        shutil.copy(os.path.join(dst, '_csphi' + sysconfig.get_config_var('EXT_SUFFIX')), os.path.join(t, 'libcsphi.so'))
    return csym.cached_dir('real-' + digest(), make)
