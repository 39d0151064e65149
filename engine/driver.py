"""Compile a witness translation unit against the current tree and run its drivers."""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
CLANG = '/usr/bin/clang++'
OPT = '/usr/bin/opt'


def irdump():
    p = os.path.join(VERIF, 'build', 'irdump')
    if not os.path.exists(p):
        subprocess.check_call(['sh', os.path.join(VERIF, 'setup.sh')], stdout=subprocess.DEVNULL)
    return p


class CompileError(Exception):
    pass


def compile_ir(src, std='c++17', defs=(), passes='function(mem2reg)', extra=(), tmp=None):
    d = tmp or tempfile.mkdtemp(prefix='vp_')
    try:
        base = os.path.join(d, os.path.basename(src) + '.' + str(abs(hash((std, tuple(defs), tuple(extra)))) % 10**8))
        ll = base + '.ll'
        cmd = [CLANG, '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-S', '-emit-llvm', '-w',
               '-fno-discard-value-names', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(VERIF, 'harness')]
        cmd += ['-D' + x for x in defs] + list(extra) + [src, '-o', ll]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise CompileError(r.stderr)
        opt = base + '.opt.ll'
        r = subprocess.run([OPT, '-S', '-passes=' + passes, ll, '-o', opt], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(r.stderr)
        r = subprocess.run([irdump(), opt], capture_output=True, text=True)
        if r.returncode:
            raise CompileError(r.stderr)
        return json.loads(r.stdout)
    finally:
        if tmp is None:
            import shutil
            shutil.rmtree(d, ignore_errors=True)
