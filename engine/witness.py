"""Compile-time witnesses: programs the type checker must accept or reject, and rules over the preprocessed or type-checked program."""
import os
import re
import subprocess
from . import driver

ERR = re.compile(r'^(\S+?):(\d+):(?:\d+:)? (?:fatal )?error: (.*)$', re.M)


def compile_only(src, std, defs=(), cxx='clang++', extra=(), text=None, tmp=None, name='w.cpp', inc=True):
    if text is not None:
        p = os.path.join(tmp, name)
        open(p, 'w').write(text)
    else:
        p = src
    cmd = [cxx, '-std=' + std, '-fsyntax-only', '-w']
    if inc:
        cmd += ['-I', os.path.join(driver.REPO, 'include'), '-I', os.path.join(driver.VERIF, 'harness')]
    cmd += ['-D' + d for d in defs] + list(extra) + [p]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode == 0, r.stderr


def viol(msg, err, cfg):
    m = ERR.search(err)
    return {'cat': 'interface', 'msg': msg, 'loc': '%s:%s' % (m.group(1), m.group(2)) if m else '?', 'fn': '',
            'detail': (m.group(3) if m else err[:500]), 'driver': 'witness', 'config': cfg, 'trace': [], 'path': [], 'instance': None}


def run(j, tmp):
    return j.fn(j, tmp)
