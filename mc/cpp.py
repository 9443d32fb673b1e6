"""Compiles the C++ sources of /repo under test together with a driver, below /verif/build."""
import hashlib
import os
import subprocess

from mc.core import HERE, Violation

REPO = os.environ.get('VERIF_REPO') or '/repo'


def source_hash(folder):
    h = hashlib.sha256()
    for base, dirs, files in sorted(os.walk(folder)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(('.cpp', '.h')):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, folder).encode() + b'\0')
                with open(p, 'rb') as x:
                    h.update(x.read())
    return h.hexdigest()[:16]


def program(name, sources, flags=()):
    """Path of the compiled driver native/<name>.cpp with the given sources (relative to src/cpp/eustace); cached by content."""
    root = os.path.join(REPO, 'src', 'cpp')
    with open(os.path.join(HERE, 'native', name + '.cpp'), 'rb') as f:
        key = hashlib.sha256(f.read() + source_hash(root).encode() + repr((sources, flags)).encode()).hexdigest()[:16]
    out = os.path.join(HERE, 'build', 'cpp', name + '-' + key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        command = ['g++', '-std=c++14', '-O1', '-w', '-I' + root, '-o', out + '.%d' % os.getpid(), os.path.join(HERE, 'native', name + '.cpp')]
        command += [os.path.join(root, 'eustace', s) for s in sources] + list(flags)
        result = subprocess.run(command, capture_output=True, text=True)
        if result.returncode != 0:
            raise Violation('the C++ code can no longer be compiled with its driver: ' + result.stderr[:2000])
        os.rename(out + '.%d' % os.getpid(), out)
    return out
