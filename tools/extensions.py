"""extensions.py SRC CACHE: build every Cython and C extension module of the translated tree, in parallel, cached by content."""
import hashlib
import multiprocessing
import os
import shutil
import subprocess
import sys
import sysconfig

SRC, CACHE = sys.argv[1:3]
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')


def sources():
    for top in ('eustace', 'eumopps'):
        for directory, subdirs, names in os.walk(os.path.join(SRC, top)):
            for name in sorted(names):
                path = os.path.join(directory, name)
                if name.endswith('.pyx'):
                    yield path
                elif name.endswith('.c'):
                    with open(path, 'rb') as f:
                        text = f.read()
                    if b'PyInit_' in text and b'Generated by Cython' not in text[:200]:
                        yield path


def build(path):
    with open(path, 'rb') as f:
        data = f.read()
    folder = os.path.dirname(path)
    for name in sorted(os.listdir(folder)):
        if name.endswith(('.h', '.pxd', '.pxi')):
            with open(os.path.join(folder, name), 'rb') as f:
                data += f.read()
    key = hashlib.sha256(path.encode() + data).hexdigest()[:24]
    cached = os.path.join(CACHE, key + '.so')
    target = os.path.splitext(path)[0] + SUFFIX
    if not os.path.exists(cached):
        import numpy
        csource = path
        if path.endswith('.pyx'):
            csource = os.path.join(CACHE, key + '.c')
            module = os.path.splitext(os.path.relpath(path, SRC))[0].replace(os.sep, '.')
            result = subprocess.run([sys.executable, '-m', 'cython', '--module-name', module, '-X', 'embedsignature=True', path, '-o', csource],
                                    cwd=SRC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
            if result.returncode:
                return path, result.stdout
        command = ['gcc', '-shared', '-fPIC', '-O2', '-fwrapv', '-w', '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include(),
                   '-I' + os.path.dirname(path), csource, '-o', cached + '.tmp%d' % os.getpid()]
        result = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if result.returncode:
            return path, result.stdout
        os.rename(command[-1], cached)
    with open(cached, 'rb') as f:
        new = f.read()
    old = None
    if os.path.exists(target):
        with open(target, 'rb') as f:
            old = f.read()
    if old != new:
        shutil.copyfile(cached, target + '.new')
        os.rename(target + '.new', target)
    return path, None


def main():
    os.makedirs(CACHE, exist_ok=True)
    paths = list(sources())
    with multiprocessing.Pool(8) as pool:
        results = pool.map(build, paths, chunksize=1)
    failed = [r for r in results if r[1]]
    for path, text in failed:
        print(path)
        print(text)
    return 1 if failed else 0


if __name__ == '__main__':
    sys.exit(main())
