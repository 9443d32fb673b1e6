"""mirror.py REPO MIRROR: copy of the working tree (without .git), with the worldmap data table replaced by an empty module."""
import os
import shutil
import sys

repo, mirror = sys.argv[1:3]
EMPTY = os.path.join('src', 'eustace', 'outputformats', 'examples', 'worldmap.py')
PRODUCTS = ('.so', '.o', '.pyc')
wanted = set()
for directory, subdirs, names in os.walk(repo):
    inside = os.path.relpath(directory, repo)
    subdirs[:] = [d for d in subdirs if d not in ('.git', '__pycache__', '.pytest_cache')]
    os.makedirs(os.path.join(mirror, inside), exist_ok=True)
    for name in names:
        if name.endswith(PRODUCTS):
            continue
        path = os.path.normpath(os.path.join(inside, name))
        source, target = os.path.join(repo, path), os.path.join(mirror, path)
        if not os.path.isfile(source):
            continue
        wanted.add(path)
        with open(source, 'rb') as f:
            data = b'' if path == EMPTY else f.read()
        if os.path.exists(target):
            with open(target, 'rb') as f:
                if f.read() == data:
                    continue
        with open(target, 'wb') as f:
            f.write(data)
        shutil.copymode(source, target)
for directory, subdirs, names in os.walk(mirror, topdown=False):
    for name in names:
        path = os.path.normpath(os.path.join(os.path.relpath(directory, mirror), name))
        if path not in wanted:
            os.remove(os.path.join(mirror, path))
    if not os.listdir(directory):
        os.rmdir(directory)
