# Sourced by check.sh: translate /repo's working tree to Python 3 and build its extensions, below /verif/build.
# The project's Python 2 sources run here through /opt/vp/py3/translate.py, exactly as in /opt/vp/build.sh. One data table
# (examples/worldmap.py, a map used by one example only, a minute to translate) is left out.
VBUILD=$HERE/build
VTREE=$VBUILD/py3
VREPO=${VERIF_REPO:-/repo}
mkdir -p "$VBUILD"
(
  flock 9
  if [ ! -d "$VTREE" ]; then
    if [ -d /opt/eustace-py3/src ]; then
      cp -a /opt/eustace-py3 "$VTREE.new" && rm -rf "$VTREE.new/reports" "$VTREE.new/src/build" &&
        find "$VTREE.new/src" -name '*.so' -delete && mv "$VTREE.new" "$VTREE"
    else
      mkdir -p "$VTREE"
    fi
  fi
  PYTHONPATH= /opt/venv/bin/python "$HERE/tools/mirror.py" "$VREPO" "$VBUILD/mirror" || exit 1
  PYTHONPATH= /opt/venv/bin/python /opt/vp/py3/translate.py "$VBUILD/mirror" "$VTREE" > "$VBUILD/translate.log" 2>&1 ||
    { tail -n 20 "$VBUILD/translate.log" >&2; exit 1; }
  PYTHONPATH= /opt/venv/bin/python "$HERE/tools/extensions.py" "$VTREE/src" "$VBUILD/ext" > "$VBUILD/build_ext.log" 2>&1 ||
    { tail -n 20 "$VBUILD/build_ext.log" >&2; exit 1; }
  if [ "$HERE/native/shim.c" -nt "$VBUILD/shim.so" ]; then
    gcc -O2 -w -shared -fPIC -o "$VBUILD/shim.so.new" "$HERE/native/shim.c" -ldl && mv "$VBUILD/shim.so.new" "$VBUILD/shim.so" || exit 1
  fi
) 9> "$VBUILD/lock"
