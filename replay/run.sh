#!/bin/bash
# run.sh PROPERTY [harness options]: the concrete checks, as an unprivileged user in a scratch directory
D=$(mktemp -d /dev/shm/zv.XXXXXX 2>/dev/null || mktemp -d /tmp/zv.XXXXXX)
chmod 777 "$D"
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir "$D/code" && cp "$HERE"/*.py "$D/code/" && chmod -R a+rX "$D/code"
PY=${PYPY:-/opt/pypyvenv/bin/python}
cd "$D"
if [ "$(id -u)" = 0 ]; then P="setpriv --reuid nobody --regid nogroup --clear-groups --no-new-privs"; else P=""; fi
mkdir -m 777 "$D/s"
$P env -i REPO="${REPO:-/repo}" SCRATCH="$D/s" HOME="$D/s" TMPDIR="$D/s" LANG=C.UTF-8 PATH="$PATH" PYTHONDONTWRITEBYTECODE=1 \
  timeout -k 5 "${LIMIT:-600}" "$PY" "$D/code/harness.py" "$@"
rc=$?
chmod -R u+rwX "$D/s" 2>/dev/null
rm -rf "$D"
exit $rc
