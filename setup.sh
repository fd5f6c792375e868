#!/bin/bash
# Puts hypothesis (offline wheelhouse) beside the harness; nothing else is needed.
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
set -e
rm -rf "$HERE/.deps.tmp"
if ! /opt/venv/bin/python -m pip install -q --no-index --find-links /opt/veriftools/wheels --no-deps \
      --target "$HERE/.deps.tmp" hypothesis sortedcontainers attrs 2>/tmp/verif-pip.$$ ; then
  # fall back to copying the pure python packages from the tooling venv
  cat /tmp/verif-pip.$$ >&2
  mkdir -p "$HERE/.deps.tmp"
  SP=/opt/veriftools/pyvenv/lib/python3.12/site-packages
  for m in hypothesis sortedcontainers attr attrs; do cp -a "$SP/$m" "$HERE/.deps.tmp/" 2>/dev/null || true; done
fi
rm -f /tmp/verif-pip.$$
rm -rf "$HERE/.deps"; mv "$HERE/.deps.tmp" "$HERE/.deps"
PYTHONPATH="$HERE/.deps" /opt/venv/bin/python -c "import hypothesis; print('hypothesis', hypothesis.__version__)"
