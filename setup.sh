#!/bin/bash
# Installs the property-based-testing library (Hypothesis) from the offline wheelhouse into
# /verif/.deps, for use by /opt/venv's Python (the interpreter sympkf is installed in).
# Idempotent; every check calls it too, so that a check works in a fresh copy of /verif.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
DEPS=$HERE/.deps
[ -f "$DEPS/ok" ] && exit 0
TMP=$(mktemp -d "$HERE/.deps.XXXXXX") || exit 3
if /opt/venv/bin/python -m pip install -q --disable-pip-version-check --no-index --no-deps \
      --find-links /opt/veriftools/wheels --target "$TMP" hypothesis sortedcontainers >/dev/null 2>"$TMP/err"; then
  touch "$TMP/ok"
else
  # fall back on the copies in the tooling venv (same Python 3.12 ABI)
  SP=/opt/veriftools/pyvenv/lib/python3.12/site-packages
  cp -r $SP/hypothesis $SP/sortedcontainers "$TMP/" && cp $SP/_hypothesis*.py "$TMP/" 2>/dev/null
  [ -d "$TMP/hypothesis" ] && touch "$TMP/ok"
fi
[ -f "$TMP/ok" ] || { echo "setup: cannot install hypothesis" >&2; cat "$TMP/err" >&2; rm -rf "$TMP"; exit 3; }
mv -T "$TMP" "$DEPS" 2>/dev/null || rm -rf "$TMP"   # someone else may have won the race
[ -f "$DEPS/ok" ]
