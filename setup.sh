#!/bin/sh
# Nothing to build: every check generates what it needs from /repo.  Make sure the tools are there.
set -e
for x in clang++-18 llvm-link-18 opt-18 g++ c++filt cvc5 /opt/veriftools/pyvenv/bin/python; do
  command -v "$x" >/dev/null || { echo "missing: $x"; exit 1; }
done
cd "$(dirname "$0")"
/opt/veriftools/pyvenv/bin/python - <<'E'
import sys
sys.path.insert(0, 'engine')
import z3, cvc5, driver, checks
print('z3', z3.get_version_string(), len(checks.CHECKS), 'checks')
E
