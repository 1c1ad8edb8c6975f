#!/bin/bash
# nothing to build: TLC parses the specification and Python the harness on every
# run. This parses all of it once, so that a broken file is reported here.
cd "$(dirname "$0")" || exit 3
set -e
/opt/venv/bin/python - <<'P'
import ast, glob
for f in glob.glob("vf/**/*.py", recursive=True) + glob.glob("env/**/*.py", recursive=True):
    ast.parse(open(f).read(), f)
P
for f in spec/*.tla; do
  java -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar \
    -DTLA-Library=spec tla2sany.SANY "$f" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
/bin/rm -f /tmp/sany.$$
mkdir -p evidence
echo setup ok
