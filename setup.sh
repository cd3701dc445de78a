#!/bin/bash
# Nothing to build ahead of time: each check compiles /repo's extensions into its own scratch folder.
cd "$(dirname "$(readlink -f "$0")")" && /opt/venv/bin/python - <<'P'
import glob
for f in glob.glob("**/*.py", recursive=True):
    compile(open(f, encoding="utf8").read(), f, "exec")
import numpy, scipy, pandas, mssmViz.sim  # noqa
print("ok")
P
