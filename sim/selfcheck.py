"""Setup: checks that the committed framework is complete and loadable; builds nothing (pure Python)."""
import ast
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(here)):
    if f.endswith(".py"):
        ast.parse(open(os.path.join(here, f)).read(), f)
for f in ("MANIFEST.json", "known_findings.json"):
    p = os.path.join(here, "..", f)
    if os.path.exists(p):
        json.load(open(p))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
import boot  # noqa
print("framework ok", sys.version.split()[0])
