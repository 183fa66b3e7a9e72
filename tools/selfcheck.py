#!/usr/bin/env python3
"""setup_cmd: nothing to build; checks that the interpreters the checks use are there."""
import os, sys
for p in ("/opt/venv/bin/python", "/opt/veriftools/pyvenv/bin/python"):
    if not os.path.exists(p):
        sys.exit("missing " + p)
print("ok")
