#!/usr/bin/env python3
"""Exit 0 if the simulator of C12 failed to compile, and only because the generated bindings lack
what the glue refers to. Usage: glue_errors.py LOG"""
import re, sys
log = open(sys.argv[1], errors="replace").read()
if "error: could not compile `bindsim`" not in log:
    sys.exit(1)
places = re.findall(r"^error(?:\[E\d+\])?: .*\n *--> (\S+?):\d+", log, re.M)
sys.exit(0 if places and all(p == "src/glue.rs" for p in places) else 1)
