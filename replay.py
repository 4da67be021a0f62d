#!/usr/bin/env python3
"""replay.py FILE [-v]: rebuilds from /repo and replays a recorded violation."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from checks import CHECKS
j = json.load(open(sys.argv[1]))
b = CHECKS[j['property']]['bin']
if build.build([b], quiet=True): sys.exit(2)
sys.exit(subprocess.run(['%s/%s' % (build.OUT, b), 'replay', sys.argv[1]] + sys.argv[2:]).returncode)
