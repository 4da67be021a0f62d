#!/usr/bin/env python3
"""setup_cmd: checks the tools and builds the simulation binaries once."""
import shutil, sys, os
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
for t in ('clang++', 'ninja', 'protoc'):
    if not shutil.which(t): print('missing tool', t); sys.exit(1)
import build
from build_lists import TARGETS
sys.exit(build.build(sorted(TARGETS)))
