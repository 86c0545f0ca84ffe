#!/usr/bin/env python3
"""Setup: nothing to build; checks that the tools are there."""
import shutil, subprocess, sys
for t in ('clang++-18', 'c++filt', 'python3-vt', 'cvc5'):
    if not shutil.which(t): sys.exit('missing tool: ' + t)
subprocess.check_call(['python3-vt', '-c', 'import z3; print("z3", z3.get_version_string())'])
