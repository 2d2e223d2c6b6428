#!/usr/bin/env python3-vt
"""setup_cmd: the tools the checks need are there, and the verifier rejects what it must reject."""
import os, subprocess, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import z3
print('z3', z3.get_version_string(), '| cvc5', subprocess.run(['cvc5', '--version'], capture_output=True, text=True).stdout.split('\n')[0])
p = os.path.join(here, 'tools', 'brokenbodies.py')
if os.path.exists(p): sys.exit(subprocess.run([sys.executable, p]).returncode)
