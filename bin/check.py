#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on the working tree of the repository"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.dont_write_bytecode = True
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import importlib, vlib
MODULES = ['p_run', 'p_parse', 'p_fit', 'p_fs', 'p_build', 'p_san', 'p_robust', 'p_doc', 'p_side']
pid = sys.argv[1]
for m in MODULES:
    if not os.path.exists(os.path.join(vlib.VERIF, 'lib', m + '.py')):
        continue
    fn = getattr(importlib.import_module(m), pid, None)
    if fn:
        sys.exit(vlib.main(pid, fn))
print('no check for', pid)
sys.exit(2)
