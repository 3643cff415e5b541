#!/usr/bin/env python3
"""checks that the tools the framework needs are there (nothing has to be built ahead of the checks)"""
import os, shutil, sys
bad = [t for t in ('java', 'gcc', 'g++', 'cmake', 'ninja') if not shutil.which(t)]
bad += [j for j in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar') if not os.path.exists(j)]
if bad:
    print('missing:', bad)
    sys.exit(1)
print('ok')
