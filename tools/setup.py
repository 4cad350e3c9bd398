#!/usr/bin/env python3
"""Nothing has to be built: the specifications are interpreted by TLC, the drivers import /repo.  Checks that the tools are there."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in ('/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar', '/opt/venv/bin/python'):
    if not os.path.exists(f):
        sys.exit('missing ' + f)
subprocess.check_call(['java', '-version'], stderr=subprocess.DEVNULL)
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('setup ok')
