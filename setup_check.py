#!/usr/bin/env python3
'Checks that the tools which the checks use are there; builds nothing.'
import subprocess, sys
for cmd in (['/opt/venv/bin/python', '-c', 'import html5lib, ply, amara3.util'], ['python3-vt', '-c', 'import z3']):
    if subprocess.call(cmd, cwd='/'): sys.exit('missing: %s' % cmd)
