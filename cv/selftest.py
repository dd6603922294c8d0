#!/usr/bin/env python3
"""setup: the tools a check needs are there, and the SAT front end builds and agrees with kissat on a small instance."""
import subprocess, tempfile, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ('goto-cc', 'goto-instrument', 'cbmc', 'kissat', 'gcc', 'g++', 'objcopy', 'stdbuf'):
    if not shutil.which(t): sys.exit('missing tool: ' + t)
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call(['g++', '-O2', '-o', d + '/satfront', V + '/tools/satfront.cpp'])
    for cnf, rc in (('p cnf 2 3\n1 2 0\n-1 2 0\n-2 0\n', 20), ('p cnf 2 2\n1 2 0\n-1 0\n', 10)):
        open(d + '/a.cnf', 'w').write(cnf)
        assert subprocess.run([d + '/satfront', d + '/a.cnf'], stdout=subprocess.PIPE).returncode == rc, cnf
print('ok')
