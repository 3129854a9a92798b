#!/usr/bin/python3
"""Development only: takes each repair back in a scratch copy and runs the check of its property: it must report the defect again."""
import re, subprocess, sys, tempfile, shutil, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plantcheck import sh, ROOT
want = sys.argv[1:]
for l in open(ROOT + '/known-findings.txt'):
    m = re.match(r'fixed: property=(P\d\d) (\w+) (.*)', l)
    if not m or (want and m.group(2)[:7] not in want): continue
    w = tempfile.mkdtemp(prefix='fix_', dir='/tmp')
    try:
        sh('git clone -q /repo %s/repo' % w)
        r = sh('git -C %s/repo -c user.name=x -c user.email=x revert --no-commit %s' % (w, m.group(2)))
        if r.returncode: print(m.group(2), m.group(1), 'CONFLICT', m.group(3)[:80], flush=True); continue
        r = sh('SIM_REPO=%s/repo ./check %s --tier quick --no-evidence --no-minimise --workers 4' % (w, m.group(1)), cwd=ROOT)
        v = re.findall(r'VIOLATION.*\n(.*)', r.stdout)
        print(m.group(2), m.group(1), 'caught' if r.returncode == 1 else 'MISSED rc %d' % r.returncode, '|', m.group(3)[:80], '|', v[0][:150] if v else '', flush=True)
    finally: shutil.rmtree(w)
