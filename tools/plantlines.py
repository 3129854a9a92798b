#!/usr/bin/python3
"""Development only: which lines of the original repository a planted change removes or replaces."""
import os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sorted(os.listdir(ROOT + '/seeded')):
    f = None; n = own = 0
    for l in open('%s/seeded/%s/patch.diff' % (ROOT, i)):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '-L', '%d,%d' % (ln, ln), f], capture_output=True, text=True).stdout
            n += 1; own += not b.startswith('^'); ln += 1
        elif l.startswith(' '): ln += 1
    print(i, 'removes', n, 'lines, from later commits', own, '' if n > own else '  <<<')
