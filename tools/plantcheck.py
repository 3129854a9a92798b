#!/usr/bin/python3
"""Development only: confirms planted changes in scratch copies and runs a check against them.
usage: plantcheck.py [--no-tests] [--checks P01,P02 | --all-checks] [--seed N] id...
No check reads the planted changes."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    try: return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def make_copy(w):
    """a copy of /repo with build and test scripts of its own"""
    os.makedirs(w)
    sh('cp -a /repo %s/repo' % w)
    sh('rm -rf %s/repo/_build' % w)
    for f in ('build.sh', 'test.sh', 'nocuba.mk', 'results.py', 'BUILD.json', 'BASELINE.json'):
        if os.path.exists('/opt/vp/' + f):
            t = open('/opt/vp/' + f).read().replace('/opt/vp/', w + '/vp/').replace('/repo/', w + '/repo/').replace('"/repo"', '"%s/repo"' % w)
            t = re.sub(r'(?<![\w/])/repo(?!\w)', w + '/repo', t)
            os.makedirs(w + '/vp', exist_ok=True); open(w + '/vp/' + f, 'w').write(t)


def demo(w, d):
    e = w + '/demo'; shutil.rmtree(e, ignore_errors=True)
    shutil.copytree(d, e, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
    t = time.time(); r = sh('bash %s/demo.sh' % e, cwd=w + '/repo', timeout=300)
    return r.returncode, time.time() - t, (r.stdout + r.stderr)[-300:]


def one(i, tests, checks, seed):
    d = ROOT + '/seeded/' + i; out = ['== %s (%s)' % (i, json.load(open(d + '/meta.json'))['property'])]
    w = tempfile.mkdtemp(prefix='plant_%s_' % i, dir='/tmp') + '/w'
    try:
        make_copy(w)
        r = sh('bash %s/vp/build.sh' % w)
        if r.returncode: return out + ['  base build failed ' + r.stderr[-300:]]
        if tests:
            c, t, o = demo(w, d); out.append('  demo unpatched: %d (%.1fs) %s' % (c, t, o if c else 'ok'))
        r = sh('git -C %s/repo apply %s/patch.diff' % (w, d))
        if r.returncode: return out + ['  patch does not apply ' + r.stderr]
        r = sh('bash %s/vp/build.sh' % w)
        if r.returncode: return out + ['  patched build failed ' + r.stderr[-300:]]
        if tests:
            c, t, o = demo(w, d); out.append('  demo patched: %d (%.1fs) %s' % (c, t, 'NOT DETECTED ' + o if not c else o.strip()[-200:]))
            r = sh('bash %s/vp/test.sh %s/t.json' % (w, w))
            try: p = set(json.load(open(w + '/t.json'))['passed'])
            except Exception: p = set()
            miss = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in p]
            out.append('  tests: ' + ('all stable pass' if not miss else 'FAIL ' + ' '.join(miss)))
        for c in checks or [json.load(open(d + '/meta.json'))['property']]:
            t = time.time()
            r = sh('SIM_REPO=%s/repo ./check %s --tier quick --seed %d --no-evidence --workers 4' % (w, c, seed), cwd=ROOT, timeout=900)
            v = re.findall(r'VIOLATION.*\n.*\n.*', r.stdout)
            out.append('  check %s: rc %d %.0fs %s' % (c, r.returncode, time.time() - t, v[0].replace('\n', ' | ')[:400] if v else (r.stdout + r.stderr)[-300:].strip()))
    finally: shutil.rmtree(os.path.dirname(w), ignore_errors=True)
    return out


if __name__ == '__main__':
    a = sys.argv[1:]; tests = True; checks = None; seed = 1; ids = []
    while a:
        x = a.pop(0)
        if x == '--no-tests': tests = False
        elif x == '--checks': checks = a.pop(0).split(',')
        elif x == '--all-checks': checks = ['P%02d' % j for j in range(1, 21)]
        elif x == '--seed': seed = int(a.pop(0))
        else: ids.append(x)
    ids = ids or sorted(os.listdir(ROOT + '/seeded'))
    with ThreadPoolExecutor(2) as ex:
        for o in ex.map(lambda i: one(i, tests, checks, seed), ids): print('\n'.join(o), flush=True)
