#!/usr/bin/python3
"""Runs the same cases several times - other numbers of workers, other order, other PYTHONHASHSEED, new interpreters - and compares
hashes of everything observed.  determinism.py [cases per property] [seeds...]"""
import os, sys, json, subprocess, time
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, ROOT + '/sim')

if len(sys.argv) > 1 and sys.argv[1] == '--child':
    import simbuild; b = simbuild.build()
    import simrun, engine, checks
    sim = simrun.Sim(b, simbuild.REPO); sim.alloc()
    out = {}
    for pid, seed, i in json.load(sys.stdin):
        c = checks.ALL[pid]()
        case = engine.norm(engine.make_case(c, seed, i, 'quick'))
        vs, h, _ = engine.outcome(c, sim, case); out['%s/%d/%d' % (pid, seed, i)] = h
    print(json.dumps(out)); sys.exit(0)

import runner, ctypes, random, checks
n = int(sys.argv[1]) if len(sys.argv) > 1 else 20
seeds = [int(x) for x in sys.argv[2:]] or [1, 2, 3]
jobs = [(p, s, i) for p in sorted(checks.ALL) for s in seeds for i in range(n)]
l = ctypes.CDLL(None); l.personality(l.personality(0xffffffff) | 0x0040000)


def sweep(w, hs, shuffle):
    js = list(jobs)
    if shuffle: random.Random(shuffle).shuffle(js)
    env = dict(os.environ, **runner.ENV); env.update(PYTHONHASHSEED=hs, SIM_STAGE='1')
    ps = []
    for k in range(w):
        p = subprocess.Popen(['/usr/bin/python3', os.path.abspath(__file__), '--child'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
        ps.append((p, js[k::w]))
    import threading
    out = {}

    def go(p, j): out.update(json.loads(p.communicate(json.dumps(j))[0]))
    ts = [threading.Thread(target=go, args=x) for x in ps]
    [t.start() for t in ts]; [t.join() for t in ts]
    return out


base = None; total = 0; bad = 0
for w, hs, sh in ((8, '0', 0), (8, '0', 1), (3, '12345', 2), (16, '77', 3), (40, 'random', 4)):
    t = time.time(); r = sweep(w, hs, sh); total += len(r)
    if base is None: base = r
    d = [k for k in base if r.get(k) != base[k]]; bad += len(d)
    print('%d processes, PYTHONHASHSEED=%s: %d cases, %d differ %s (%.0f s)' % (w, hs, len(r), len(d), d[:5], time.time() - t), flush=True)
sys.exit(1 if bad else 0)
