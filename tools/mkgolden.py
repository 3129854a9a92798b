#!/usr/bin/python3
"""Records golden/settings.json from the working tree of /repo (only to be run on an accepted tree)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT + '/sim')
import simbuild, simrun, engine, checks, simops
sim = simrun.Sim(simbuild.build(), simbuild.REPO); ctx = engine.Ctx(sim); out = {}
for name, prog, sn in checks.golden_entries():
    st, r = ctx.fresh({}, prog, dict(suave_n=sn))
    assert st == 'ok', (name, r)
    out[name] = {c: simops.unpack(v).ravel().tolist() for c, v in r.items()}
    ctx.memo.clear()
os.makedirs(ROOT + '/golden', exist_ok=True)
with open(ROOT + '/golden/settings.json', 'w') as f: f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in out.items()) + '\n}\n')
print(len(out), 'entries')
