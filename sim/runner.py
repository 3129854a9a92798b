"""Command line of a check: build, search, confirm, minimise, record, replay."""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
ENV = dict(PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', TZ='UTC')
DROP = ['LD_PRELOAD', 'PYTHONPATH', 'PYTHONSTARTUP', 'CUBACORES', 'MALLOC_PERTURB_', 'NUMPY_EXPERIMENTAL_ARRAY_FUNCTION', 'NPY_DISABLE_CPU_FEATURES']
REAL = ['all C sources of the library (src/*.c, compiled from the working tree with every memory access, atomic operation and basic block calling the simulator)', 'the Python package (pyregpt/pyregpt.py of the working tree)', 'CPython, numpy and the C mathematical library']
STUB = ['OpenMP runtime: threads are coroutines of the simulator, scheduled one at a time', 'malloc/calloc/free of the library and data allocation of numpy arrays', 'stdio (standard output, files): an in-memory directory with faults', 'clock', 'Cuba (Suave): a quasi-random integrator with simulated worker processes']


def reexec():
    """the same address space and the same hashes in every run"""
    env = dict(os.environ)
    if env.get('SIM_STAGE') == '1': return
    env.update(ENV); env['SIM_STAGE'] = '1'
    for n in DROP: env.pop(n, None)
    for n in list(env):
        if n.startswith(('OMP_', 'GOMP_', 'KMP_')) and n not in ENV: env.pop(n)
    try:
        import ctypes
        l = ctypes.CDLL(None); l.personality(l.personality(0xffffffff) | 0x0040000)
    except Exception: pass
    sys.stdout.flush()
    os.execve('/usr/bin/python3', ['/usr/bin/python3', os.path.join(ROOT, 'check')] + sys.argv[1:], env)


def known_findings(prop):
    out = {}
    f = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            # known: property=<id> signature=<signature> <what fails>
            p = l.strip().split(None, 3)
            if len(p) == 4 and p[0] == 'known:' and p[1] == 'property=' + prop and p[2].startswith('signature='): out[p[2][10:]] = p[3]
    return out


def main(argv):
    t0 = time.time()
    reexec()
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument('id'); a.add_argument('--tier', default=None); a.add_argument('--seed', type=int, default=None); a.add_argument('--n', type=int); a.add_argument('--workers', type=int); a.add_argument('--wall', type=float)
    a.add_argument('--replay'); a.add_argument('--index', type=int); a.add_argument('--no-minimise', action='store_true'); a.add_argument('--quiet', action='store_true'); a.add_argument('--no-evidence', action='store_true')
    o = a.parse_args(argv)
    tier = o.tier or os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = o.seed if o.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    sys.path.insert(0, HERE)
    import simbuild
    try: build = simbuild.build()
    except RuntimeError as e:
        print('check %s: no answer: %s' % (o.id, e)); return 2
    t_build = time.time() - t0
    import simrun, engine, checks
    try: sim = simrun.Sim(build, simbuild.REPO)
    except Exception as e:
        import traceback; traceback.print_exc()
        print('check %s: no answer: %r' % (o.id, e)); return 2
    check = checks.ALL[o.id]()
    kf = known_findings(o.id); check.known = set(kf); check.known_seen = {}

    if o.replay:
        rec = json.load(open(o.replay))
        hit, same, h, ctx = engine.replay(check, sim, o.replay)
        for v in hit: print('  %s: %s' % (v.sig, v.text))
        if hit and same: print('REPRODUCED exactly property=%s replay=%s hash=%s' % (o.id, o.replay, h[:16])); return 1
        if hit: print('REPRODUCED property=%s replay=%s (hash %s, recorded %s)' % (o.id, o.replay, h[:16], rec['hash'][:16])); return 1
        print('NOT REPRODUCED property=%s replay=%s' % (o.id, o.replay)); return 0
    if o.index is not None:  # a single case of the search
        case = engine.norm(engine.make_case(check, seed, o.index, tier))
        print(json.dumps(case))
        vs, h, ctx = engine.outcome(check, sim, case)
        for v in vs: print(v)
        print(h); return 1 if vs else 0

    N = o.n or (check.n_quick if tier == 'quick' else check.n_thorough)
    W = o.workers or min(16, os.cpu_count() or 1)
    wall = o.wall or check.wall[tier == 'thorough']
    outs = engine.search(check, sim, N, seed, tier, wall, W)
    t_search = time.time() - t0 - t_build
    errors = [e for x in outs for e in x['errors']]
    found = sorted((f for x in outs for f in x['found']), key=lambda f: f[0])
    done = sum(x['done'] for x in outs)
    lines = []; unconfirmed = []; status = 0; seen = set(); reported = []
    for i, case, vs in found:
        if reported and (i, ) and len(reported) >= 1: break
        sigs = [s for s, _ in vs if s not in seen]
        if not sigs: continue
        sig = sigs[0]
        rec, why = confirm(check, sim, engine, case, sig, seed, tier, not o.no_minimise, o.id)
        if rec is None: unconfirmed.append(dict(index=i, signature=sig, text=dict(vs)[sig], why=why)); continue
        seen.add(sig); reported.append(rec)
        print('VIOLATION property=%s replay=%s' % (o.id, rec['path']))
        print('  %s: %s' % (sig, rec['text']))
        print('  seed %d, case %d; minimised to %d operations%s' % (seed, i, len(rec['case']['prog']), ', %d switches' % len(rec['case']['sched']) if rec['case'].get('sched') is not None else ''))
        status = 1
    for s, t in kf.items(): print('KNOWN-FINDING: property=%s %s' % (o.id, t))
    # ------------------------------------------------------------------ evidence
    st = {}
    for x in outs:
        for k, v in x['stats'].items(): st[k] = max(st.get(k, 0), v) if k == 'teams_max' else st.get(k, 0) + v
    faults = {f: sum(x['faults'][f] for x in outs) for f in engine.FAULTS}; frun = {f: sum(x['frun'][f] for x in outs) for f in engine.FAULTS}
    sched = set().union(*[x['sched'] for x in outs]); states = set().union(*[x['states'] for x in outs]); cases = set().union(*[x['cases'] for x in outs])
    ended = {}; strat = {}; extra = {}
    for x in outs:
        for k, v in x['ended'].items(): ended[k] = ended.get(k, 0) + v
        for k, v in x['strat'].items(): strat[k] = strat.get(k, 0) + v
        for k, v in x['extra'].items(): extra[k] = extra.get(k, 0) + v
    cov = {}
    for v in ('tsan', 'kasan'):
        u = set()
        for x in outs: u.update(x['cov'].get(v, ()))
        if u: cov[v] = len(u)
    blocks = json.load(open(build + '/blocks.json')) if os.path.exists(build + '/blocks.json') else {}
    el = time.time() - t0
    runs = st['runs'] + st['refs']
    ev = dict(property=o.id, tier=tier, seed=seed, level=check.level, wall_s=round(el, 2), violations=len(reported),
        coverage=dict(evaluations=done, distinct_nontrivial=len(cases), rule=check.rule, samples=[s for x in outs for s in x['samples']][:2],
            simulated_runs=st['runs'], reference_runs=st['refs'], cases_planned=N, seeds=done, runs_per_hour=int(runs / max(t_search, 1e-9) * 3600), seeds_per_hour=int(done / max(t_search, 1e-9) * 3600),
            simulated_time_s=round(st['sim_ns'] * 1e-9, 3), steps=st['steps'], operations=st['ops'],
            parallel_regions=st['regions'], parallel_regions_with_several_threads=st['multi'], largest_team=st['teams_max'], context_switches=st['switches'], preemptions=st['preempt'], scheduling_decisions=st['decisions'], barriers=st['barriers'], critical_sections=st['crit'], integrand_samples=st['samples'],
            faults_injected={engine.FNAMES[f]: dict(times=faults[f], runs=frun[f]) for f in engine.FAULTS if faults[f]}, faults_never_injected=[engine.FNAMES[f] for f in engine.FAULTS if not faults[f]],
            distinct_interleavings=len(sched), distinct_interleavings_measure='hash of the sequence of (thread, point) of every context switch of a run', distinct_executions=len(states), distinct_executions_measure='hash of all events of a run (allocations, switches, output, samples)',
            scheduling_strategies=strat, processes_ended=ended, basic_blocks_reached=cov, basic_blocks_total=blocks, workers=W, build_s=round(t_build, 2), search_s=round(t_search, 2), stopped_by_time=done < N and not found, time_limits_hit=sum(x['timeouts'] for x in outs), unconfirmed=unconfirmed, errors=len(errors), components_real=REAL, components_stubbed=STUB, **extra),
        assumptions=['threads switch at accesses to shared memory, basic blocks and synchronisation: weaker orderings of the processor are not simulated (conflicting unordered accesses are reported by P02)', 'the simulated executions are compiled by gcc -O2 with instrumentation from the working tree; other compilers and options are not covered', 'sampled, not exhaustive: seeded search over %d cases' % done])
    if reported: ev['coverage']['violation'] = [dict(signature=r['signature'], text=r['text'], replay=r['path']) for r in reported]
    if not o.no_evidence:
        os.makedirs(ROOT + '/evidence', exist_ok=True)
        tmp = ROOT + '/evidence/.%s.%d' % (o.id, os.getpid())
        with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
        os.rename(tmp, ROOT + '/evidence/%s.json' % o.id)
    if not o.quiet: print('%s %s seed %d: %d cases, %d simulated runs (%d references), %d interleavings, %d faults, %.1f s (build %.1f)%s' % (o.id, tier, seed, done, st['runs'], st['refs'], len(sched), sum(faults.values()), el, t_build, ', %d not confirmed' % len(unconfirmed) if unconfirmed else ''))
    if errors:
        sys.stderr.write('%d cases without an answer; the first:\n%s\n' % (len(errors), errors[0]))
        if not status and (len(errors) > max(3, done // 50)): print('check %s: no answer' % o.id); return 2
    for u in unconfirmed: sys.stderr.write('not confirmed: %r\n' % (u,))
    return status


def confirm(check, sim, engine, case, sig, seed, tier, mini, prop):
    """the same seed twice with the same outcome, then a fresh process on the recorded file"""
    def once(c):
        vs, h, ctx = engine.outcome(check, sim, c)
        for v in vs:
            if v.sig == sig: return v, h, ctx
        return None, h, ctx
    v1, h1, _ = once(case); v2, h2, ctx = once(case)
    if v1 is None or v2 is None: return None, 'did not happen again'
    full = case
    cands = [full]
    if mini:
        try: cands.insert(0, engine.minimise(check, engine.Ctx(sim), json.loads(json.dumps(full)), sig))
        except Exception:
            import traceback; traceback.print_exc()
    os.makedirs(ROOT + '/replays', exist_ok=True)
    for c in cands:
        v, h, ctx = once(c)
        if v is None: continue
        name = '%s-%s-%s.json' % (prop, ''.join(ch if ch.isalnum() or ch in '-_' else '_' for ch in sig)[:40], h[:10])
        path = ROOT + '/replays/' + name
        rec = dict(property=prop, signature=sig, text=v.text, hash=h, seed=seed, tier=tier, case=c, found=dict(index=case.get('seed_index'), operations=len(full['prog'])), how='/verif/check %s --replay %s' % (prop, path))
        with open(path, 'w') as f: json.dump(rec, f, indent=1)
        env = {k: x for k, x in os.environ.items() if k != 'SIM_STAGE'}
        try: r = subprocess.run(['/usr/bin/python3', ROOT + '/check', prop, '--replay', path], capture_output=True, text=True, env=env, timeout=240)
        except subprocess.TimeoutExpired: continue
        if r.returncode == 1 and 'REPRODUCED' in r.stdout and 'NOT REPRODUCED' not in r.stdout:
            rec['path'] = path; rec['exact'] = 'exactly' in r.stdout
            return rec, None
    return None, 'not reproduced by a fresh process'
