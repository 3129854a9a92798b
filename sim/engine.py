"""Seeded search, confirmation, minimisation and replay."""
import hashlib, json, os, pickle, random, re, select, signal, subprocess, sys, time, mmap, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
FAULTS = 'f_calloc f_np f_out f_fopen f_fs f_clock f_kill f_grant f_stall f_poolfresh f_poolreuse f_suave_reorder f_suave_dup f_suave_lose f_suave_worker f_suave_fail'.split()
FNAMES = dict(f_calloc='failed allocation in the library', f_np='failed allocation of array data', f_out='error or short write on standard output', f_fopen='file cannot be opened', f_fs='error or short write on a file (disk full)', f_clock='clock frozen, backwards, jumping, failing or far off', f_kill='process killed', f_grant='fewer threads granted than requested', f_stall='stalled thread passed over', f_poolfresh='new worker thread', f_poolreuse='reused worker thread', f_suave_reorder='samples reordered', f_suave_dup='sample evaluated twice', f_suave_lose='integrator worker lost', f_suave_worker='batch evaluated by another worker process', f_suave_fail='integrator reports that the accuracy is not reached')


class Invalid(Exception):
    """the program makes no sense (only while minimising)"""


class V:
    """a violation: sig names what is broken (stable under minimisation), text tells the details"""

    def __init__(self, sig, text): self.sig = sig; self.text = text

    def __repr__(self): return '%s: %s' % (self.sig, self.text)


def tup(x):
    """JSON turns tuples into lists; descriptors and operations are tuples"""
    if isinstance(x, list): return tuple(tup(v) for v in x)
    if isinstance(x, dict): return {k: tup(v) for k, v in x.items()}
    return x


def norm(case): return json.loads(json.dumps(case))


def fix(case):
    c = dict(case)
    for k in ('prog', 'sched'):
        if k in c: c[k] = [tup(o) for o in c[k]]
    if 'meta' in c: c['meta'] = {k: tup(v) for k, v in c['meta'].items()}
    if 'fs' in c: c['fs'] = {k: (v.encode('latin-1') if isinstance(v, str) else v) for k, v in c['fs'].items()}
    return c


class Ctx:
    def __init__(self, sim):
        import model
        self.sim = sim; self.model = model; self.memo = {}
        self.stats = dict(runs=0, refs=0, steps=0, sim_ns=0, switches=0, preempt=0, decisions=0, regions=0, multi=0, samples=0, calls=0, wall=0., teams_max=0, ops=0, barriers=0, crit=0)
        self.faults = {f: 0 for f in FAULTS}; self.frun = {f: 0 for f in FAULTS}
        self.ended = {}; self.strat = {}
        self.sched = set(); self.states = set(); self.cases = set(); self.hash = hashlib.sha256(); self.counting = True
        self.keep = False; self.last = None; self.timeouts = 0

    def run(self, case, **over):
        job = dict(variant=case.get('variant', 'tsan'), prog=case['prog'], cfg=dict(case.get('cfg') or {}), fs=case.get('fs'), sched=case.get('sched'), opts=case.get('opts') or {})
        for k, v in over.items():
            if k == 'cfg': job['cfg'].update(v)
            else: job[k] = v
        if self.keep: job['want_trace'] = True
        r = self.sim.run(job)
        if r['timeout']: self.timeouts += 1
        if r['status'] == 0 and not r['timeout']:
            raise RuntimeError('a simulated process ended without a word: wait status %r, job %r' % (r['wstatus'], job))
        for v in r['vio']:
            if v.startswith('sim|'): raise RuntimeError('simulator: ' + v)
        if self.counting:
            s = self.stats; s['runs'] += 1
            for a, b in (('steps', 'steps'), ('sim_ns', 'sim_ns'), ('switches', 'switches'), ('preempt', 'preempt'), ('decisions', 'decisions'), ('regions', 'regions'), ('multi', 'multi_regions'), ('samples', 'n_samples'), ('barriers', 'n_barrier'), ('crit', 'n_crit')): s[a] += r[b]
            s['ops'] += len(r['ops']); s['teams_max'] = max(s['teams_max'], r['teams_max'])
            for f in FAULTS:
                self.faults[f] += r[f]; self.frun[f] += r[f] > 0
            self.ended[r['ended']] = self.ended.get(r['ended'], 0) + 1
            import simrun
            st = simrun.STRATEGIES[int(job['cfg'].get('strategy', 0))]; self.strat[st] = self.strat.get(st, 0) + 1
            if r['switches'] and len(self.sched) < 400000: self.sched.add(r['sched_hash'])
            if len(self.states) < 400000: self.states.add(r['ev_hash'])
        self.hash.update(repr((r['status'], r['exit_code'], r['steps'], r['sched_hash'], r['ev_hash'], r['vio'], [(o['res'], o['live']) for o in r['ops']], r['out'], r['err'])).encode())
        self.last = r
        return r

    def ref(self, case, kind, key):
        """The result of a fresh process: one thread, serial, no faults, nothing done before."""
        rk = key if kind == 'run' else key[0] if kind == 'eval' else (None,)
        sn = int((case.get('cfg') or {}).get('suave_n', 24)) if rk[0] in ('Spectrum2Loop', 'A2Loop') or kind == 'c2' else 24
        return self.fresh(case, self.model.canonical_prog(kind, key), dict(suave_n=sn))

    def fresh(self, case, prog, cfg=None, last=True):
        k = (case.get('variant', 'tsan'), repr(prog), repr(sorted((cfg or {}).items())))
        if k not in self.memo:
            if len(self.memo) > 3000: self.memo.clear()
            c = dict(seed=1, strategy=0, nprocs=1, pool_mode=0, junk_mode=2, quarantine=-1); c.update(cfg or {})
            keep, self.keep, cnt, self.counting = self.keep, False, self.counting, False
            r = self.run(dict(variant=case.get('variant', 'tsan'), prog=prog, cfg=c)); self.stats['refs'] += 1
            self.keep, self.counting = keep, cnt
            if r['status'] != 1: res = ('bad', 'a fresh process %s' % describe_end(r))
            else:
                bad = [(o['i'], o['res']) for o in r['ops'] if o['res'][0] != 'ok']
                res = ('bad', 'in a fresh process operation %r fails: %s: %s' % (prog[bad[0][0]], bad[0][1][1], bad[0][1][2])) if bad else ('ok', r['ops'][-1]['res'][1] if last else r)
            self.memo[k] = res
        return self.memo[k]


def describe_end(r):
    e = r['ended']
    if r.get('timeout'): return 'had not ended after the time limit'
    if e == 'crash': return 'crashed (signal %d, last block pc=%d)' % (r['signo'], r['pc'])
    if e == 'exit': return 'left with exit status %d%s' % (r['exit_code'], ' saying %r' % r['err'][:200] if r['err'] else '')
    if e == 'killed': return 'was killed'
    return 'ended: ' + e


def symbolise(ctx, variant, text):
    def f(m):
        pc = int(m.group(2))
        if pc < 0: return m.group(1) + {-2: 'numpy', -3: 'integrator'}.get(pc, '?')
        lib = '%s/libregpt_%s.so' % (ctx.sim.build, variant)
        try:
            o = subprocess.run(['addr2line', '-f', '-e', lib, hex(pc - (1 if 'data' not in m.group(1) else 0))], capture_output=True, text=True, timeout=20).stdout.split('\n')
            return '%s%s(%s)' % (m.group(1), o[0], os.path.basename(o[1].split(' ')[0]))
        except Exception: return m.group(0)
    text = re.sub(r'((?:alloc_|free_|first_free_|second_free_)?pc=)(-?\d+)', f, text)

    def g(m):
        a = int(m.group(1))
        lib = '%s/libregpt_%s.so' % (ctx.sim.build, variant)
        try:
            best = None
            for l in subprocess.run(['nm', '-S', lib], capture_output=True, text=True, timeout=20).stdout.splitlines():
                p = l.split()
                if len(p) == 4 and int(p[0], 16) <= a < int(p[0], 16) + int(p[1], 16): best = '%s+%d' % (p[3], a - int(p[0], 16))
            return 'variable ' + best if best else m.group(0)
        except Exception: return m.group(0)
    return re.sub(r'\bdata=(\d+)', g, text)


# ------------------------------------------------------------------------------------------ search
def seed_of(seed, prop, i): return int.from_bytes(hashlib.sha256(('%d/%s/%d' % (seed, prop, i)).encode()).digest()[:8], 'big')


def make_case(check, seed, i, tier):
    rng = random.Random(seed_of(seed, check.id, i))
    c = check.gen(rng, i, tier); c['seed_index'] = i
    return c


def judge(check, ctx, case):
    return check.judge(fix(case), ctx)


def worker(check, sim, w, W, N, seed, tier, deadline, flag, fd):
    sim.alloc(); ctx = Ctx(sim); out = dict(found=[], errors=[], done=0, samples=[])
    try:
        for i in range(w, N, W):
            if flag[0] and i > int.from_bytes(flag[8:16], 'little'): break
            if time.time() > deadline: break
            case = norm(make_case(check, seed, i, tier))
            n0 = len(ctx.sched), ctx.stats['multi'], sum(ctx.faults.values())
            out['done'] += 1
            try: vs = judge(check, ctx, case)
            except Exception:
                out['errors'].append('case %d: %s' % (i, traceback.format_exc()))
                if len(out['errors']) > 20: break
                continue
            nontrivial = check.nontrivial(case, ctx, n0) if hasattr(check, 'nontrivial') else (ctx.stats['multi'] > n0[1] or sum(ctx.faults.values()) > n0[2])
            if nontrivial: ctx.cases.add(hashlib.sha256(json.dumps([case['prog'], case.get('cfg'), case.get('meta')], sort_keys=True).encode()).digest()[:10])
            if len(out['samples']) < 1 and nontrivial: out['samples'].append(case)
            vs = [v for v in vs if v.sig not in check.known]
            if vs:
                out['found'].append((i, case, [(v.sig, v.text) for v in vs]))
                if not flag[0] or i < int.from_bytes(flag[8:16], 'little'): flag[8:16] = i.to_bytes(8, 'little'); flag[0] = 1
                break
    except BaseException:
        out['errors'].append(traceback.format_exc())
    out['known'] = getattr(check, 'known_seen', {})
    out['stats'] = ctx.stats; out['faults'] = ctx.faults; out['frun'] = ctx.frun; out['ended'] = ctx.ended; out['strat'] = ctx.strat
    out['sched'] = ctx.sched; out['states'] = ctx.states; out['cases'] = ctx.cases; out['timeouts'] = ctx.timeouts
    out['cov'] = {k: v.nonzero()[0] for k, v in sim.cov.items()}; out['extra'] = getattr(check, 'extra', {})
    data = pickle.dumps(out)
    with os.fdopen(fd, 'wb') as f: f.write(data)


def search(check, sim, N, seed, tier, wall, W):
    flag = mmap.mmap(-1, 4096); deadline = time.time() + wall
    kids = []
    for w in range(W):
        a, b = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(a)
            for _, r in kids: os.close(r)
            try: worker(check, sim, w, W, N, seed, tier, deadline, flag, b)
            finally: os._exit(0)
        os.close(b); kids.append((pid, a))
    bufs = {a: [] for _, a in kids}; open_ = set(bufs)
    while open_:
        for fd in select.select(list(open_), [], [], 5)[0]:
            d = os.read(fd, 1 << 20)
            if d: bufs[fd].append(d)
            else: open_.discard(fd); os.close(fd)
    for pid, _ in kids: os.waitpid(pid, 0)
    outs = []
    for _, a in kids:
        if not bufs[a]: raise RuntimeError('a worker of the search died')
        outs.append(pickle.loads(b''.join(bufs[a])))
    return outs


# ------------------------------------------------------------------------------------------ minimisation
def same(check, ctx, case, sig, budget):
    if time.time() > budget: return None
    try: vs = judge(check, ctx, norm(case))
    except Invalid: return None
    except RuntimeError: return None
    for v in vs:
        if v.sig == sig: return v
    return None


def ddmin(items, test):
    n = 2
    while len(items) >= 1:
        size = max(1, len(items) // n); cut = False
        for s in range(0, len(items), size):
            cand = items[:s] + items[s + size:]
            if test(cand): items = cand; n = max(2, n - 1); cut = True; break
        if not cut:
            if size == 1: break
            n = min(len(items), 2 * n)
    return items


def minimise(check, ctx, case, sig, seconds=45):
    end = time.time() + seconds
    log = dict(operations=len(case['prog']))

    def t(c): return same(check, ctx, c, sig, end) is not None
    # 1. operations
    if not case.get('fixed_prog'):
        tag = list(enumerate(case['prog']))

        def with_prog(items):
            c = dict(case, prog=[o for _, o in items])
            return check.remap(c, [i for i, _ in items]) if hasattr(check, 'remap') else c

        strict = check.valid(case['prog']) if hasattr(check, 'valid') else False

        def test(items):
            try: c = with_prog(items)
            except Invalid: return False
            if strict and not check.valid(c['prog']): return False
            return t(c)
        items = ddmin(tag, test)
        case = with_prog(items)
    # 2. faults and configuration, one by one back to the default
    import simrun
    for k in sorted(case.get('cfg') or {}):
        if k in ('seed', 'suave_n', 'race_on', 'budget') or k in case.get('keep_cfg', ()): continue
        c = dict(case, cfg={a: b for a, b in case['cfg'].items() if a != k})
        if k == 'sp1' or k == 'sp2': continue
        if t(c): case = c
    # 3. smaller numbers: threads
    for i, op in enumerate(case['prog']):
        if op[0] == 'run' and len(op) > 2 and isinstance(op[2], dict):
            for n in (1, 2, 3, 4):
                if n >= op[2].get('nthreads', 8): break
                p = list(case['prog']); p[i] = list(op[:2]) + [dict(op[2], nthreads=n)]
                if t(dict(case, prog=p)): case = dict(case, prog=p); break
        if op[0] == 'terms':
            d = op[2]
            if d[0] == 'K':
                for n in (1, 2, 3, 4):
                    if n >= d[1]: break
                    p = list(case['prog']); p[i] = list(op[:2]) + [[d[0], n] + list(d[2:])]
                    if t(dict(case, prog=p)): case = dict(case, prog=p); break
    # 4. the schedule: as an explicit list of switches, then without the unneeded ones
    st = (case.get('cfg') or {}).get('strategy', 0)
    if st and not case.get('fixed_sched'):
        ctx.keep = True; ctx.last = None
        main = []
        orig = ctx.run

        def spy(c, **o):
            r = orig(c, **o)
            if ctx.keep and r.get('trace') is not None and (c.get('cfg') or {}).get('strategy') == st: main.append((r['trace'], r['trace_lost']))
            return r
        ctx.run = spy
        try: v = same(check, ctx, case, sig, end + 20)
        finally: ctx.run = orig; ctx.keep = False
        if v and len(main) == 1 and not main[0][1]:
            c = dict(case, sched=list(main[0][0]), cfg=dict(case['cfg'], strategy=9))
            log['switches'] = len(main[0][0])
            if t(c):
                case = c
                pre = ddmin(list(case['sched']), lambda s: t(dict(case, sched=s)))
                case = dict(case, sched=pre)
    log['operations_left'] = len(case['prog']); log['switches_left'] = len(case.get('sched') or [])
    case['minimised'] = log
    return norm(case)


def outcome(check, sim, case):
    """violations and a hash of everything observed, from a context of its own"""
    ctx = Ctx(sim)
    vs = judge(check, ctx, norm(case))
    return vs, ctx.hash.hexdigest(), ctx


def replay(check, sim, path, quiet=False):
    rec = json.load(open(path))
    vs, h, ctx = outcome(check, sim, rec['case'])
    hit = [v for v in vs if v.sig == rec['signature']]
    return hit, h == rec['hash'], h, ctx
