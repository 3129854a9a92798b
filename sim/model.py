"""The reference model: what each operation of a program should leave behind, kept symbolically.

The model knows nothing about the code.  It keeps, per object, the linear spectrum and the output wavenumbers it
should be working on, and the settings in force as documented; the expected result of a calculation is then the
one a fresh process gives for exactly these (one thread, no faults, nothing else done before)."""
import numpy as np
import simops

CLASSES = ['Spectrum1Loop', 'Spectrum2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop', 'B1Loop', 'B2Loop']
FIELDS = {
    'Spectrum1Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
    'Spectrum2Loop': ['k', 'pk_lin', 'sigmad2', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree'],
    'Bias1Loop': ['k', 'pk_lin', 'sigmad2', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'sigma3sq'],
    'A1Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'A2Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'B1Loop': ['k', 'pk_lin', 'sigmad2', 'pk'], 'B2Loop': ['k', 'pk_lin', 'sigmad2', 'pk']}
AB = {'Spectrum1Loop', 'Spectrum2Loop'}
# settings by kind
QSET = ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'bias_1loop_q', 'A_1loop_q', 'A_2loop_I_q', 'B_q']
RSET = ['gamma3_tree_q', 'A_2loop_II_III_q']
MSET = ['gamma2_tree_mu', 'bias_1loop_mu', 'A_1loop_mu', 'A_2loop_I_mu', 'B_mu']
PSET = ['spectrum_1loop_pk_lin', 'spectrum_2loop_pk_lin', 'bias_1loop_pk_lin', 'bispectrum_1loop_pk_lin', 'A_1loop_pk_lin', 'A_2loop_pk_lin', 'B_pk_lin']
CUTS = ['spectrum_1loop', 'spectrum_2loop', 'bispectrum_1loop', 'bias_1loop', 'A_1loop', 'A_2loop', 'B']
GROUPS = {
    'spectrum_1loop_q': ['gamma1_1loop_q', 'gamma2_tree_q'],
    'gamma2_1loop_q': ['gamma2d_1loop_q', 'gamma2t_1loop_q'],
    'spectrum_2loop_q': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q'],
    'A_2loop_q': ['A_2loop_I_q', 'A_2loop_II_III_q'],
    'all_q': QSET + RSET, 'all_mu': MSET, 'all': QSET + RSET + MSET, 'all_pklin': PSET}
# what a calculation depends on (settings, cutoffs); everything else must not matter
S1 = ['gamma1_1loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'spectrum_1loop_pk_lin', 'cut:spectrum_1loop']
USES = {
    'Spectrum1Loop': S1,
    'Spectrum2Loop': ['gamma1_1loop_q', 'gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'gamma2d_1loop_q', 'gamma2t_1loop_q', 'gamma3_tree_q', 'spectrum_2loop_pk_lin', 'cut:spectrum_2loop'],
    'Bias1Loop': ['bias_1loop_q', 'bias_1loop_mu', 'bias_1loop_pk_lin', 'cut:bias_1loop'],
    'A1Loop': ['A_1loop_q', 'A_1loop_mu', 'A_1loop_pk_lin', 'cut:A_1loop'],
    'A2Loop': ['A_2loop_I_q', 'A_2loop_I_mu', 'A_2loop_II_III_q', 'A_2loop_pk_lin', 'cut:A_2loop', 'bispectrum_1loop_pk_lin', 'cut:bispectrum_1loop', 'gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q'],
    'B1Loop': ['B_q', 'B_mu', 'B_pk_lin', 'cut:B'],
    'B2Loop': ['B_q', 'B_mu', 'B_pk_lin', 'cut:B'] + S1,
}
BI = ['bispectrum_1loop_pk_lin', 'cut:bispectrum_1loop', 'gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q']
INTERPOL = ('poly', 'lin')


class Settings:
    """name -> overrides; absent means the default."""

    def __init__(self):
        self.v = {}

    def prec(self, calculation='all_q', n=0, min=1., max=-1., interpol='test'):
        for c in GROUPS.get(calculation, [calculation]):
            if c in PSET:
                if interpol in INTERPOL: self.v[c] = dict(interpol=interpol)
                continue
            d = dict(self.v.get(c, {})); change = False
            if c not in RSET and n > 0: d['n'] = n; change = True
            if c not in MSET and max >= min: d['min'] = float(min); d['max'] = float(max); change = True
            if interpol in INTERPOL: d['interpol'] = interpol; change = True
            if change: self.v[c] = d
            else: self.v.pop(c, None)

    def cut(self, calculation='all', uvcutoff=0.5):
        for c in (CUTS if calculation == 'all' else [calculation]): self.v['cut:' + c] = dict(uvcutoff=float(uvcutoff))

    def clear(self): self.v = {}

    def canonical(self, names=None):
        out = []
        for c in sorted(self.v):
            d = self.v[c]
            if names is not None and c not in names: continue
            if c.startswith('cut:') and d['uvcutoff'] == 0.5: continue
            if c in PSET and d['interpol'] == 'poly': continue
            out.append((c, tuple(sorted(d.items()))))
        return tuple(out)


def settings_ops(slot, can):
    ops = []
    for c, d in can:
        if c.startswith('cut:'): ops.append(('cut', slot, dict(calculation=c[4:], uvcutoff=dict(d)['uvcutoff'])))
        else: ops.append(('prec', slot, dict(d, calculation=c)))
    return ops


class Obj:

    def __init__(self, cls): self.cls = cls; self.cols = {'k': None, 'res': None}; self.spec = None


class Model:
    """Follows a program; step(op, ok) returns what to expect of the operation's result."""

    def __init__(self):
        self.o = {}; self.s = Settings(); self.last = None; self.verb = 'info'
        self.dt = self.tt = None  # spectra set for the B term through the C interface
        self.c = {}; self.g = {}; self.gB = self.g1 = self.gt = self.g2 = None  # its tables, grids and registrations
        self.lastset = None; self.unsure = self.failed = False  # the spectrum last set; whether a failed call may have changed the one the library works on (last)

    def key(self, ob, spec, kw):
        kw = dict(kw or {}); kw.pop('nthreads', None)
        opt = ()
        if ob.cls in AB: opt = (kw.get('a', 'delta'), kw.get('b', 'delta'))
        return (ob.cls, spec[0], tuple(ob.cols['k']), opt, self.s.canonical(USES[ob.cls]))

    def spec_of(self, ob): return ob.spec if ob.spec is not None else self.lastset

    def step(self, op, ok=True):
        """-> None, or ('run', key) / ('cols', ...) expectation when the operation succeeds"""
        f = getattr(self, 'op_' + op[0], None)
        if not ok: self.unsure = self.failed = True
        if f is None or not ok: return None
        return f(*op[1:])

    def clear_of(self, ob): return self.spec_of(ob) is not None

    def op_new(self, s, cls):
        self.o[s] = Obj(cls)
        if cls == 'Spectrum2Loop': self.g2 = None

    def op_del(self, s):
        assert s in self.o or self.failed, 'no such object'
        self.o.pop(s, None)

    def op_spec(self, s, d): self.o[s].spec = [tuple(d)]; self.last = self.lastset = self.o[s].spec; self.unsure = False

    op_specobj = op_spec

    def op_modspec(self, s, d): self.spec_of(self.o[s])[0] = tuple(d)

    def op_growlin(self, s, f):
        sp = self.spec_of(self.o[s]); d = tuple(sp[0]); sp[0] = d[:6] + ((d[6] if len(d) > 6 else 1.) * f * f,)
        self.unsure = True  # whether the library sees the rescaled one before the next call that uses it depends on where rescaling puts it

    def op_terms(self, s, d): ob = self.o[s]; ob.cols['k'] = simops.grid(d).tolist(); ob.cols['res'] = ob.cols['grown'] = None

    def op_modk(self, s, d):
        ob = self.o[s]; k = simops.grid(d).tolist(); assert len(k) == len(ob.cols['k']); ob.cols['k'] = k; ob.cols['res'] = ob.cols['grown'] = None

    def op_setrows(self, s, seed, v):
        ob = self.o[s]; k = np.array(ob.cols['k']); k[simops.some_rows(len(k), seed)] = v
        ob.cols['k'] = k.tolist(); ob.cols['res'] = ob.cols['grown'] = None

    def op_nowiggle(self, s, d, kw, A=None, D=1.): return 'nowiggle', (d, kw, A, D)

    def op_nan0(self, s): assert self.o[s].cols['k'] is not None or self.failed; self.o[s].cols['res'] = self.o[s].cols['grown'] = None

    def op_fill(self, s, *a): assert self.o[s].cols['k'] is not None or self.failed; self.o[s].cols['res'] = self.o[s].cols['grown'] = None

    def op_run(self, s, kw=None):
        ob = self.o[s]; sp = self.spec_of(ob); self.last = sp; self.unsure = False
        if ob.cls in ('B1Loop', 'B2Loop'): self.dt = self.tt = 'foreign'
        k = self.key(ob, sp, kw); ob.cols['res'] = k; ob.cols['grown'] = (k, 1.); ob.cols['rescale'] = []
        return ('run', k)

    def op_cols(self, s):
        r = self.o[s].cols['res']
        return ('run', r) if r and not self.o[s].cols.get('rescale') else None

    def op_eval(self, s, kw=None, method='pk'):
        ob = self.o[s]; a = tuple(sorted((kw or {}).items()))
        if method.startswith('lin:'): return 'evlin', (ob.spec[0], a, method)
        r = ob.cols['res']; assert r or self.failed, 'nothing to evaluate'
        return ('eval', (r, a, method)) if r else None

    def op_hold(self, s, name, kw=None, method='pk'): self.op_eval(s, kw, method)

    def op_prec(self, s, kw): self.s.prec(**kw)

    def op_cut(self, s, kw): self.s.cut(**kw)

    def op_verb(self, s, mode='info'):
        if mode in ('quiet', 'info', 'debug'): self.verb = mode

    def op_clear(self, s): self.s.clear(); self.verb = 'info'

    def op_copy(self, s, t):
        a = self.o[s]; b = Obj(a.cls); b.cols = a.cols; b.spec = a.spec; self.o[t] = b

    def op_deepcopy(self, s, t):
        a = self.o[s]; b = Obj(a.cls); b.cols = dict(a.cols); b.spec = [a.spec[0]]; self.o[t] = b

    def op_share(self, s, t): self.o[s].spec = self.o[t].spec; self.last = self.lastset = self.o[s].spec; self.unsure = False

    def op_take(self, s, t, seed):
        a = self.o[s]; b = Obj(a.cls); k = np.array(a.cols['k'])
        b.cols['k'] = k[simops.some_rows(len(k), seed)].tolist(); self.o[t] = b

    def op_pad(self, s, d):
        ob = self.o[s]; k = simops.grid(d); old = np.array(ob.cols['k'])
        ps = int((k < old[0]).sum()); pe = int((k > old[-1]).sum())
        ob.cols['k'] = k[:ps].tolist() + old.tolist() + k[len(k) - pe:].tolist(); ob.cols['res'] = ob.cols['grown'] = None
        self.last = self.spec_of(ob)

    def op_rescale(self, s, f):
        assert self.o[s].cols['k'] is not None or self.failed
        c = self.o[s].cols; c['res'] = None
        if c.get('grown'): c['grown'] = (c['grown'][0], c['grown'][1] * f)

    op_growth = op_rescale

    def op_find(self, s, d, interpol='poly'):
        ob = self.o[s]; sp = self.spec_of(ob); self.last = sp; self.unsure = False
        return ('find', (sp[0], tuple(simops.grid(d)), interpol))

    def op_sig2(self, s, d, cut=0.5):
        ob = self.o[s]; sp = self.spec_of(ob); self.last = sp; self.unsure = False
        return ('sig2', (sp[0], tuple(simops.grid(d)), cut))

    def op_nodes(self, s, a, b, n): return ('nodes', (a, b, n))

    def op_ipoly(self, s, x, d, m, stride=1): return ('ipoly', (x, tuple(d), m, stride))

    # C interface
    def op_c_spec(self, name, d): self.c[name] = tuple(d)

    def op_c_grid(self, name, d, comp=0): self.g[name] = tuple(simops.grid(d).tolist())

    def op_c_setpk(self, name): self.last = self.lastset = [self.c[name]]; self.unsure = False

    def op_c_specB(self, a, b, name, nk=None):
        d = None if nk == 0 else self.c[name]
        if {a, b} == {'delta', 'theta'}: self.dt = d
        elif a == b == 'theta': self.tt = d

    def sureB(self): return self.last is not None and not self.unsure and self.dt != 'foreign' and self.tt != 'foreign'

    def op_c_runB(self, name, n):
        self.gB = name
        return self.op_c_rerunB(name, n)

    def op_c_rerunB(self, name, n):
        assert self.gB == name
        assert self.last is not None or self.unsure
        if not self.sureB(): return None
        return ('cB', (self.last[0], self.g[name], self.dt, self.tt, self.s.canonical(USES['B2Loop'])))

    def op_c_spec1(self, name, a, b, n): self.g1 = name; return self.op_c_rerunspec1(name, a, b, n)

    def op_c_rerunspec1(self, name, a, b, n):
        assert self.g1 == name
        assert self.last is not None or self.unsure
        if self.unsure or self.last is None: return None
        return ('c1', (self.last[0], self.g[name], a, b, self.s.canonical(S1)))

    def op_c_terms1(self, name, a, b, n): self.gt = name; return self.op_c_rerun1(name, a, b, n)

    def op_c_rerun1(self, name, a, b, n):
        assert self.gt == name
        assert self.last is not None or self.unsure
        if self.unsure or self.last is None: return None
        return ('ct', (self.last[0], self.g[name], a, b, self.s.canonical(S1)))

    def op_c_terms2(self, name, a, b, n): self.g2 = name; return self.op_c_rerun2(name, a, b, n)

    def op_c_rerun2(self, name, a, b, n):
        assert self.g2 == name
        assert self.last is not None or self.unsure
        if self.unsure or self.last is None: return None
        return ('c2', (self.last[0], self.g[name], a, b, self.s.canonical(USES['Spectrum2Loop'])))

    def op_c_bispec(self, name):
        assert self.last is not None or self.unsure
        if self.unsure or self.last is None: return None
        return ('bi', (self.last[0], self.g[name], self.s.canonical(BI)))

    def op_c_prec(self, name, n=0, mn=1., mx=-1., interpol='test'): self.s.prec(name, n, mn, mx, interpol)


def canonical_prog(kind, key):
    """The program of a fresh process for an expected result; its last operation returns it."""
    q = [('new', 'r', 'Spectrum1Loop'), ('verb', 'r', 'quiet')]
    if kind == 'run':
        cls, spec, k, opt, can = key
        q[0] = ('new', 'r', cls)
        kw = dict(nthreads=1)
        if opt: kw.update(a=opt[0], b=opt[1])
        return q + settings_ops('r', can) + [('spec', 'r', spec), ('terms', 'r', ('KX', k)), ('run', 'r', kw)]
    if kind == 'eval': return canonical_prog('run', key[0]) + [('eval', 'r', dict(key[1]), key[2])]
    if kind == 'evlin': return q + [('spec', 'r', key[0]), ('eval', 'r', dict(key[1]), key[2])]
    if kind == 'find': return q + [('spec', 'r', key[0]), ('find', 'r', ('KX', key[1]), key[2])]
    if kind == 'sig2': return q + [('spec', 'r', key[0]), ('sig2', 'r', ('KX', key[1]), key[2])]
    if kind == 'cB':
        lin, k, dt, tt, can = key
        q += settings_ops('r', can)
        if dt is not None: q += [('c_spec', 'D', dt), ('c_specB', 'delta', 'theta', 'D')]
        if tt is not None: q += [('c_spec', 'T', tt), ('c_specB', 'theta', 'theta', 'T')]
        return q + [('c_spec', 'L', lin), ('c_setpk', 'L'), ('c_grid', 'g', ('KX', k)), ('c_runB', 'g', 1)]
    if kind in ('c1', 'ct', 'c2'):
        lin, k, a, b, can = key
        return q + settings_ops('r', can) + [('c_spec', 'L', lin), ('c_setpk', 'L'), ('c_grid', 'g', ('KX', k)), ({'c1': 'c_spec1', 'ct': 'c_terms1', 'c2': 'c_terms2'}[kind], 'g', a, b, 1)]
    if kind == 'bi': return q + settings_ops('r', key[2]) + [('c_spec', 'L', key[0]), ('c_setpk', 'L'), ('c_grid', 'g', ('KX', key[1])), ('c_bispec', 'g')]
    if kind == 'nowiggle': return q + [('nowiggle', 'r') + key]
    if kind == 'nodes': return q + [('nodes', 'r') + key]
    if kind == 'ipoly': return q + [('ipolyc', 'r') + key]
    raise AssertionError(kind)


# ---------------------------------------------------------------- generators (rng: random.Random)

def g_spec(rng, small=False):
    n = rng.choice([2, 3, 3, 4, 4, 5, 6, 8]) if small else rng.choice([16, 20, 30, 50, 80])
    if not small and rng.random() < 0.04: n = rng.choice([9, 13, 15, 17, 128, 200, 300])
    kmin = 10**rng.uniform(-4, -2.7); kmax = 10**rng.uniform(0.5, 1.3)
    return ('S', n, kmin, kmax, rng.randrange(10**6), rng.choice([0, 0, 0, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6]))


def g_pad(rng, k):
    """wavenumbers to extend an ascending grid to: around it, with it, or on one side"""
    if rng.random() < 0.5 or k[0] > k[-1]: return g_grid(rng, 2, 6, True, True)
    lo = [k[0] * rng.uniform(0.1, 1.) for _ in range(rng.choice([0, 0, 1, 2]))]; hi = [k[-1] * rng.uniform(1., 5.) for _ in range(rng.choice([0, 0, 1, 3]))]
    return 'KX', tuple(sorted(lo + [x for x in k if rng.random() < 0.9] + hi)) or (k[0],)


def g_eval(rng, cls, spec, nk):
    """a method that evaluates the terms, and its arguments"""
    D = lambda: dict(Dgrowth=rng.choice([1., 0.7, 1.3]))
    x = rng.random()
    if x < 0.12 and spec: return rng.choice([('lin:pk', D()), ('lin:sigma8', {}), ('lin:sigmav', D()), ('lin:sigmar', dict(D(), r=4.)), ('lin:pk_interp', dict(D(), k=g_grid(rng, 1, 6, True)))])
    if cls == 'Bias1Loop': return rng.choice(['pk_lin', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'pk_sigma3sq', 'pk_b22_damp', 'pk_b2s2_damp', 'pk_bs22_damp', 'shotnoise']), {}
    if x < 0.3: return 'pk_lin', D()
    if x < 0.55 and nk:
        if cls in AB: return 'pk_interp', dict(D(), k=g_grid(rng, 1, 6, True))
        return 'pk_interp', dict(D(), k=g_grid(rng, 1, 6, True), mu2=rng.choice([0., 0.3, 1.]), beta=rng.choice([1., 0.4]))
    if x < 0.65 and cls in AB: return rng.choice([('sigmav', D()), ('sigma8', D()), ('sigmar', dict(r=2.))])
    if x < 0.75 and cls in AB: return 'pk', dict(D(), sigmad2=rng.choice([5., 30.]))
    return 'pk', D()


def g_grid(rng, lo=0, hi=10, wide=False, asc=False):
    n = rng.randint(lo, hi)
    if hi >= 5 and rng.random() < 0.03: n = rng.choice([17, 20, 33, 64, 65, 100, 101, 130])
    a, b = (1e-5, 60.) if wide and rng.random() < 0.5 else (0.008, 0.6)
    return ('K', n, a * rng.uniform(0.5, 2), b * rng.uniform(0.5, 1.5), rng.randrange(10**6), rng.choice([0, 1, 0, 1, 0, 1, 2, 3] + ([] if asc else [4, 5])))


def g_cheap(rng, slot, cls=None, lo=3, hi=7):
    """settings that keep a calculation short"""
    n = rng.randint(lo, hi)
    ops = [('prec', slot, dict(calculation='all', n=n))]
    return ops


def g_prec(rng):
    """a random call of set_precision (as documented)"""
    name = rng.choice(QSET + RSET + MSET + PSET + list(GROUPS))
    kw = dict(calculation=name)
    if rng.random() < 0.7: kw['n'] = rng.choice([0, 2, 3, 4, 5, 6, 7, 8, 0, 2, 3, 4, 5, 6, 7, 8, 1])
    r = rng.random()
    if r < 0.45:
        a = 10**rng.uniform(-3.5, -1.5); kw['min'] = a; kw['max'] = a * 10**rng.uniform(0.7, 2.5)
    elif r < 0.55: kw['min'] = -1.; kw['max'] = rng.choice([-1., 5.])
    elif r < 0.57: kw['min'] = kw['max'] = 10**rng.uniform(-2.5, 0)
    elif r < 0.62: kw['min'] = 2.; kw['max'] = 1.
    r = rng.random()
    if r < 0.5 or name == 'all_pklin' or name in PSET: kw['interpol'] = rng.choice(['poly', 'lin', 'lin', 'poly', 'lin', 'lin', 'nonsense', 'test', rng.choice(['linear', 'polynomial', 'LIN', 'Poly', 'l', 'p', 'li', 'pol', '', ' lin', 'lin ', 'test'])])
    return kw


def cheapen(kw, s):
    """keep orders small: a call that would bring a long default back gets an order"""
    c = kw['calculation']
    if c in PSET or c == 'all_pklin': return kw
    return kw


def g_cut(rng): return dict(calculation=rng.choice(CUTS + ['all']), uvcutoff=rng.choice([0.5, 0.3, 0.8, 1., 0.1, rng.uniform(0.05, 2.), 0., rng.choice([1e-3, 2.5, 20., -1., 1.])]))


def g_ab(rng, cls):
    if cls not in AB: return {}
    return dict(a=rng.choice(['delta', 'theta']), b=rng.choice(['delta', 'theta']))


def g_threads(rng, hi=8):
    if rng.random() < 0.03: return rng.choice([17, 20, 24, 32, 33, 48, 64, 65, 96, 100, 128, 129, 200, 256, 257])
    return rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 0] + ([9, 12, 16] if hi > 8 else []))


def g_sched(rng, strat=None):
    st = strat if strat is not None else rng.choice([0, 1, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8])
    cfg = dict(seed=rng.randrange(1, 2**62), strategy=st)
    if st in (3, 4, 6): cfg['sp1'] = rng.choice([1, 2, 5, 10, 30, 100, 300, 1000, 5000])
    if st == 5: cfg['sp1'] = rng.randint(1, 6); cfg['sp2'] = int(10**rng.uniform(2, 5.5))
    if st == 6: cfg['sp2'] = int(10**rng.uniform(3, 6))
    if st == 8: cfg['sp1'] = rng.choice([1, 2, 4]); cfg['sp2'] = rng.choice([5, 20, 100])
    return cfg


def g_env(rng):
    """processors, thread pool, team sizes actually granted, integrator"""
    cfg = dict(nprocs=rng.choice([1, 2, 3, 4, 8, 16]), pool_mode=rng.randrange(4), junk_mode=rng.choice([1, 2, 2, 3]), quarantine=rng.choice([-1, 0, 1, 16, 256]))
    g = rng.random()
    if g < 0.2: cfg.update(grant_mode=1, grant_n=rng.choice([1, 2, 3]))
    elif g < 0.4: cfg.update(grant_mode=2)
    cfg['suave_n'] = rng.choice([4, 8, 16, 4, 8, 16, 1])
    if rng.random() < 0.3: cfg['suave_workers'] = rng.randint(1, 4); cfg['suave_order'] = rng.randrange(3)
    if rng.random() < 0.25: cfg['suave_fail'] = rng.choice([1, 2])
    if rng.random() < 0.02: cfg['nprocs'] = rng.choice([32, 64, 72, 130])
    return cfg
