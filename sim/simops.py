"""The operations a program is made of, executed in the child."""
import ctypes, gc, os, sys
import numpy as np
from ctypes import c_char_p, c_int, c_size_t, c_double, c_void_p

# ---------------------------------------------------------------- data descriptors
# A descriptor is a tuple; the data it stands for is a function of it.


def spectrum(d):
    """('S', n, kmin, kmax, seed, shape[, factor]) -> k, pk   (a linear power spectrum table)"""
    _, n, kmin, kmax, seed, shape = d[:6]
    r = np.random.RandomState(seed)
    if n == 1: lk = np.array([np.log(kmin)])
    else:
        lk = np.linspace(np.log(kmin), np.log(kmax), n)
        if n > 2: lk[1:-1] += (r.rand(n - 2) - 0.5) * 0.5 * (lk[1] - lk[0])
    k = np.exp(lk)
    if shape == 6: k = np.linspace(kmin, kmax, n)
    x = k / (0.02 + 0.01 * r.rand())
    pk = 2e4 * (0.5 + r.rand()) * x / (1. + x**2)**1.2 * (1. + 0.05 * np.sin(k * 100.) * np.exp(-k / 0.1))
    if shape == 1: pk = pk * np.exp(0.2 * (r.rand(n) - 0.5))
    if shape == 2: pk = pk * 1e-3
    if shape == 3: pk = pk * 30.
    if shape == 4: pk[r.randint(1, n + 1):] = 0.  # no power beyond some wavenumber
    if shape == 5: pk = np.where(r.rand(n) < 0.2, 0., pk)
    if len(d) > 6: pk = pk * d[6]
    return k, pk


def grid(d):
    """('K', n, kmin, kmax, seed, mode) -> output wavenumbers;  ('KX', values);  ('KS', spectrum)"""
    if d[0] == 'KX': return np.array(d[1], dtype='f8')
    if d[0] == 'KS': return spectrum(d[1])[0]
    _, n, kmin, kmax, seed, mode = d
    r = np.random.RandomState(seed)
    if n == 0: return np.zeros(0)
    if mode == 2: return np.repeat(grid(('K', (n + 1) // 2, kmin, kmax, seed, 1)), 2)[:n]  # repeated wavenumbers
    if mode in (4, 5):  # in no order, or from the largest
        k = grid(('K', n, kmin, kmax, seed, seed % 4))
        return k[::-1].copy() if mode == 5 else r.permutation(k)
    if mode == 3:  # wavenumbers next to each other
        k = np.repeat(grid(('K', (n + 2) // 3, kmin, kmax, seed, 1)), 3)[:n]
        return np.sort(k * (1. + np.array([0., 2.3e-16, 1e-14, 1e-9, 1e-5, 1e-3])[r.randint(0, 6, n)]))
    k = np.exp(np.sort(r.rand(n)) * np.log(kmax / kmin) + np.log(kmin)) if mode else np.exp(np.linspace(np.log(kmin), np.log(kmax), n)) if n > 1 else np.array([kmin])
    return k


def pack(a):
    a = np.asarray(a)
    return (a.shape, a.dtype.str, a.tobytes())


def unpack(p):
    return np.frombuffer(p[2], dtype=p[1]).reshape(p[0])


def some_rows(n, seed):
    """a mask, or row numbers"""
    r = np.random.RandomState(seed)
    if seed % 3 == 0 and n: return np.sort(r.choice(n, size=r.randint(1, n + 1), replace=False)) if seed % 2 else [int(x) for x in sorted(r.randint(0, n, size=3))]
    mask = r.rand(n) < 0.6; mask[:1] = True
    return mask


class Again(Exception):
    """a call refused once was accepted when repeated"""


class Program:

    def __init__(self, sim, job):
        self.sim = sim; self.core = sim.core; self.mod = sim.mod; self.lib = sim.lib[job.get('variant', 'tsan')]
        self.job = job; self.prog = job['prog']; self.opts = job.get('opts') or {}
        self.o = {}    # objects by slot
        self.b = {}    # named arrays of the caller (C interface)
        self.extra = []
        self.held = {}
        self.forms = self.opts.get('forms') or 0; self.given = []; self.rform = np.random.RandomState(self.forms % 2**32)

    def give(self, a, flat=True):
        """the same values as a caller may hold them: a column of a table, a list, read-only, reversed in memory, of another byte order"""
        if not self.forms: return a
        f = self.rform.randint(10 if flat else 6)
        if f in (0, 1): return a
        if f == 2: b = np.column_stack([a, a + 1., a])[:, 1]; b[...] = a
        elif f == 3: b = a[::-1].copy()[::-1]
        elif f == 4: b = a.copy(); b.flags.writeable = False
        elif f == 5: b = a.astype('>f8')
        elif f == 6: return a.tolist()
        elif f == 7: return tuple(a.tolist())
        elif f == 8: b = a.reshape(-1, 1).copy()
        else: b = np.array([a, a])[:1]
        self.given.append((b, b.tobytes()))
        return b

    def taken(self):
        """what was given must not have changed; afterwards the caller uses the memory for something else"""
        bad = [b.shape for b, v in self.given if b.tobytes() != v]
        for b, v in self.given:
            if b.flags.writeable: b[...] = -1e30
        self.given = []
        return bad

    def run(self):
        core = self.core
        snap = self.opts.get('snapshot')
        fdpos = 0; prev_out = prev_err = 0
        for i, op in enumerate(self.prog):
            if snap: core.sim_snapshot()
            h = self.sim.head
            t0 = core.sim_steps(); nt = h.n_teams; nc = h.n_calloc; nn = h.n_np; nv = h.n_vio
            core.sim_op(ctypes.c_int64(i))
            f = getattr(self, 'op_' + op[0])
            try:
                res = ('ok', f(*op[1:]))
            except Exception as e:
                core.sim_np_arm(0)
                res = ('exc', type(e).__name__, str(e)[:200])
                e.__traceback__ = None
                del e
            core.sim_np_arm(0)
            bad = self.taken() if self.given else None
            sys.stdout.flush(); sys.stderr.flush()
            core.sim_op_end()
            fd = os.fstat(self.sim.fd).st_size
            rec = dict(i=i, res=res, steps=core.sim_steps() - t0, out=(prev_out, h.out_len), err=(prev_err, h.err_len), fd=fd - fdpos, live=core.sim_live(1, 0), np=core.sim_live(2, 0), npb=core.sim_live(2, 1), teams=[t for t in h.team_log[nt:h.n_teams] if t > 0], cores=[-1000 - t for t in h.team_log[nt:h.n_teams] if t < 0], c=(nc, h.n_calloc), n=(nn, h.n_np), locks=core.sim_locks_held(), vio=h.n_vio - nv)
            if bad: rec['inputs'] = bad
            if fd > fdpos:
                os.lseek(self.sim.fd, fdpos, 0); rec['fdtext'] = os.read(self.sim.fd, 400).decode('utf-8', 'replace'); os.lseek(self.sim.fd, 0, 2)
            prev_out, prev_err, fdpos = h.out_len, h.err_len, fd
            if snap:
                buf = (ctypes.c_uint64 * 64)(); n = core.sim_changed(buf, ctypes.c_int64(64))
                if n:
                    own = self.owners(); rec['changed'] = [sorted(own.get(a, ['?'])) for a in buf[:min(n, 64)]]
            if rec['live']:
                buf = (ctypes.c_int64 * 128)(); n = core.sim_leaks(buf, ctypes.c_int64(64)); rec['leaks'] = sorted(set((buf[2 * j], buf[2 * j + 1]) for j in range(min(n, 64))))[:8]
            self.sim.emit(rec)

    def owners(self):
        d = {}

        def add(a, name):
            if isinstance(a, np.ndarray):
                while isinstance(a.base, np.ndarray): a = a.base
                d.setdefault(a.ctypes.data, set()).add(name)
        for s, o in self.o.items():
            for c, a in o.columns.items(): add(a, '%s.%s' % (s, c))
            sp = getattr(o, 'spectrum_lin', None)
            if sp is not None:
                for c, a in sp.columns.items(): add(a, '%s:lin.%s' % (s, c))
        for n, a in self.b.items(): add(a, 'c:' + n)
        for i, a in enumerate(self.extra): add(a, 'extra%d' % i)
        for n, a in self.held.items(): add(a, 'held:' + str(n))
        return d

    def arm(self, on=1): self.core.sim_np_arm(on)

    def cols(self, o, fields=None):
        return {c: pack(o.columns[c]) for c in (fields or o.columns)}

    # ---- python interface
    def op_new(self, s, cls):
        c = getattr(self.mod, cls)
        self.arm(); self.o[s] = c(); self.arm(0)

    def op_del(self, s): del self.o[s]

    def op_spec(self, s, d):
        k, pk = map(self.give, spectrum(d))
        self.arm(); self.o[s].set_pk_lin(k, pk); self.arm(0)

    def op_specobj(self, s, d, strided=0):
        k, pk = spectrum(d)
        self.arm(); sp = self.mod.SpectrumLin(k=k, pk=pk); self.o[s].set_spectrum_lin(sp); self.arm(0)

    def op_modspec(self, s, d):  # the caller overwrites its own table in place
        k, pk = spectrum(d); sp = self.o[s].spectrum_lin
        if sp['k'].shape != k.shape: raise ValueError('another table')
        sp['k'][...] = k; sp['pk'][...] = pk

    def op_terms(self, s, d):
        k = self.give(grid(d))
        self.arm(); self.o[s].set_terms(k); self.arm(0)

    def op_fill(self, s, mode, seed=0):
        o = self.o[s]; r = np.random.RandomState(seed)
        for c in o.columns:
            if c == 'k': continue
            a = o.columns[c]
            a[...] = np.nan if mode == 1 else 1e300 if mode == 2 else r.rand(*a.shape) if mode == 3 else r.choice([np.nan, np.inf, -np.inf, -0., 1., -3e-310], a.shape) if mode == 4 else 0.

    def op_run(self, s, kw=None):
        o = self.o[s]
        self.arm(); o.run_terms(**(kw or {})); self.arm(0)
        return self.cols(o)

    def op_cols(self, s): return self.cols(self.o[s])

    def evaluate(self, s, kw=None, method='pk'):
        o = self.o[s]
        if method.startswith('lin:'): o = o.spectrum_lin; method = method[4:]
        kw = {a: self.give(grid(b)) if a == 'k' else b for a, b in (kw or {}).items()}
        f = getattr(o, method)
        self.arm(); r = f(**kw); self.arm(0)
        return r

    def op_all(self): return {s: self.cols(o) for s, o in self.o.items()}

    def op_eval(self, s, kw=None, method='pk'): return {'pk': pack(self.evaluate(s, kw, method))}

    def op_hold(self, s, name, kw=None, method='pk'): self.held[name] = self.evaluate(s, kw, method)

    def op_prec(self, s, kw): self.o[s].set_precision(**kw)

    def op_cut(self, s, kw): self.o[s].set_running_uvcutoff(**kw)

    def op_verb(self, s, *mode): self.o[s].set_verbosity(*mode)

    def op_clear(self, s): self.o[s].clear()

    def op_copy(self, s, t): self.o[t] = self.o[s].copy()

    def op_deepcopy(self, s, t):
        self.arm(); self.o[t] = self.o[s].deepcopy(); self.arm(0)

    def op_share(self, s, t): self.o[s].set_spectrum_lin(self.o[t].spectrum_lin)

    def op_take(self, s, t, seed):  # an object made of some rows of another
        o = self.o[s]; rows = some_rows(len(o['k']), seed)
        self.arm(); self.o[t] = o[rows]; self.arm(0)

    def op_setrows(self, s, seed, v):  # rows replaced
        o = self.o[s]; o[some_rows(len(o['k']), seed)] = v

    def op_nowiggle(self, s, d, kw, A=None, D=1.):
        # the smooth spectrum of some cosmology, normalised by the caller or on a spectrum of his
        k = grid(d); pk = 1e4 * k / (1. + (k / 0.02)**2)**1.2
        if len(k) % 2: sp = self.mod.SpectrumNoWiggle(k=k)
        else: sp = self.mod.SpectrumNoWiggle(); sp.set_terms(self.give(k))
        sp.run_terms(**dict(kw, A=A, pk=None if A else pk)); out = {'pk': pack(sp.pk(Dgrowth=D)), 'sigma8': pack(np.array([sp.sigma8(Dgrowth=D)])), 'k': pack(sp.k)}
        for z in (sp.deepcopy(), sp.copy()): out.update(col=pack(z['pk']))
        return out

    def op_nan0(self, s): self.arm(); self.o[s].nan_to_zero(); self.arm(0)

    def op_pad(self, s, d):
        k = self.give(grid(d), False)
        self.arm(); self.o[s].pad_k(k); self.arm(0)
        return self.cols(self.o[s])

    def op_rescale(self, s, f): self.o[s].rescale(f)

    def methods(self, o, D, sd=5.):
        """everything that can be evaluated, with growth factor D; sd: a damping to be used instead of the column"""
        out = {}; name = type(o).__name__; k = o['k']
        if name == 'Bias1Loop': names = ['pk_lin', 'pk_b2d', 'pk_bs2d', 'pk_b2t', 'pk_bs2t', 'pk_b22', 'pk_b2s2', 'pk_bs22', 'pk_sigma3sq', 'pk_b22_damp', 'pk_b2s2_damp', 'pk_bs22_damp']
        else: names = ['pk'] + ['pk_lin'] * (name != 'SpectrumLin')
        with np.errstate(all='ignore'):
            for n in names: out[n] = np.array(getattr(o, n)(Dgrowth=D))
            for n in names:
                if n.endswith('_damp') or n == 'pk' and name in ('Spectrum1Loop', 'Spectrum2Loop'): out[n + ' sigmad2'] = np.array(getattr(o, n)(Dgrowth=D, sigmad2=sd))
            if name in ('Spectrum1Loop', 'Spectrum2Loop', 'SpectrumLin'):
                if len(k): out['pk_interp'] = np.array(o.pk_interp(np.array([k[0] * 0.5, k[0], (k[0] * k[-1])**0.5, k[-1], k[-1] * 2.]), left=1., right=2., Dgrowth=D)); 
                out['sigmav'] = np.array([o.sigmav(Dgrowth=D)]); out['sigma8'] = np.array([o.sigma8(Dgrowth=D)]); out['sigmar'] = np.array([o.sigmar(3., Dgrowth=D)])
            elif name[0] in 'AB' and name != 'Bias1Loop' and len(k): out['pk_interp'] = np.array(o.pk_interp(np.array([k[0] * 0.5, k[0], (k[0] * k[-1])**0.5, k[-1]]), mu2=0.3, beta=0.7, Dgrowth=D))
        return out

    def grow(self, o, f):
        a = self.methods(o, f); o.rescale(f); b = self.methods(o, 1., 5. * f * f)
        return {n: (pack(a[n]), pack(b[n])) for n in a}

    def op_growth(self, s, f):  # everything evaluated with a growth factor; rescaled by it; evaluated without
        return self.grow(self.o[s], f), self.cols(self.o[s])

    def op_growlin(self, s, f): return self.grow(self.o[s].spectrum_lin, f), {}

    def op_find(self, s, d, interpol='poly'):
        k = self.give(grid(d))
        self.arm(); r = self.o[s].find_pk_lin(k, interpol=interpol); self.arm(0)
        return {'pk': pack(r)}

    def op_sig2(self, s, d, cut=0.5):
        k = self.give(grid(d))
        self.arm(); r = self.o[s].calc_running_sigmad2(k, uvcutoff=cut); self.arm(0)
        return {'s': pack(r)}

    def op_nodes(self, s, a, b, n):
        self.arm(); x, w = self.o[s].nodes_weights_gauss_legendre(a, b, n); self.arm(0)
        return {'x': pack(x), 'w': pack(w)}

    def op_ipoly(self, s, x, d, m, stride=1):
        k, pk = spectrum(d); k, pk = k[:m][::stride], pk[:m][::stride]
        self.arm(); r = self.o[s].interpol_poly(x, k, pk); self.arm(0)
        return r

    def op_ipolyc(self, s, x, d, m, stride=1):
        k, pk = spectrum(d)
        return self.o[s].interpol_poly(x, k[:m][::stride].copy(), pk[:m][::stride].copy())

    def op_modk(self, s, d):  # other wavenumbers, in place
        k, new = self.o[s]['k'], grid(d)
        if k.shape != new.shape: raise ValueError('another grid')
        k[...] = new

    def op_ilin(self, s, x, d, m):
        k, pk = spectrum(d)
        return self.o[s].interpol_lin(x, k[:m], pk[:m])

    def op_caller(self, i): self.core.sim_caller(int(i))

    def op_gc(self): gc.collect()

    def op_extra(self, n): self.extra.append(np.random.RandomState(n).rand(n))

    def op_nop(self): pass

    # ---- calls that must be refused
    def op_bad(self, s, kind, *a):
        f = self.bad_call(s, kind, *a)
        self.arm()
        try: f()
        except Exception as e:
            try: f()  # the same call with the same objects: refused again
            except Exception: raise e
            raise Again('%s refused the first time (%s: %s), accepted the second' % (kind, type(e).__name__, str(e)[:100]))

    def bad_call(self, s, kind, *a):
        o = self.o.get(s); m = self.mod
        if kind == 'prec': return lambda: o.set_precision(calculation='no_such_setting', n=3)
        if kind == 'precn': return lambda: o.set_precision(calculation=a[0], n='three')
        if kind == 'precmin': return lambda: o.set_precision(calculation=a[0], min='x')
        if kind == 'precint': return lambda: o.set_precision(calculation=a[0], n=7, interpol=None)
        if kind == 'cut': return lambda: o.set_running_uvcutoff(calculation='no_such_calculation', uvcutoff=0.1)
        if kind == 'cutv': return lambda: o.set_running_uvcutoff(calculation=a[0], uvcutoff='x')
        if kind == 'verb': return lambda: o.set_verbosity(None)
        if kind == 'terms': k = ['a', 'b']; return lambda: o.set_terms(k)
        if kind == 'termsobj': k = object(); return lambda: o.set_terms(k)
        if kind == 'spec': k, pk = ['a'], [1.]; return lambda: o.set_pk_lin(k, pk)
        if kind == 'speclen': k, pk = spectrum(a[0]); pk = pk[:-1]; return lambda: o.set_pk_lin(k, pk)
        if kind == 'specnone': return lambda: o.set_spectrum_lin(None)
        if kind == 'specempty': sp = m.SpectrumLin(); return lambda: o.set_spectrum_lin(sp)
        if kind == 'spectype': k, pk = spectrum(a[0]); sp = m.SpectrumLin(k=k.astype('f4'), pk=pk.astype('f4')); return lambda: o.set_spectrum_lin(sp)
        if kind == 'specstr': k, pk = spectrum(a[0]); sp = m.SpectrumLin(k=k[::2], pk=pk[::2]); return lambda: o.set_spectrum_lin(sp)
        if kind == 'runn': return lambda: o.run_terms(nthreads='four')
        if kind == 'runa': return lambda: o.run_terms(a=None)
        if kind == 'rununset': return lambda: m.Spectrum1Loop().run_terms()
        if kind == 'runnoterms': q = getattr(m, a[0])(); q.spectrum_lin = o.spectrum_lin; return lambda: q.run_terms()
        if kind == 'find': return lambda: o.find_pk_lin(['x'])
        if kind == 'sig2': return lambda: o.calc_running_sigmad2([0.1], uvcutoff='x')
        if kind == 'ipoly': return lambda: o.interpol_poly(1., [1., 2.], [1.])
        if kind == 'padnone': return lambda: o.pad_k(None)
        if kind == 'padstr': k = ['x', 'y']; return lambda: o.pad_k(k)
        if kind == 'precgroup': return lambda: o.set_precision(calculation=a[0], n=None)
        if kind == 'cutgroup': return lambda: o.set_running_uvcutoff(calculation='all', uvcutoff=None)
        if kind == 'key': return lambda: o['no_such_column']
        if kind == 'nodes': return lambda: o.nodes_weights_gauss_legendre('a', 1., 3)
        if kind == 'deepcopy': q = getattr(m, a[0])(); return lambda: q.deepcopy()
        raise AssertionError(kind)

    # ---- C interface (as used from other languages)
    def arr(self, name): return self.b[name].ctypes.data_as(c_void_p)

    def op_c_spec(self, name, d):
        k, pk = spectrum(d); self.b[name + '.k'] = k; self.b[name + '.pk'] = pk

    def op_c_grid(self, name, d, comp=0):
        k = grid(d); self.b[name + '.k'] = k
        # what the arrays hold before they are written: not what they hold in the process the results are compared with
        seed = (self.job.get('cfg') or {}).get('seed', 1); r = np.random.RandomState((seed + len(self.b)) % 2**32) if seed != 1 else None
        old = lambda n: np.full(n, np.nan) if r is None else r.choice([np.nan, 0., 1., -1e300, 0.3], n) if r.rand() < 0.5 else np.zeros(n)
        for c in ('pk_lin', 'sigmad2', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'p'): self.b[name + '.' + c] = old(len(k))
        for n in (5, 9): self.b[name + '.%d' % n] = old(n * len(k))

    def op_c_drop(self, name):
        for n in [n for n in self.b if n.startswith(name + '.')]: del self.b[n]

    def call(self, fn, args, types, res=None):
        f = self.lib[fn]; f.argtypes = types; f.restype = res
        return f(*args)

    def op_c_setpk(self, name):
        self.call('set_pk_lin', (self.arr(name + '.k'), self.arr(name + '.pk'), len(self.b[name + '.k'])), (c_void_p, c_void_p, c_size_t))

    def op_c_specB(self, a, b, name, nk=None):
        self.call('set_spectra_B', (a.encode(), b.encode(), len(self.b[name + '.k']) if nk is None else nk, self.arr(name + '.k'), self.arr(name + '.pk')), (c_char_p, c_char_p, c_size_t, c_void_p, c_void_p))

    def op_c_specBarr(self, a, b, name):  # a spectrum that c_spec1 has computed
        self.call('set_spectra_B', (a.encode(), b.encode(), len(self.b[name + '.k']), self.arr(name + '.k'), self.arr(name + '.a')), (c_char_p, c_char_p, c_size_t, c_void_p, c_void_p))

    def op_c_runB(self, name, n):
        nk = len(self.b[name + '.k'])
        self.call('set_terms_B', (nk,) + tuple(self.arr(name + '.' + c) for c in ('k', 'pk_lin', 'sigmad2', '9')), (c_size_t,) + (c_void_p,) * 4)
        self.call('run_terms_B', (n,), (c_size_t,))
        return {c: pack(self.b[name + '.' + c]) for c in ('pk_lin', 'sigmad2', '9')}

    def op_c_rerunB(self, name, n):  # without handing the columns over again
        self.call('run_terms_B', (n,), (c_size_t,))
        return {c: pack(self.b[name + '.' + c]) for c in ('pk_lin', 'sigmad2', '9')}

    def op_c_spec1(self, name, a, b, n):
        nk = len(self.b[name + '.k'])
        self.call('set_spectrum_1loop', (nk, self.arr(name + '.k'), self.arr(name + '.a')), (c_size_t, c_void_p, c_void_p))
        self.call('run_spectrum_1loop', (a.encode(), b.encode(), n), (c_char_p, c_char_p, c_size_t))
        return {'pk': pack(self.b[name + '.a'])}

    def op_c_rerunspec1(self, name, a, b, n):  # without handing the array over again
        self.call('run_spectrum_1loop', (a.encode(), b.encode(), n), (c_char_p, c_char_p, c_size_t))
        return {'pk': pack(self.b[name + '.a'])}

    def op_c_terms1(self, name, a, b, n):
        nk = len(self.b[name + '.k'])
        self.call('set_terms_spectrum_1loop', (nk,) + tuple(self.arr(name + '.' + c) for c in ('k', 'pk_lin', 'sigmad2', 'a', 'b', 'c')), (c_size_t,) + (c_void_p,) * 6)
        self.call('run_terms_spectrum_1loop', (a.encode(), b.encode(), n), (c_char_p, c_char_p, c_size_t))
        return {c: pack(self.b[name + '.' + c]) for c in ('pk_lin', 'sigmad2', 'a', 'b', 'c')}

    def op_c_terms2(self, name, a, b, n):
        nk = len(self.b[name + '.k']); cols = ('pk_lin', 'sigmad2', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h')
        self.call('set_terms_spectrum_2loop', (nk,) + tuple(self.arr(name + '.' + c) for c in ('k',) + cols), (c_size_t,) + (c_void_p,) * 11)
        self.call('run_terms_spectrum_2loop', (a.encode(), b.encode(), n), (c_char_p, c_char_p, c_size_t))
        self.call('spectrum_2loop', (self.arr(name + '.p'),), (c_void_p,))
        return {c: pack(self.b[name + '.' + c]) for c in cols + ('p',)}

    def op_c_rerun2(self, name, a, b, n):  # without handing the columns over again
        self.call('run_terms_spectrum_2loop', (a.encode(), b.encode(), n), (c_char_p, c_char_p, c_size_t))
        self.call('spectrum_2loop', (self.arr(name + '.p'),), (c_void_p,))
        return {c: pack(self.b[name + '.' + c]) for c in ('pk_lin', 'sigmad2', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'p')}

    def op_c_rerun1(self, name, a, b, n):
        self.call('run_terms_spectrum_1loop', (a.encode(), b.encode(), n), (c_char_p, c_char_p, c_size_t))
        return {c: pack(self.b[name + '.' + c]) for c in ('pk_lin', 'sigmad2', 'a', 'b', 'c')}

    def op_c_bispec(self, name):  # the bispectra at 1 loop for triangles on each wavenumber
        k = self.b[name + '.k']; D = c_double; P = c_void_p; out = np.full((len(k), 10), np.nan); vec = np.zeros((4, 3))
        self.call('init_bispectrum_1loop_I', (), ())
        for i, x in enumerate(k):
            row = out[i:i + 1].ctypes.data; t = int(x * 9973.) % 6
            self.call('bispectrum_1loop_I', (x, 0.75 * x, (1.2 if t % 2 else 0.5) * x) + tuple(row + 8 * c for c in range(8)), (D,) * 3 + (P,) * 8)
            vec[:] = [[0, 0, -x], [0.3 * x, 0, 0.4 * x], [-0.3 * x, 0, 0.6 * x], [0.1 * x, 0.2 * x, -0.15 * x]]
            a, b, c = [(0, 1, 1), (1, 0, 1), (0, 0, 1)][t % 3]
            self.call('bispectrum_1loop_II_III', tuple(vec[j:].ctypes.data for j in range(4)) + (a, b, c, row + 64, row + 72), (P,) * 4 + (c_int,) * 3 + (P,) * 2)
        self.call('free_bispectrum_1loop_I', (), ())
        return {'bk': pack(out)}

    def op_c_prec(self, name, n=0, mn=1., mx=-1., interpol='test'):
        f = 'set_precision_' + name
        i = interpol.encode()
        if 'pk_lin' in name: self.call(f, (i,), (c_char_p,))
        elif name in ('gamma3_tree_q', 'A_2loop_II_III_q'): self.call(f, (mn, mx, i), (c_double, c_double, c_char_p))
        elif 'mu' in name: self.call(f, (n, i), (c_size_t, c_char_p))
        else: self.call(f, (n, mn, mx, i), (c_size_t, c_double, c_double, c_char_p))
