"""The properties: how cases are made (gen) and what must hold of them (judge)."""
import json, os, re
import numpy as np
import simops
from engine import V, Invalid, describe_end, symbolise
from model import *


def short(a): return '%r' % (a,)


def key_text(kind, key):
    if kind == 'run': return '%s%s on %d wavenumbers' % (key[0], '(%s,%s)' % key[3] if key[3] else '', len(key[2]))
    return kind


def where_differs(got, want):
    for c in sorted(set(got) | set(want)):
        if c not in got or c not in want: return c, 'column %s is missing' % c
        if got[c][2] != want[c][2]:
            a, b = simops.unpack(got[c]), simops.unpack(want[c])
            if a.size != b.size: return c, 'column %s has %d values instead of %d' % (c, a.size, b.size)
            a = a.ravel(); b = b.ravel()
            i = int(np.flatnonzero(a.view('u8') != b.view('u8'))[0]); n = int((a.view('u8') != b.view('u8')).sum())
            return c, 'column %s, element %d of %d is %.17g instead of %.17g (%d elements differ)' % (c, i, a.size, a[i], b[i], n)
    return None, None


def compare(ctx, case, i, kind, key, got, what='result'):
    st, want = ctx.ref(case, kind, key)
    if st != 'ok': return V('reference', 'operation %d (%s): no reference: %s' % (i, key_text(kind, key), want))
    if isinstance(got, dict):
        c, t = where_differs(got, want)
        if c: return V('differs', 'operation %d (%s): %s' % (i, key_text(kind, key), t))
    elif not (got == want or (got != got and want != want)): return V('differs', 'operation %d (%s): %.17g instead of %.17g' % (i, key_text(kind, key), got, want))
    return None


def ended(r, allow=()):
    """violation if the simulated process did not finish by itself"""
    if r['status'] == 1 or r['ended'] in allow: return []
    return [V(r['ended'] if r['ended'] != 'ended abnormally' else 'no-end', 'the process %s in operation %d' % (describe_end(r), len(r['ops'])))]


def vio(r, kinds, ctx=None, case=None):
    out = []
    for l in r['vio']:
        k, op, t = l.split('|', 2)
        if k in kinds: out.append(V(k, 'operation %s: %s' % (op[3:], symbolise(ctx, case.get('variant', 'tsan'), t) if ctx else t)))
    return out


def mstep(m, op, ok):
    try: return m.step(op, ok)
    except (KeyError, TypeError, IndexError, AttributeError, ValueError, AssertionError) as e: raise Invalid('%r: %r' % (op, e))


def follow2(ctx, case, r, **kw):
    """the same where memory may have run out: an operation that failed has had no effect or all of it (what it set
    may have been in place before the failure)"""
    out = follow(ctx, case, r, **kw)
    if out and any(rec['res'][0] != 'ok' and case['prog'][rec['i']][0] != 'bad' for rec in r['ops']):
        try:
            if not follow(ctx, case, r, took=True, **kw): return []
        except Invalid: pass
    return out


def follow(ctx, case, r, skip=(), may_fail=(), on=None, m=None, took=False):
    """compares every result with that of a fresh process"""
    m = m or Model(); out = []; n_failed = 0
    for rec in r['ops']:
        i = rec['i']; op = case['prog'][i]
        ok = rec['res'][0] == 'ok'
        if op[0] == 'bad':
            m.unsure = True
            if ok: case.setdefault('accepted', []).append(i)
            continue
        try: e = mstep(m, op, ok or took)
        except Invalid as x:
            if ok and n_failed: return out + [V('accepted', 'operation %d %s returned normally though what it needs was never set: an earlier operation raised' % (i, op[0]))]
            raise
        n_failed += not ok
        if not ok and i not in may_fail and op[0] not in may_fail: out.append(V('raises', 'operation %d %s raises %s: %s' % (i, op[0], rec['res'][1], rec['res'][2])))
        if ok and e and i not in skip:
            v = compare(ctx, case, i, e[0], e[1], rec['res'][1])
            if v: out.append(v)
        if on: out += on(i, op, rec, m) or []
    return out


# ---------------------------------------------------------------- program generators

def g_forms(rng, c, p=0.4):
    """the caller passes its arrays as columns of a table, lists, read-only memory, another byte order ..."""
    if rng.random() < p: c['opts'] = dict(c.get('opts') or {}, forms=rng.randrange(1, 2**31))
    return c


def rows(m, op):
    """at how many wavenumbers a calculation is done"""
    if op[0] == 'run': return len(m.o[op[1]].cols.get('k') or ())
    return max([9] + [len(g) for g in m.g.values()]) if op[1] not in m.g else len(m.g[op[1]])


def nthreads_of(o):
    n = o[2].get('nthreads', 8) if o[0] == 'run' else o[-1] if o[0] in ('c_runB', 'c_terms1', 'c_spec1', 'c_rerunB', 'c_rerun1', 'c_rerunspec1', 'c_terms2', 'c_rerun2') else 1
    return n if isinstance(n, int) and n > 0 else 130  # 0: whatever the processors and earlier calls gave


def cheap(prog, rng=None, n=5, p1=1.):
    """inserts settings so that no calculation is too long; returns the program"""
    m = Model(); out = []
    for op in prog:
        if op[0] in ('run', 'c_runB', 'c_spec1', 'c_terms1', 'c_rerunB', 'c_rerun1', 'c_rerunspec1', 'c_terms2', 'c_rerun2', 'c_bispec'):
            slot = op[1] if op[0] == 'run' else 'z' if 'z' in m.o else sorted(m.o)[0]
            cls = m.o[slot].cls if op[0] == 'run' else None
            uses = USES[cls] if cls else USES['A2Loop' if op[0] == 'c_bispec' else 'Spectrum2Loop' if op[0] in ('c_terms2', 'c_rerun2') else 'B2Loop']
            for c in uses:
                if (c in QSET or c in MSET) and 'n' not in m.s.v.get(c, {}):
                    if cls in ('Spectrum2Loop', 'A2Loop') or rng is None or rng.random() < p1 or rows(m, op) > 8 or nthreads_of(op) > 24:
                        x = ('prec', slot, dict(calculation=c, n=n)); out.append(x); mstep(m, x, True)
        out.append(op)
        if op[0] != 'bad': mstep(m, op, True)
    return out


def g_class(rng, heavy=1.): return rng.choices(CLASSES, [3, 2 * heavy, 3, 3, 0.7 * heavy, 3, 2])[0]


def g_run(rng, s, cls, hi=16): return ('run', s, dict(g_ab(rng, cls), nthreads=g_threads(rng, hi)))


LONG = [31, 32, 33, 48, 63, 64, 65, 96, 100, 101, 127, 128, 129, 150, 200, 201, 255, 256, 257, 300, 400, 500, 511, 512, 513, 600, 800, 1000, 1001, 1023, 1024, 1025]


def long_rule(rng, verb='quiet'):
    """one long quadrature rule, the others short"""
    cls = rng.choice(['Spectrum1Loop', 'Spectrum1Loop', 'Bias1Loop', 'A1Loop', 'B1Loop', 'B2Loop', 'Spectrum2Loop', 'A2Loop'])
    c = rng.choice([x for x in USES[cls] if x in QSET + MSET]); n = rng.choice(LONG)
    if cls in ('Spectrum2Loop', 'A2Loop'): n = min(n, rng.choice([33, 65, 101, 129, 201, 257] if c in ('gamma1_2loop_q', 'gamma2_tree_q', 'gamma2_tree_mu', 'gamma1_1loop_q', 'A_2loop_I_mu') else [33, 40, 51, 65]))
    if c == 'bias_1loop_q' or (cls, c) == ('B2Loop', 'gamma2_tree_q'): n = min(n, 300)
    p = [('new', 'a', cls), ('verb', 'a', verb), ('prec', 'a', dict(calculation='all', n=2)), ('prec', 'a', dict(calculation=c, n=n)), ('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, 1, 2)), ('run', 'a', dict(g_ab(rng, cls), nthreads=rng.randint(1, 3)))]
    if rng.random() < 0.4: p += [('prec', 'a', dict(calculation=c, n=rng.choice([2, 3]))), p[-1]]
    return p


def large(rng, verb='quiet', cls=None):
    """tables and grids of real size, and beyond"""
    cls = cls if cls in ('Spectrum1Loop', 'Bias1Loop', 'A1Loop', 'B1Loop') else rng.choice(['Spectrum1Loop', 'Bias1Loop', 'A1Loop', 'B1Loop'])
    d = list(g_spec(rng)); nk = rng.randint(1, 3); table = rng.random() < 0.6
    if table: d[1] = rng.choice([257, 400, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1500, 2000, 2049, 4096, 5000])
    else: nk = rng.choice([131, 200, 255, 256, 257, 300, 400, 511, 512, 513] + [600, 1000, 1001, 1023, 1024, 1025] * (cls == 'Spectrum1Loop'))
    grid = lambda n: ('K', n, 0.008 * rng.uniform(0.5, 2), 0.6 * rng.uniform(0.5, 1.5), rng.randrange(10**6), rng.choice([0, 1, 1, 2, 4, 5]))
    wide = lambda: ('K', rng.choice([3, 10, 40, 300, 1000]), 1e-4, 30., rng.randrange(10**6), rng.choice([1, 1, 2, 4, 5]))
    p = [('new', 'a', cls), ('verb', 'a', verb), ('prec', 'a', dict(calculation='all', n=2)), ('spec', 'a', tuple(d)), ('terms', 'a', grid(nk))]
    if rng.random() < 0.3: p.append(('prec', 'a', dict(calculation='all_pklin', interpol='lin')))
    p.append(g_run(rng, 'a', cls))
    if table: p += [rng.choice([('find', 'a', wide(), 'poly'), ('find', 'a', wide(), 'lin'), ('sig2', 'a', wide(), rng.choice([0.5, 1.]))]) for _ in range(rng.randint(0, 2))]
    if rng.random() < 0.3: p += [('terms', 'a', g_grid(rng, 1, 4)), g_run(rng, 'a', cls)]
    return p


def large2(rng):
    """a large table or grid before or after small ones"""
    a = large(rng); b = [('prec', 'a', dict(calculation='all', n=3)), ('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, 1, 4)), ('run', 'a', dict(nthreads=g_threads(rng, 8))), ('find', 'a', g_grid(rng, 1, 4, True), 'poly')]
    return a[:2] + b + a[2:] if rng.random() < 0.4 else a + b


def simple(rng, runs=2, verb='quiet', hi=16, glo=0, ghi=12, cls=None, n=None):
    if cls is None and rng.random() < 0.05: return long_rule(rng, verb) if rng.random() < 0.6 else large(rng, verb)
    cls = cls or g_class(rng)
    p = [('new', 'a', cls), ('verb', 'a', verb)] + g_cheap(rng, 'a', lo=2, hi=7)
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        kw = g_prec(rng)
        if kw.get('n', 0) or kw.get('interpol') or 'min' in kw: p.append(('prec', 'a', kw))
    if rng.random() < 0.2: p.append(('cut', 'a', g_cut(rng)))
    big = cls not in ('A2Loop', 'Spectrum2Loop')
    p += [('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, glo, ghi if big else min(ghi, 6)))]
    for j in range(runs):
        if j and rng.random() < 0.3: p.append(('terms', 'a', g_grid(rng, glo, ghi if big else min(ghi, 6))))
        if j and rng.random() < 0.2: p.append(('spec', 'a', g_spec(rng)))
        p.append(g_run(rng, 'a', cls, hi))
    return cheap(p, n=n or 4)


def chain(rng, cls=None):
    """calculations of one kind, one thing changed from each to the next"""
    cls = cls or rng.choices(CLASSES, [2, 3, 2, 2, 3, 2, 3])[0]; slow = cls in ('A2Loop', 'Spectrum2Loop')
    grid = lambda: g_grid(rng, 1, 2 if slow else 4); live = ['a']
    p = [('new', 'a', cls), ('verb', 'a', 'quiet'), ('prec', 'a', dict(calculation='all', n=rng.randint(2, 4))), ('spec', 'a', g_spec(rng)), ('terms', 'a', grid()), g_run(rng, 'a', cls, 6)]
    for _ in range(rng.randint(2, 4 if slow else 6)):
        s = rng.choice(live); x = rng.random()
        if x < 0.3: p.append(('spec', s, g_spec(rng)))
        elif x < 0.6:
            kw = g_prec(rng); kw['calculation'] = rng.choice([c for c in USES[cls] if c in QSET + RSET + MSET + PSET])
            if kw['calculation'] in PSET: kw = dict(calculation=kw['calculation'], interpol=rng.choice(['lin', 'poly']))
            p.append(('prec', s, kw))
        elif x < 0.68: p.append(('cut', s, g_cut(rng)))
        elif x < 0.76: p.append(('terms', s, grid()))
        elif x < 0.8: p += [('clear', s), ('prec', s, dict(calculation='all', n=rng.randint(2, 3)))]
        elif x < 0.84: p.append(('caller', rng.randrange(3)))
        elif x < 0.94 and len(live) < 3:
            t = 'abc'[len(live)]; c2 = rng.choice([cls, cls, {'A2Loop': 'A1Loop', 'Spectrum2Loop': 'Spectrum1Loop', 'B2Loop': 'B1Loop', 'B1Loop': 'B2Loop', 'Spectrum1Loop': 'Bias1Loop'}.get(cls, cls)])
            if c2 == cls:
                live.append(t); p += [('new', t, cls), ('spec', t, g_spec(rng)), ('terms', t, grid())]; s = t
        p.append(g_run(rng, s, cls, 6))
    return cheap(p, n=3)


def evals(rng):
    """the same few evaluations again and again, with what they depend on changed in between"""
    cls = rng.choices(CLASSES, [4, 1, 3, 2, 0.3, 3, 1])[0]; live = ['a']
    p = [('new', 'a', cls), ('verb', 'a', 'quiet'), ('prec', 'a', dict(calculation='all', n=rng.randint(2, 4))), ('spec', 'a', g_spec(rng, 0)), ('terms', 'a', g_grid(rng, 1, 5)), g_run(rng, 'a', cls, 6)]
    pool = [g_eval(rng, cls, True, 1) for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5: pool.append(rng.choice([('lin:pk', dict(Dgrowth=0.7)), ('lin:pk', {}), ('lin:sigma8', {}), ('lin:sigmav', dict(Dgrowth=1.3)), ('lin:sigmar', dict(r=4., Dgrowth=0.7)), ('lin:pk_interp', dict(Dgrowth=0.7, k=g_grid(rng, 1, 6, True)))]))
    n = 0
    for _ in range(rng.randint(3, 6)):
        for _ in range(rng.randint(1, 3)):
            s = rng.choice(live); f, kw = rng.choice(pool); n += 1
            p.append(('eval', s, kw, f) if rng.random() < 0.7 else ('hold', s, 'h%d' % n, kw, f))
        s = rng.choice(live); x = rng.random(); m = Model()
        for o in p: mstep(m, o, True)
        if x < 0.35: d = m.o[s].spec[0]; p.append(('modspec', s, ('S', d[1]) + g_spec(rng, 0)[2:]))
        elif x < 0.45: p.append(('spec', s, g_spec(rng, 0)))
        elif x < 0.6: p += [('prec', s, dict(calculation='all', n=rng.randint(2, 5))), g_run(rng, s, cls, 4)]
        elif x < 0.7: p += [('terms', s, g_grid(rng, 1, 5)), g_run(rng, s, cls, 4)]
        elif x < 0.8 and len(live) < 3: t = 'abc'[len(live)]; live.append(t); p.append((rng.choice(['copy', 'deepcopy']), s, t))
        else: p.append(g_run(rng, s, cls, 4))
    for s in live:
        for f, kw in pool: p.append(('eval', s, kw, f))
    return cheap(p, n=3)


BAD = ['prec', 'precn', 'precmin', 'precint', 'cut', 'cutv', 'verb', 'terms', 'termsobj', 'spec', 'speclen', 'specnone', 'specempty', 'spectype', 'specstr', 'runn', 'runa', 'rununset', 'find', 'sig2', 'ipoly', 'key', 'nodes', 'deepcopy', 'padnone', 'padstr', 'precgroup', 'cutgroup']


def g_bad(rng, slot, cls):
    k = rng.choice(BAD)
    if k == 'precn': return ('bad', slot, k, rng.choice(QSET + MSET + ['all', 'all_q', 'all_mu', 'spectrum_1loop_q', 'A_2loop_q']))
    if k == 'precgroup': return ('bad', slot, k, rng.choice(sorted(set(GROUPS) - {'all_pklin'})))
    if k == 'precmin': return ('bad', slot, k, rng.choice(QSET + RSET + ['all', 'all_q', 'spectrum_2loop_q']))
    if k == 'precint': return ('bad', slot, k, rng.choice(QSET + RSET + MSET + PSET + ['all', 'all_q', 'all_mu', 'all_pklin']))
    if k == 'cutv': return ('bad', slot, k, rng.choice(CUTS + ['all']))
    if k in ('speclen', 'spectype', 'specstr'): return ('bad', slot, k, g_spec(rng))
    if k == 'deepcopy': return ('bad', slot, k, cls)
    return ('bad', slot, k)


def nonempty(prog):
    """numpy may allocate when it reshapes an empty array: with failing allocations use grids with at least one wavenumber"""
    f = lambda d: ('K', 1) + tuple(d[2:]) if isinstance(d, tuple) and d and d[0] == 'K' and d[1] == 0 else d
    return [tuple(f(x) for x in o) for o in prog]


def c_head(rng, verb='quiet', small=False, wide=False):
    p = [('new', 'z', 'Spectrum1Loop'), ('verb', 'z', verb), ('prec', 'z', dict(calculation='all', n=rng.randint(2, 5)))]
    p += [('c_spec', x, g_spec(rng, rng.random() < (0.5 if small else 0.12))) for x in 'stu'] + [('c_setpk', 's')]
    hi = 12 if rng.random() < 0.2 else 6
    return p + [('c_grid', x, as_long(rng, g_grid(rng, 0, hi, wide), rng.choice(p[3:6])[2])) for x in 'gh']


def c_prog(rng, steps, p, verbs=None, cuts=False, two=None):
    """calls of the C interface in any order, appended to p (a c_head)"""
    seen = set(); ab = lambda: rng.choice(['delta', 'theta'])
    if two is None: two = rng.random() < 0.5  # also at 2 loops
    for _ in range(steps):
        x = rng.random()
        if x < 0.24: p.append(('c_specB', ab(), ab(), rng.choice('stu')) + ((0,) if rng.random() < 0.08 else ()))
        elif x < 0.46: p.append(('c_runB', rng.choice('gh'), g_threads(rng))); seen.add('B' + p[-1][1])
        elif two and x < 0.51: p.append(('c_terms2', rng.choice('gh'), ab(), ab(), g_threads(rng)))
        elif x < 0.58: p.append(('c_terms1', rng.choice('gh'), ab(), ab(), g_threads(rng))); seen.add('t' + p[-1][1])
        elif x < 0.70: p.append(('c_spec1', rng.choice('gh'), ab(), ab(), g_threads(rng))); seen.add('1' + p[-1][1])
        elif x < 0.80:
            last = [o for o in p if o[0] in ('c_runB', 'c_terms1', 'c_spec1', 'c_terms2')]
            if last:
                o = rng.choice(last); o = [q for q in last if q[0] == o[0]][-1]
                p.append(('c_rerunB', o[1], g_threads(rng)) if o[0] == 'c_runB' else ({'c_terms1': 'c_rerun1', 'c_terms2': 'c_rerun2'}.get(o[0], 'c_rerunspec1'), o[1], ab(), ab(), g_threads(rng)))
        elif two and x < 0.815: p.append(('c_bispec', rng.choice('gh')))
        elif x < 0.88: p.append(('c_setpk', rng.choice('stu')))
        elif x < 0.93: p.append(('caller', rng.randrange(3)))
        elif x < 0.97 or not verbs: p.append(('find', 'z', g_grid(rng, 0, 5, True), rng.choice(['poly', 'lin'])) if False else ('cut', 'z', g_cut(rng)) if cuts else ('nodes', 'z', 0., 1., rng.randint(1, 9)))
        else: p.append(('verb', 'z', rng.choice(verbs)))
    return p


def as_long(rng, g, spec, heavy=False):
    """now and then as many wavenumbers as the table of the spectrum has, but other ones"""
    return g[:1] + (spec[1],) + g[2:] if g[0] == 'K' and spec is not None and spec[1] <= (6 if heavy else 20) and rng.random() < 0.12 else g


def history(rng, steps, weights, classes=None, hi=8, wide=False, small_spec=False, p1=0.97, max_obj=4, grid_hi=5):
    """a random valid program; weights: operation -> weight"""
    m = Model(); p = []; slots = list('abcdefgh'); n_hold = 0

    def add(op):
        p.append(op)
        if op[0] != 'bad': m.step(op, True)
        else: m.unsure = True
    ops = list(weights); w = [weights[o] for o in ops]
    if small_spec is False and rng.random() < 0.06: small_spec = True
    small_spec = bool(small_spec)
    grid = lambda ob: as_long(rng, g_grid(rng, 0, grid_hi if ob.cls not in ('A2Loop', 'Spectrum2Loop') else 3, wide), ob.spec[0] if ob.spec else None, ob.cls in ('A2Loop', 'Spectrum2Loop'))
    guard = 0
    while len(p) < steps and guard < steps * 20:
        guard += 1
        o = rng.choices(ops, w)[0]
        live = sorted(m.o)
        if o == 'new' or not live:
            if len(live) >= max_obj: continue
            s = [x for x in slots if x not in m.o][0]
            cls = rng.choice(classes) if classes else g_class(rng)
            add(('new', s, cls))
            if len(live) == 0 and not p[:-1]: add(('prec', s, dict(calculation='all', n=rng.randint(2, 6))))
            if rng.random() < 0.8: add(('spec' if rng.random() < 0.7 else 'specobj', s, g_spec(rng, small_spec)))
            if rng.random() < 0.8: add(('terms', s, grid(m.o[s])))
            continue
        s = rng.choice(live); ob = m.o[s]; cls = ob.cls
        ready = ob.cols['k'] is not None and m.clear_of(ob)
        if o == 'del':
            if len(live) > 1 or rng.random() < 0.3: add(('del', s))
        elif o in ('spec', 'specobj'): add((o, s, g_spec(rng, small_spec)))
        elif o == 'modspec':
            if ob.spec is not None: d = ob.spec[0]; add(('modspec', s, g_spec(rng)[:1] + (d[1],) + g_spec(rng)[2:]))
        elif o == 'terms': add(('terms', s, grid(m.o[s])))
        elif o == 'modk':
            if ob.cols['k']: add(('modk', s, ('K', len(ob.cols['k'])) + g_grid(rng, 1, 3)[2:]))
        elif o == 'fill':
            if ob.cols['k'] is not None: add(('fill', s, rng.randint(1, 4), rng.randrange(1000)))
        elif o == 'run':
            # B1Loop and B2Loop need a spectrum of their own
            if ready and (ob.spec is not None or cls not in ('B1Loop', 'B2Loop')): add(g_run(rng, s, cls, hi))
        elif o == 'cols':
            if ob.cols['k'] is not None: add(('cols', s))
        elif o in ('eval', 'hold'):
            if ready and ob.cols['res']:
                f, kw = g_eval(rng, cls, ob.spec is not None, len(ob.cols['k']))
                if o == 'eval': add(('eval', s, kw, f))
                else: n_hold += 1; add(('hold', s, 'h%d' % n_hold, kw, f))
        elif o == 'prec': add(('prec', s, g_prec(rng)))
        elif o == 'cut': add(('cut', s, g_cut(rng)))
        elif o == 'clear': add(('clear', s))
        elif o == 'verb': add(('verb', s, rng.choice(['quiet', 'info', 'debug', 'quiet', 'nonsense'])))
        elif o == 'copy' or o == 'deepcopy':
            if len(live) < max_obj + 1 and (o == 'copy' or ob.spec is not None): add((o, s, [x for x in slots if x not in m.o][0]))
        elif o == 'share':
            t = rng.choice(live)
            if m.o[t].spec is not None and t != s: add(('share', s, t))
        elif o == 'take':
            if ob.cols['res'] and len(live) < max_obj + 1: add(('take', s, [x for x in slots if x not in m.o][0], rng.randrange(1000)))
        elif o == 'pad':
            if ready and ob.cols['k']: 
                if len(ob.cols['k']) < 12: add(('pad', s, g_pad(rng, ob.cols['k'])))
        elif o == 'nan0':
            if ob.cols['k'] is not None: add(('nan0', s))
        elif o == 'rescale':
            if ob.cols['k'] is not None: add(('rescale', s, rng.choice([1., 0.8, 1.2])))
        elif o == 'growth':
            if ob.cols['k'] is not None: add(('growth', s, rng.choice([0.5, 2., 0.8, 1.3, rng.uniform(0.3, 1.5), 1.])))
        elif o == 'growlin':
            if ob.spec is not None and (ob.spec[0] + (1.,))[6] in (1., 0.25, 4.): add(('growlin', s, rng.choice([0.5, 2., 0.5, 2., 1.])))
        elif o in ('find', 'sig2'):
            if m.clear_of(ob): add((o, s, g_grid(rng, 0, 8, wide)) + ((rng.choice(['poly', 'lin']),) if o == 'find' else (rng.choice([0.5, 1., 0.2]),)))
        elif o == 'nodes': a = rng.uniform(-5, 5); add(('nodes', s, a, a + rng.uniform(0.1, 5), rng.randint(1, 40)))
        elif o == 'ipoly': add(('ipoly', s, 10**rng.uniform(-3, 0), g_spec(rng, rng.random() < 0.5), rng.choice([4, 5, 6, 7, 8, 9, 1000000]), rng.choice([1, 1, 2, 3, -1, -2])))
        elif o == 'gc': add(('gc',))
        elif o == 'setrows':
            if ob.cols['k']: add(('setrows', s, rng.randrange(1000), rng.uniform(0.02, 0.5)))
        elif o == 'nowiggle':
            kw = {x: rng.uniform(*y) for x, y in dict(h=(0.6, 0.8), omega_b=(0.018, 0.026), omega_m=(0.11, 0.25), T_cmb=(2.6, 2.8), n_s=(0.9, 1.05), Omega_m=(0.25, 0.4), Omega_b=(0.03, 0.06)).items() if rng.random() < 0.3}
            add(('nowiggle', s, g_grid(rng, 2, 9), kw, rng.choice([None, None, 1., rng.uniform(0.5, 1e5)]), rng.choice([1., 1., 0.7])))
        elif o == 'caller': add(('caller', rng.randrange(4)))
        elif o == 'c_spec1':
            if m.last is not None: nm = 'g%d' % len(p); add(('c_grid', nm, g_grid(rng, 0, 4))); add(('c_spec1', nm, rng.choice(['delta', 'theta']), rng.choice(['delta', 'theta']), rng.randint(1, 4)))
        elif o == 'c_bispec':
            if m.last is not None: nm = 'g%d' % len(p); add(('c_grid', nm, g_grid(rng, 0, 3))); add(('c_bispec', nm))
        elif o == 'bad': add(g_bad(rng, s, cls))
        elif o == 'extra': add(('extra', rng.randint(1, 50)))
    return cheap(p, rng, n=3, p1=p1)


ALLOPS = dict(new=6, spec=5, specobj=2, modspec=1.5, terms=5, fill=1, run=14, cols=2, eval=2, prec=5, cut=2, clear=0.6, copy=1.5, deepcopy=2, pad=1.5, rescale=0.7, find=2, sig2=1.5, nodes=0.7, ipoly=0.7, gc=0.5, caller=1.5, c_spec1=1, verb=1, share=1, take=1, modk=1, nan0=0.3, c_bispec=0.4, setrows=0.4, nowiggle=0.3)
ALLOPS['del'] = 2


def W(**kw):
    w = dict(ALLOPS); w.update(kw); return {k: v for k, v in w.items() if v > 0}


class Check:
    known = ()
    level = 'exploration'
    n_quick, n_thorough = 5000, 40000
    wall = (100, 600)

    def allow(self, *a): return a

    def valid(self, prog):
        """every operation refers to something the operations before it have made"""
        m = Model()
        try:
            for op in prog:
                if op[0] != 'bad': mstep(m, tuple(op), True)
        except Invalid: return False
        return True


# ================================================================ P01
class P01(Check):
    id = 'P01'
    rule = 'program: one object, settings, 1-3 calculations with 1-16 threads; case is non-trivial when a team of more than one thread ran; distinct by program and configuration'
    n_quick, n_thorough = 6500, 60000

    def gen(self, rng, i, tier):
        c = dict(prog=simple(rng, runs=rng.choice([1, 1, 2, 3])), cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan')
        if rng.random() < 0.15: c['variant'] = 'kasan'
        if rng.random() < 0.2: c['prog'][1] = ('verb', 'a', 'info')
        if i % 10 == 6: c['prog'] = c_prog(rng, rng.randint(2, 5), c_head(rng), cuts=True)
        return c

    def judge(self, case, ctx):
        r = ctx.run(case)
        return follow(ctx, case, r) + ended(r)


# ================================================================ P02
class P02(Check):
    id = 'P02'
    rule = 'as P01, with the happens-before race detector on; every access of every thread is checked against all earlier unordered accesses'
    n_quick, n_thorough = 6500, 60000

    def gen(self, rng, i, tier):
        c = dict(prog=simple(rng, runs=rng.choice([1, 2]), verb=rng.choice(['quiet', 'quiet', 'info', 'debug'])), cfg=dict(g_env(rng), race_on=1, **g_sched(rng)), variant='tsan')
        if i % 8 == 7:
            cb = ['caller', rng.randrange(3)]
            c['prog'] = c['prog'] + [tuple(cb), c['prog'][-1]]
        elif i % 8 == 3:
            c['prog'] = c_prog(rng, rng.randint(1, 4), c_head(rng, rng.choice(['quiet', 'info', 'debug']), small=True, wide=True), cuts=True)
        elif i % 8 == 5:  # tables of a few wavenumbers, rules that reach beyond them
            p = c['prog']; sp = ('spec', 'a', g_spec(rng, True)); p = [sp if o[0] == 'spec' else o for o in p]
            c['prog'] = p
        return c

    def judge(self, case, ctx):
        r = ctx.run(case)
        return vio(r, ('race',), ctx, case)


# ================================================================ P03
class P03(Check):
    id = 'P03'
    rule = 'columns hold NaN, 1e300 or random values before the calculation; other objects, results kept by the caller and unrelated arrays are watched byte by byte; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 5500, 50000

    def gen(self, rng, i, tier):
        w = W(fill=6, run=14, prec=2, cut=1, hold=3, extra=3, clear=0, verb=0.3, pad=1, rescale=0.5, bad=0, caller=0.5)
        if i % 2:
            p = simple(rng, runs=1, ghi=15); k = [j for j, o in enumerate(p) if o[0] == 'run'][0]
            p = p[:k] + [('extra', 20), ('fill', 'a', rng.randint(1, 3), rng.randrange(99)), p[k], ('fill', 'a', rng.randint(1, 3), 5), p[k], ('find', 'a', g_grid(rng, 0, 8, True), rng.choice(['poly', 'lin'])), ('sig2', 'a', g_grid(rng, 0, 8, True), 0.5), ('cols', 'a')]
        elif i % 8 == 2: p = c_prog(rng, rng.randint(2, 5), c_head(rng, 'quiet', small=True, wide=True), cuts=True)
        else: p = history(rng, rng.randint(10, 18), w)
        return g_forms(rng, dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'tsan', 'kasan']), opts=dict(snapshot=1)))

    def judge(self, case, ctx):
        r = ctx.run(case); prog = case['prog']

        def on(i, op, rec, m):
            out = []
            if rec.get('inputs'): out.append(V('altered', 'operation %d (%s) altered the array it was given' % (i, op[0])))
            for own in rec.get('changed', []):
                s = op[1] if len(op) > 1 else None
                mine = [o for o in own if o.startswith('%s.' % s)]
                if op[0] in ('fill', 'nan0', 'modspec', 'modk', 'rescale', 'setrows'): continue
                if op[0].startswith('c_') and any(o.startswith('c:%s.' % s) and not o.endswith('.k') for o in own): continue
                if op[0] == 'run' and mine and not any(o.endswith('.k') for o in mine): continue
                if op[0] == 'cols' and not mine: pass
                out.append(V('altered', 'operation %d (%s %s) altered %s' % (i, op[0], s, '/'.join(own))))
            return out
        return follow(ctx, case, r, on=on) + ended(r)


# ================================================================ P04
class P04(Check):
    id = 'P04'
    rule = 'a cycle of operations of any kind is repeated; after every operation no working memory, lock or open file may remain, and memory of the Python layer must not grow from cycle to cycle; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 5500, 50000

    def gen(self, rng, i, tier):
        n = rng.choice([1, 2, 3, 4])
        if i % 40 == 2: head = large(rng, rng.choice(['quiet', 'info', 'debug'])); cyc = []; n = 1
        elif i % 4 == 3:
            head = c_head(rng, rng.choice(['quiet', 'info', 'debug'])); h = len(head)
            p = c_prog(rng, rng.randint(2, 6), head, verbs=['quiet', 'debug'], cuts=True); head, cyc = p[:h], p[h:]
            if any('re' == o[0][2:4] for o in cyc) or any(o[0] == 'caller' for o in cyc): n = 1
        elif i % 4 == 2:
            p = history(rng, rng.randint(10, 20), W(clear=0.2, caller=2, c_spec1=2, bad=1)); head, cyc = p, []; n = 1
        else:
            cls = g_class(rng); head = [('new', 'a', cls), ('verb', 'a', rng.choice(['quiet', 'info', 'debug']))] + g_cheap(rng, 'a', lo=2, hi=6) + [('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, 0, 8 if cls not in ('A2Loop', 'Spectrum2Loop') else 3))]
            pool = [g_run(rng, 'a', cls), g_run(rng, 'a', cls), ('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, 0, 6 if cls not in ('A2Loop', 'Spectrum2Loop') else 3)), ('find', 'a', g_grid(rng, 0, 5, True), 'poly'), ('sig2', 'a', g_grid(rng, 0, 5)), ('nodes', 'a', 0., 1., rng.randint(1, 20)), ('ipoly', 'a', 0.1, g_spec(rng), 5), ('deepcopy', 'a', 'b'), ('gc',)]
            cyc = [rng.choice(pool) for _ in range(rng.randint(1, 5))]
            if not any(o[0] == 'run' for o in cyc): cyc.append(pool[0])
        return dict(prog=head + cyc * n, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'kasan']), meta=dict(head=len(head), cyc=len(cyc), n=n))

    def remap(self, case, idx):
        return dict(case, meta=dict(head=len(case['prog']), cyc=0, n=1))  # growth over cycles is not minimised over operations

    def judge(self, case, ctx):
        r = ctx.run(case); out = vio(r, ('free',), ctx, case)
        for rec in r['ops']:
            op = case['prog'][rec['i']]
            if rec['live']:
                at = ', '.join('%d bytes obtained in %s' % (s, symbolise(ctx, case['variant'], 'pc=%d' % pc)[3:]) for pc, s in rec.get('leaks', [])[:3])
                out.append(V('leak', 'after operation %d (%s) the library still holds %d blocks: %s' % (rec['i'], op[0], rec['live'], at))); break
            if rec['locks']: out.append(V('lock', 'after operation %d (%s) a lock is still held' % (rec['i'], op[0]))); break
        for n, f in r['files'].items():
            if r['status'] == 1 and f['opens'] != f['closes']: out.append(V('file', 'file %s was opened %d times and closed %d times' % (n, f['opens'], f['closes'])))
        m = case['meta']; ops = r['ops']
        if m['cyc'] and m['n'] >= 4 and r['status'] == 1:
            e = [ops[m['head'] + m['cyc'] * (j + 1) - 1] for j in range(m['n'])]
            if e[1]['np'] < e[2]['np'] < e[3]['np']: out.append(V('growth', 'arrays held by the Python layer grow with every repetition: %s' % [x['np'] for x in e]))
        return out + ended(r)


# ================================================================ P05
class P05(Check):
    id = 'P05'
    rule = 'random histories of operations (objects deleted, copied, padded, given new grids and spectra) and look-ups in and outside the table, every access checked against live blocks, redzones, stack and global bounds; non-trivial when a team of more than one thread ran or memory was freed and looked up'
    n_quick, n_thorough = 6500, 60000

    def gen(self, rng, i, tier):
        if i % 5 == 4:
            p = c_prog(rng, rng.randint(2, 7), c_head(rng, rng.choice(['quiet', 'info', 'debug', 'debug']), small=True, wide=True), verbs=['quiet', 'debug'], cuts=True)
        elif i % 5 == 3:
            cls = g_class(rng)
            s = g_spec(rng, rng.random() < 0.5); k = simops.spectrum(s)[0]
            lim = [float(k[0]), float(k[-1]), float(k[0]) * (1 - 1e-12), float(k[-1]) * (1 + 1e-12), float(k[1]), float(k[-2]), float(k[0]) * 2 + 1e-9, float(k[0]) / 3, float(k[-1]) * 3, float(k[0]) * 2, float(k[-1]) * 2]
            g = ('KX', tuple(sorted(rng.sample(lim, rng.randint(1, 6)))))
            p = [('new', 'a', cls), ('verb', 'a', 'quiet')] + g_cheap(rng, 'a', lo=1, hi=5)
            if rng.random() < 0.6: p.append(('prec', 'a', dict(calculation=rng.choice(['all', 'all_pklin', 'all_q']), interpol='lin')))
            if rng.random() < 0.3: p.append(('prec', 'a', dict(calculation='all_q', min=float(k[0]) * rng.choice([1., 0.1, 2.]), max=float(k[-1]) * rng.choice([1., 0.5, 5.]))))
            p += [('spec', 'a', s), ('find', 'a', g, 'lin'), ('find', 'a', g, 'poly'), ('sig2', 'a', g, rng.choice([0.5, 1., 3.])), ('terms', 'a', g if cls not in ('A2Loop', 'Spectrum2Loop') else ('KX', g[1][:2])), g_run(rng, 'a', cls)]
            p = cheap(p, n=3)
        else: p = history(rng, rng.randint(8, 22), W(pad=3, copy=2, deepcopy=3, modspec=1, verb=2, rescale=1, caller=2, find=4, sig2=3, bad=1, **{'del': 5}), wide=True, small_spec=rng.random() < 0.3)
        c = dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'kasan', 'kasan']))
        c['cfg']['quarantine'] = rng.choice([-1, -1, 256, 4])
        return g_forms(rng, c)

    def judge(self, case, ctx):
        r = ctx.run(case)
        return vio(r, ('mem',), ctx, case) + [v for v in ended(r) if v.sig in ('crash', 'abort')]


# ================================================================ P06
class P06(Check):
    id = 'P06'
    rule = 'a fault-free run counts the allocations of the library and of the array layer; then the n-th fails, once or for good; non-trivial when the failure was delivered'
    n_quick, n_thorough = 3750, 40000
    keep_cfg = ('c_fail_n', 'np_fail_n', 'c_fail_persist', 'np_fail_persist')

    def gen(self, rng, i, tier):
        x = rng.random()
        if x < 0.45: p = simple(rng, runs=2, ghi=6, hi=6)
        elif x < 0.55:
            p = c_prog(rng, rng.randint(2, 5), c_head(rng), cuts=True); p = p + [o for o in p if o[0] in ('c_runB', 'c_terms1', 'c_spec1', 'c_terms2')][-1:] * 2
        else: p = history(rng, rng.randint(8, 14), W(caller=0.3, verb=0.5, clear=0.2, c_spec1=0.5, pad=3, deepcopy=3, find=3, sig2=2, nodes=2, ipoly=2))
        last = [o for o in p if o[0] == 'run'][-1:]
        p = nonempty(p + last + last)
        return g_forms(rng, dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'kasan']), meta=dict(kind=rng.choice(['c', 'c', 'np']), at=rng.random(), persist=rng.random() < 0.3), keep_cfg=self.keep_cfg), 0.3)

    def remap(self, case, idx): return case

    def judge(self, case, ctx):
        m = case['meta']
        if 'nth' in m: nth = m['nth']
        else:
            c0, ctx.counting = ctx.counting, False
            r0 = ctx.run(case); ctx.counting = c0
            if r0['status'] != 1: return []
            total = r0['n_calloc'] if m['kind'] == 'c' else r0['n_np']
            if not total: return []
            nth = 1 + int(m['at'] * total)
        cfg = {'c_fail_n': nth, 'c_fail_persist': int(m['persist'])} if m['kind'] == 'c' else {'np_fail_n': nth, 'np_fail_persist': int(m['persist'])}
        r = ctx.run(case, cfg=cfg)
        if r['f_calloc'] + r['f_np'] == 0: return []
        # a failed operation is taken to have had no effect, or all of it; everything that returns must be right
        out = []
        for v in follow2(ctx, case, r, may_fail=range(len(case['prog']))):
            v.text += ' after allocation %d of the %s failed%s' % (nth, 'library' if m['kind'] == 'c' else 'array layer', ' (and all later ones)' if m['persist'] else '')
            out.append(v)
        out += [v for v in ended(r) if v.sig in ('hang', 'deadlock')]
        return out


# ================================================================ P07
class P07(Check):
    id = 'P07'
    rule = 'programs of operations with changes of verbosity under clock faults and failing standard output; non-trivial when a fault fired or a team of more than one thread ran'
    n_quick, n_thorough = 5500, 50000

    def gen(self, rng, i, tier):
        p = history(rng, rng.randint(8, 16), W(verb=9, clear=1, new=6, copy=1.5, deepcopy=2, bad=0, fill=0.3))
        if i % 6 == 5: p = c_prog(rng, rng.randint(3, 9), c_head(rng), verbs=['info', 'quiet', 'debug', 'quiet'], cuts=True)
        # most programs are in quiet mode from the start
        elif rng.random() < 0.6: p = [p[0], ('verb', p[0][1], 'quiet')] + p[1:]
        cfg = dict(g_env(rng), clock_mode=rng.choice([0, 1, 2, 3, 4, 5]), line_buffered=rng.randrange(3), **g_sched(rng))
        if rng.random() < 0.5: cfg.update(out_fail_after=int(10**rng.uniform(0, 3)), out_fail_mode=rng.choice([1, 2, 3]))
        return dict(prog=p, cfg=cfg, variant='tsan')

    def judge(self, case, ctx):
        r = ctx.run(case); out = []; state = dict(v='info')

        def on(i, op, rec, m):
            o = []
            before = state['v']; state['v'] = m.verb
            # an operation that chooses the mode itself is not judged by the new mode
            if before == 'quiet' and m.verb == 'quiet' and op[0] != 'bad':
                n = rec['out'][1] - rec['out'][0]; e = rec['err'][1] - rec['err'][0]
                if n or e or rec['fd']:
                    t = r['out'][rec['out'][0]:rec['out'][1]] or r['err'][rec['err'][0]:rec['err'][1]] or rec.get('fdtext', '')
                    o.append(V('noise', 'operation %d (%s) in quiet mode wrote %r' % (i, op[0], t[:120])))
            return o
        out += follow(ctx, case, r, on=on)
        return out + ended(r)


# ================================================================ P08
DUMPS = {'Spectrum1Loop': 'debug_terms_spectrum_1loop.dat', 'Spectrum2Loop': 'debug_terms_spectrum_2loop.dat', 'B1Loop': 'debug_spectra_B.dat', 'B2Loop': 'debug_spectra_B.dat'}
DCOLS = {'Spectrum1Loop': ['k', 'gamma1a_1loop', 'gamma1b_1loop', 'pk_gamma2_tree_tree'],
         'Spectrum2Loop': ['k', 'gamma1a_1loop', 'gamma1a_2loop', 'gamma1b_1loop', 'gamma1b_2loop', 'pk_gamma2_tree_tree', 'pk_gamma2_tree_1loop', 'pk_gamma2_1loop_1loop', 'pk_gamma3_tree']}


class P08(Check):
    id = 'P08'
    rule = 'calculations in every mode on a simulated directory with older files; opening fails, the disk fills up, or the process is killed at a random step and another one runs on what is left; non-trivial when a fault fired or a dump was written'
    n_quick, n_thorough = 5000, 40000

    def nontrivial(self, case, ctx, n0): return True

    def gen(self, rng, i, tier):
        p = simple(rng, runs=1, verb=rng.choice(['debug', 'debug', 'debug', 'quiet', 'info']), ghi=10, hi=6, cls=rng.choice(['Spectrum1Loop', 'Spectrum1Loop', 'Spectrum2Loop', 'B1Loop', 'B2Loop', 'Bias1Loop', 'A1Loop', 'A2Loop']))
        if rng.random() < 0.4:
            k = [o for o in p if o[0] == 'run'][0]; p = p + [('terms', 'a', g_grid(rng, 0, 8 if p[0][2] not in ('A2Loop', 'Spectrum2Loop') else 3))] + [k]
        if i % 4 == 3: p = c_prog(rng, rng.randint(2, 7), c_head(rng, rng.choice(['debug', 'debug', 'debug', 'info']), small=True, wide=True), verbs=['debug', 'quiet'], cuts=True)
        cfg = dict(g_env(rng), **g_sched(rng)); f = rng.random(); meta = dict(kill=0.)
        if f < 0.2: cfg['fopen_fail_n'] = rng.randint(1, 3)
        elif f < 0.5: cfg.update(fs_fail_after=int(10**rng.uniform(0, 3)), fs_fail_mode=rng.choice([1, 2, 3]))
        elif f < 0.7: meta['kill'] = rng.choice([rng.random(), 1. - 10**rng.uniform(-6, -1)])
        fs = {}
        for n in set(DUMPS.values()):
            if rng.random() < 0.6: fs[n] = ''.join('%f %f %f %f\n' % tuple(rng.random() for _ in range(4)) for _ in range(rng.choice([0, 1, 5, 200])))
        return dict(prog=p, cfg=cfg, variant=rng.choice(['tsan', 'tsan', 'kasan']), fs=fs, meta=meta)

    def expected(self, ctx, case, r, m0=None):
        """what each dump should hold after the last operation that finished, and whether the process should have gone"""

    def table(self, ctx, case, cls, key, rec):
        """rows the dump of a finished calculation must hold (list of arrays)"""
        st, want = ctx.ref(case, 'run', key)
        if st != 'ok': return None
        if cls in DCOLS: return np.array([simops.unpack(want[c]).ravel() for c in DCOLS[cls]]).T.reshape(-1, len(DCOLS[cls]))
        if cls == 'B1Loop': k, pk = simops.spectrum(key[1]); return np.array([k, pk, pk]).T
        if cls == 'B2Loop':
            spec = key[1]; k, pk = simops.spectrum(spec)
            can = tuple(x for x in key[4] if x[0] in S1)
            cols = []
            for ab in (('delta', 'theta'), ('theta', 'theta')):
                prog = canonical_prog('run', ('Spectrum1Loop', spec, tuple(k.tolist()), ab, can)) + [('eval', 'r')]
                st, x = ctx.fresh(case, prog)
                if st != 'ok': return None
                cols.append(simops.unpack(x['pk']).ravel())
            return np.array([k] + cols).T

    def nested(self, ctx, case, key):
        """the 1-loop dump that a B term at 2 loops leaves: that of its last 1-loop spectrum"""
        spec = key[1]; k, _ = simops.spectrum(spec); can = tuple(x for x in key[4] if x[0] in S1)
        return self.table(ctx, case, 'Spectrum1Loop', ('Spectrum1Loop', spec, tuple(k.tolist()), ('theta', 'theta'), can), None)

    def c_dumps(self, ctx, case, kind, key):
        """[(file, rows)] that a calculation called through the C interface leaves in debug mode"""
        out = []; fresh = lambda prog: ctx.fresh(case, prog)
        if kind in ('c1', 'ct'):
            lin, k, a, b, can = key
            st, x = ctx.ref(case, 'ct', key)
            if st == 'ok': out.append((DUMPS['Spectrum1Loop'], np.array([np.array(k)] + [simops.unpack(x[c]).ravel() for c in 'abc']).T.reshape(-1, 4)))
        if kind == 'c2':
            st, x = ctx.ref(case, kind, key)
            if st == 'ok': out.append((DUMPS['Spectrum2Loop'], np.array([np.array(key[1])] + [simops.unpack(x[c]).ravel() for c in 'abcdefgh']).T.reshape(-1, 9)))
        if kind == 'cB':
            lin, k, dt, tt, can = key; c1 = tuple(x for x in can if x[0] in S1)
            if dt is None or tt is None:  # both are calculated, at the wavenumbers of the linear spectrum
                kl = tuple(simops.spectrum(lin)[0].tolist()); cols = [np.array(kl)]
                for ab in ('delta', 'theta'):
                    st, x = ctx.ref(case, 'c1', (lin, kl, ab, 'theta', c1))
                    if st != 'ok': return out
                    cols.append(simops.unpack(x['pk']).ravel())
                out.append((DUMPS['B2Loop'], np.array(cols).T)); out += self.c_dumps(ctx, case, 'ct', (lin, kl, 'theta', 'theta', c1))
            else:  # the two that were set; the second at the wavenumbers of the first
                kd, pd = simops.spectrum(dt); kt, pt = simops.spectrum(tt)
                st, x = ctx.ref(case, 'find', (tt, tuple(kd.tolist()), 'poly'))
                if st != 'ok': return out
                x = np.array(simops.unpack(x['pk'] if isinstance(x, dict) else x)).ravel()
                y = np.array([pt[kt == q][0] if (kt == q).any() else z for q, z in zip(kd, x)])
                out.append((DUMPS['B2Loop'], np.array([kd, pd, y]).T))
        return out

    @staticmethod
    def parse(data):
        return [[float(x) for x in l.split()] for l in data.decode('latin-1').split('\n') if l.strip()]

    def match(self, name, data, rows):
        try: got = self.parse(data)
        except ValueError: return 'is not a table of numbers'
        if not data.endswith(b'\n') and len(rows): return 'ends in the middle of a line'
        if len(got) != len(rows): return 'has %d lines instead of %d' % (len(got), len(rows))
        for i, (g, w) in enumerate(zip(got, rows)):
            if len(g) != len(w): return 'line %d has %d columns instead of %d' % (i, len(g), len(w))
            for j in range(len(w)):
                if not (abs(g[j] - w[j]) <= 1.1e-6 * max(1., abs(w[j]) * 1e-3) or (g[j] != g[j] and w[j] != w[j]) or g[j] == w[j]): return 'line %d, column %d holds %r instead of %r' % (i, j, g[j], w[j])
        return None

    def judge(self, case, ctx):
        meta = case['meta']; kill = {}
        if meta['kill']:
            c0, ctx.counting = ctx.counting, False
            r0 = ctx.run(case); ctx.counting = c0
            if r0['status'] != 1: return ended(r0)
            kill = dict(kill_step=max(1, int(meta['kill'] * r0['steps'])))
        r = ctx.run(case, cfg=kill)
        out = self.check(case, ctx, r, case.get('fs') or {})
        if r['status'] == 6:  # killed: the next process finds what is left
            left = {n: f['data'] for n, f in r['files'].items() if f['exists']}
            r2 = ctx.run(case, fs=left, cfg=dict(kill_step=0))
            out += [V(v.sig, 'in the process that runs after a kill: ' + v.text) for v in self.check(case, ctx, r2, left)]
        return out

    def check(self, case, ctx, r, fs):
        m = Model(); out = []; exp = {n: ('old', d) for n, d in fs.items()}; cfg = case['cfg']; faulty = r['f_fs'] > 0
        for rec in r['ops']:
            i = rec['i']; op = case['prog'][i]; ok = rec['res'][0] == 'ok'; e = mstep(m, op, ok)
            if not ok: out.append(V('raises', 'operation %d %s raises %s: %s' % (i, op[0], rec['res'][1], rec['res'][2]))); continue
            if e:
                v = compare(ctx, case, i, e[0], e[1], rec['res'][1])
                if v: out.append(v)
                if m.verb == 'debug' and e[0][0] == 'c':
                    for n, rows in self.c_dumps(ctx, case, *e): exp[n] = ('new', rows)
                cls = m.o[op[1]].cls if op[0] == 'run' else None
                if m.verb == 'debug' and cls in DUMPS:
                    rows = self.table(ctx, case, cls, e[1], rec)
                    if rows is not None: exp[DUMPS[cls]] = ('new', rows)
                    if cls == 'B2Loop':
                        rows = self.nested(ctx, case, e[1])
                        if rows is not None: exp[DUMPS['Spectrum1Loop']] = ('new', rows)
        n_done = len(r['ops']); op = case['prog'][n_done] if n_done < len(case['prog']) else None
        if r['f_fopen']:
            # the process ends, visibly, and says which file
            if r['status'] == 1: out.append(V('silent', 'a dump could not be opened and the process went on'))
            elif r['ended'] != 'exit': out.append(V('silent', 'a dump could not be opened and the process %s' % describe_end(r)))
            elif r['exit_code'] == 0: out.append(V('silent', 'a dump could not be opened and the process ended with status 0'))
            elif not any(n in r['err'] for n in DUMPS.values()): out.append(V('silent', 'the message %r does not name the file' % r['err'][:200]))
            return out
        if r['status'] == 6: # what is there of files not being written at the kill must be complete
            return out
        out += ended(r)
        if r['status'] != 1: return out
        names = set(exp) | set(n for n, f in r['files'].items() if f['exists'])
        for n in sorted(names):
            f = r['files'].get(n)
            data = f['data'] if f and f['exists'] else None
            if n not in exp: out.append(V('file', 'file %s was created' % n)); continue
            kind, want = exp[n]
            if kind == 'old':
                if data != want: out.append(V('file', 'file %s was changed' % n))
            elif data is None: out.append(V('dump', 'file %s was not written' % n))
            elif faulty:
                if not self.prefix(data, want, case): out.append(V('dump', 'file %s does not hold a prefix of the dump after a write failed: %r' % (n, data[:80])))
            else:
                t = self.match(n, data, want)
                if t: out.append(V('dump', 'file %s %s' % (n, t)))
        return out

    def prefix(self, data, rows, case):
        mode = case['cfg'].get('fs_fail_mode')
        if mode == 3: return True  # one failed write in the middle leaves a hole; nothing to hold against the library
        try: t = data.decode('latin-1')
        except Exception: return False
        lines = t.split('\n'); full = lines[:-1]
        if len(full) > len(rows): return False
        for g, w in zip(full, rows):
            try: g = [float(x) for x in g.split()]
            except ValueError: return False
            if len(g) != len(w) or any(not (abs(a - b) <= 1.1e-6 * max(1., abs(b) * 1e-3) or a == b or (a != a and b != b)) for a, b in zip(g, w)): return False
        return True


# ================================================================ P09
class P09(Check):
    id = 'P09'
    rule = 'random histories (calculations of all kinds, spectra, grids, settings, failed calls, other calling threads, C entry points); every result is compared with that of a fresh process; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 5000, 50000

    def gen(self, rng, i, tier):
        if i % 6 == 5: return g_forms(rng, dict(prog=chain(rng), cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan'), 0.2)
        if i % 12 == 2: return g_forms(rng, dict(prog=evals(rng), cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan'), 0.1)
        if i % 40 == 16: return g_forms(rng, dict(prog=large2(rng), cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan'), 0.2)
        steps = rng.randint(10, 24)
        p = []
        if rng.random() < 0.25:  # C entry points first: they register arrays of their own
            p = c_prog(rng, rng.randint(1, 6), c_head(rng), cuts=True)
            if rng.random() < 0.3: return dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan')
            p.append(('cut', 'z', dict(calculation='all')))
            p += [('prec', 'z', dict(calculation='all')), ('del', 'z')]
        w = W(bad=2, caller=2.5, c_spec1=1.5, modspec=2, clear=1, verb=1)
        q = history(rng, steps, w) if rng.random() < 0.7 else history(rng, steps, w, classes=rng.choice([['Spectrum1Loop', 'Spectrum2Loop'], ['B1Loop', 'B2Loop'], ['A1Loop', 'A2Loop'], ['Bias1Loop', 'A1Loop'], ['Spectrum1Loop', 'B2Loop']]))
        return g_forms(rng, dict(prog=p + q, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'tsan', 'kasan'])), 0.3)

    def judge(self, case, ctx):
        r = ctx.run(case)
        return follow(ctx, case, r) + ended(r)


# ================================================================ P10
GSPEC = ('S', 30, 1e-3, 10., 7, 0); GSPEC2 = ('S', 26, 2e-3, 8., 11, 1); GK = (0.05, 0.31)
VARIANTS = {'q': [dict(n=5), dict(min=0.02, max=2.), dict(min=-1., max=3.), dict(min=0.01, max=-1.), dict(interpol='lin'), dict(n=6, min=0.05, max=0.5, interpol='lin'), {}],
            'r': [dict(min=0.02, max=2.), dict(min=-1., max=3.), dict(interpol='lin'), {}], 'm': [dict(n=5), dict(interpol='lin'), {}], 'p': [dict(interpol='lin')]}
HEAVY = {('A2Loop', 'A_2loop_I_q'), ('A2Loop', 'gamma1_1loop_q'), ('A2Loop', 'gamma2d_1loop_q'), ('A2Loop', 'gamma2t_1loop_q')}


def golden_entries():
    """(name, program, suave_n): a calculation under one setting, the others being short"""
    out = []

    def add(name, cls, ops, ab=None, k=GK, default=False, sn=8):
        q = [('new', 'r', cls), ('verb', 'r', 'quiet')] + ([] if default else [('prec', 'r', dict(calculation='all', n=4))]) + ops
        kw = dict(nthreads=1)
        if cls in AB: kw.update(a=(ab or ('delta', 'theta'))[0], b=(ab or ('delta', 'theta'))[1])
        out.append(('%s %s' % (cls, name), q + [('spec', 'r', GSPEC), ('terms', 'r', ('KX', tuple(k))), ('run', 'r', kw)], sn))
    for cls in CLASSES:
        add('base', cls, [])
        if cls in AB:
            for ab in (('delta', 'delta'), ('theta', 'delta'), ('theta', 'theta')): add('%s-%s' % ab, cls, [], ab)
        if cls != 'A2Loop': add('defaults', cls, [], k=(0.12,), default=True)
        for c in USES[cls]:
            if c.startswith('cut:'):
                for x in (0.2, 1.3): add('%s=%g' % (c, x), cls, [('cut', 'r', dict(calculation=c[4:], uvcutoff=x))])
                continue
            for v in VARIANTS['p' if c in PSET else 'r' if c in RSET else 'm' if c in MSET else 'q']:
                if not v and cls == 'A2Loop' and c in QSET: continue
                add('%s %s' % (c, json.dumps(v, sort_keys=True)), cls, [('prec', 'r', dict(v, calculation=c))], k=GK if v else GK[:1])
    Z = [('new', 'r', 'Spectrum1Loop'), ('verb', 'r', 'quiet'), ('prec', 'r', dict(calculation='all', n=4))]
    C = [('c_spec', 'D', GSPEC2), ('c_spec', 'T', GSPEC2[:4] + (12, 0)), ('c_spec', 'L', GSPEC), ('c_setpk', 'L'), ('c_grid', 'g', ('KX', GK))]
    out.append(('B given spectra', Z + C + [('c_specB', 'delta', 'theta', 'D'), ('c_specB', 'theta', 'theta', 'T'), ('c_runB', 'g', 1)], 8))
    out.append(('B one loop', Z + C + [('c_runB', 'g', 1)], 8))
    for name, q in [('', []), (' cut', [('cut', 'z', dict(calculation='bispectrum_1loop', uvcutoff=0.2))]), (' lin', [('prec', 'z', dict(calculation='bispectrum_1loop_pk_lin', interpol='lin'))])] + [(' ' + c, [('prec', 'z', dict(calculation=c, n=6, min=1e-3, max=2., interpol='lin'))]) for c in ('gamma1_1loop_q', 'gamma2d_1loop_q', 'gamma2t_1loop_q')]: out.append(('bispectrum' + name, [(o[0], 'r') + o[2:] for o in Z + q] + C + [('c_bispec', 'g')], 8))
    for a, b in (('delta', 'theta'), ('theta', 'theta'), ('delta', 'delta')): out.append(('spectrum %s %s' % (a, b), Z + C + [('c_spec1', 'g', a, b, 1)], 8))
    return out


def load_golden():
    f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'golden', 'settings.json')
    return json.load(open(f)) if os.path.exists(f) else {}


def close(got, want, rtol=1e-6):
    """None, or what differs; want: column -> list of values"""
    if sorted(got) != sorted(want): return 'columns %s instead of %s' % (sorted(got), sorted(want))
    for c in sorted(want):
        a = simops.unpack(got[c]).ravel() if isinstance(got[c], tuple) else np.asarray(got[c]); b = np.array(want[c]).ravel()
        if a.size != b.size: return 'column %s has %d values instead of %d' % (c, a.size, b.size)
        bad = ~(np.abs(a - b) <= rtol * np.maximum(np.abs(b), 1e-3 * np.abs(b).max() if b.size else 0)) & ~(np.isnan(a) & np.isnan(b))
        if bad.any(): i = int(np.flatnonzero(bad)[0]); return 'column %s, element %d is %.12g instead of %.12g' % (c, i, a[i], b[i])
    return None


class P10(Check):
    id = 'P10'
    rule = 'three kinds of case: random sequences of setting calls (groups, zero orders, reversed ranges, unknown interpolations, clear) with calculations in between, compared with a fresh process in which the settings in force were made one by one; calculations under every single setting and under the defaults compared with values recorded from the accepted tree (1e-6); non-positive limits compared with the range of the spectrum; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 5250, 40000

    def __init__(self):
        self.entries = golden_entries(); self.golden = load_golden()

    def gen(self, rng, i, tier):
        cfg = dict(g_env(rng), **g_sched(rng))
        if i % 3 == 0:
            name, prog, sn = self.entries[(i // 3) % len(self.entries)]; nt = min(g_threads(rng), 24); cfg['nprocs'] = min(cfg['nprocs'], 24)
            prog = [(o[:2] + (dict(o[2], nthreads=nt),)) if o[0] == 'run' else o[:-1] + (nt,) if o[0] in ('c_runB', 'c_spec1') else o for o in prog]
            pre = []
            for _ in range(rng.choice([0, 0, 1, 2, 4])): pre.append(rng.choice([('prec', 'r', g_prec(rng)), ('cut', 'r', g_cut(rng))]))
            if pre: pre.append(('clear', 'r'))
            cfg['suave_n'] = sn
            return dict(prog=prog[:1] + pre + prog[1:], cfg=cfg, variant='tsan', meta=dict(kind='golden', name=name))
        if i % 12 == 1:
            cls = g_class(rng); c = rng.choice([x for x in USES[cls] if x in QSET + RSET]); sp = g_spec(rng); k = simops.spectrum(sp)[0]
            a = rng.choice([dict(min=rng.choice([-1., -0.3, 0.]), max=float(k[-1]) * rng.uniform(0.2, 0.7)), dict(min=-2., max=rng.choice([-1., -0.5, 0.]))])
            b = dict(min=float(k[0]), max=float(k[-1]))
            x = rng.choice([{}, dict(n=rng.randint(3, 6))]) if c in QSET else {}
            base = [('new', 'r', cls), ('verb', 'r', 'quiet'), ('prec', 'r', dict(calculation='all', n=4)), ('prec', 'r', dict(a, calculation=c, **x)), ('spec', 'r', sp), ('terms', 'r', g_grid(rng, 1, 4 if cls not in ('A2Loop', 'Spectrum2Loop') else 2)), g_run(rng, 'r', cls)]
            if rng.random() < 0.5: base[4:4] = [('spec', 'r', g_spec(rng)), ('terms', 'r', g_grid(rng, 1, 2)), g_run(rng, 'r', cls)]  # another spectrum before
            return dict(prog=base, cfg=cfg, variant='tsan', meta=dict(kind='limits', b=b), fixed_prog=1)
        if i % 12 == 4: return dict(prog=chain(rng), cfg=cfg, variant='tsan', meta=dict(kind='history'))
        w = W(prec=30, cut=8, clear=2.5, verb=1.5, run=14, new=4, fill=0, copy=0.7, deepcopy=0.7, pad=0, rescale=0, find=0.5, sig2=0.5, nodes=0, ipoly=0, c_spec1=1, bad=0.7, extra=0)
        p = history(rng, rng.randint(12, 26), w, p1=0.93, classes=rng.choice([None, None, ['Spectrum1Loop', 'B2Loop'], ['Spectrum2Loop', 'A2Loop'], ['Bias1Loop', 'A1Loop'], ['B1Loop', 'A1Loop']]), grid_hi=3)
        return dict(prog=p, cfg=cfg, variant=rng.choice(['tsan', 'tsan', 'kasan']), meta=dict(kind='history'))

    def lookups(self, ctx, case, r, i, op, rec, m):
        """the verbosity in force; the cutoff and the interpolation, seen through the stand-alone look-ups"""
        if op[0] != 'run' or rec['res'][0] != 'ok': return []
        text = r['out'][rec['out'][0]:rec['out'][1]]
        if m.verb in ('quiet', 'info') and not r['out_lost'] and bool(text) != (m.verb == 'info'): return [V('verbosity', 'operation %d (run): the verbosity is %r, printed: %r' % (i, m.verb, text[:60]))]
        ob = m.o[op[1]]; g = {'Spectrum1Loop': 'spectrum_1loop', 'Spectrum2Loop': 'spectrum_2loop', 'Bias1Loop': 'bias_1loop', 'A1Loop': 'A_1loop', 'A2Loop': 'A_2loop'}.get(ob.cls, 'B')
        sp = m.spec_of(ob); k = tuple(ob.cols['k']); out = []
        for c, e in (('pk_lin', ('find', (sp[0], k, m.s.v.get(g + '_pk_lin', {}).get('interpol', 'poly')))), ('sigmad2', ('sig2', (sp[0], k, m.s.v.get('cut:' + g, {}).get('uvcutoff', 0.5))))):
            st, want = ctx.ref(case, *e)
            if st == 'ok':
                a, b = simops.unpack(rec['res'][1][c]).ravel(), simops.unpack(list(want.values())[0]).ravel()
                if a.size != b.size or not np.allclose(a, b, 1e-9, 1e-12 * (np.nanmax(np.abs(b), initial=0.)), True): out.append(V('lookup', 'operation %d (%s): column %s is not what the look-up gives with the settings in force, %r' % (i, ob.cls, c, e[1][2])))
        return out

    def judge(self, case, ctx):
        m = case['meta']
        if m['kind'] == 'history': r = ctx.run(case); return follow(ctx, case, r, on=lambda *a: self.lookups(ctx, case, r, *a)) + ended(r)
        r = ctx.run(case); out = ended(r)
        if out: return out
        bad = [(rec['i'], rec['res']) for rec in r['ops'] if rec['res'][0] != 'ok']
        if bad: return [V('raises', 'operation %d raises %s: %s' % (bad[0][0], bad[0][1][1], bad[0][1][2]))]
        if m['kind'] == 'golden':
            if case['prog'][-1][0] not in ('run', 'c_runB', 'c_spec1', 'c_bispec'): raise Invalid('no result')
            t = close(r['ops'][-1]['res'][1], self.golden[m['name']])
            return [V('golden', '%s: %s' % (m['name'], t))] if t else []
        j = [i for i, o in enumerate(case['prog']) if o[0] == 'prec'][-1]
        prog = [(o[:2] + (dict({k: v for k, v in o[2].items() if k not in ('min', 'max')}, **m['b']),)) if i == j else o for i, o in enumerate(case['prog'])]
        st, want = ctx.fresh(case, prog, dict(suave_n=case['cfg']['suave_n']))
        if st != 'ok': return [V('reference', want)]
        c, t = where_differs(r['ops'][-1]['res'][1], want)
        return [V('limits', 'limits %r: %s (with the limits of the spectrum, %r)' % (case['prog'][j][2], t, m['b']))] if c else []


# ================================================================ P11
class P11(Check):
    id = 'P11'
    rule = 'histories on 2-5 objects that share classes, are copied, padded and deleted; every result is compared with that of a fresh process holding only that object, and all arrays of other objects and all results kept are watched; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 4500, 45000

    def gen(self, rng, i, tier):
        cl = rng.choice([None, None, ['Spectrum1Loop'], ['B1Loop', 'B2Loop'], ['Spectrum1Loop', 'B2Loop'], ['A1Loop'], ['Bias1Loop'], ['A1Loop', 'A2Loop'], ['Spectrum1Loop', 'Spectrum2Loop']])
        p = history(rng, rng.randint(12, 26), W(new=9, copy=3, deepcopy=4, pad=3, hold=3, cols=6, prec=1, clear=0.2, cut=0.5, caller=0.5, fill=1, rescale=1, **{'del': 3}), classes=cl, max_obj=5)
        return g_forms(rng, dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'kasan']), opts=dict(snapshot=1)))

    def judge(self, case, ctx):
        r = ctx.run(case)

        def on(i, op, rec, m):
            out = []
            if rec.get('inputs'): out.append(V('altered', 'operation %d (%s) altered the array it was given' % (i, op[0])))
            if op[0] in ('fill', 'nan0', 'modspec', 'modk', 'rescale', 'setrows'): return out
            s = op[1] if len(op) > 1 else None
            for own in rec.get('changed', []):
                if op[0] == 'run' and any(o.startswith('%s.' % s) for o in own): continue
                if op[0].startswith('c_') and any(o.startswith('c:%s.' % s) for o in own): continue
                out.append(V('disturbed', 'operation %d (%s %s) changed %s' % (i, op[0], s, '/'.join(own))))
            return out
        return follow(ctx, case, r, on=on) + ended(r)


# ================================================================ P12
class P12(Check):
    id = 'P12'
    rule = 'the integrator evaluates the same samples in several worker processes, in any order and batches, twice, and again after a worker is lost; results must equal those of one process; non-trivial when an integrator fault fired'
    n_quick, n_thorough = 4500, 40000

    def gen(self, rng, i, tier):
        cls = rng.choices(['Spectrum2Loop', 'A2Loop'], [3, 2])[0]
        p = [('new', 'a', cls), ('verb', 'a', rng.choice(['quiet', 'quiet', 'info', 'debug']))] + g_cheap(rng, 'a', lo=2, hi=5)
        for _ in range(rng.choice([0, 0, 1])): p.append(('prec', 'a', g_prec(rng)))
        for _ in range(rng.choice([1, 1, 2])): p += [('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, 1, 4)), g_run(rng, 'a', cls, 6)]
        cfg = dict(g_env(rng), **g_sched(rng))
        cfg.update(suave_n=rng.choice([1, 4, 8, 16, 40]), suave_workers=rng.choice([0, 1, 2, 3, 5, 8]), suave_order=rng.randrange(3), suave_dup=rng.randrange(2), suave_lose=rng.randrange(2), suave_fail=rng.randrange(3))
        return dict(prog=cheap(p, n=3), cfg=cfg, variant='tsan')

    def nontrivial(self, case, ctx, n0): return sum(ctx.faults.values()) > n0[2]

    def judge(self, case, ctx):
        r = ctx.run(case)
        return vio(r, ('integrand',), ctx, case) + follow(ctx, case, r) + ended(r)


# ================================================================ P13
class P13(Check):
    id = 'P13'
    rule = 'calculations in info mode under every schedule; each line of the report is checked and the set of lines compared with that of a fresh process on one thread; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 6000, 50000
    TIME = re.compile(r'(el+apsed)\b.*$')

    def gen(self, rng, i, tier):
        p = simple(rng, runs=rng.choice([1, 2]), verb='info', glo=0, ghi=40 if i % 3 == 0 else 14, n=2)
        if i % 4 == 1 and not any(o[0] == 'prec' and o[2].get('n', 0) > 100 for o in p):  # the verbosity is changed on the way, reports resume with clear() as with set_verbosity()
            q = p[:2]
            for o in p[2:]:
                if o[0] in ('run', 'terms', 'spec') and rng.random() < 0.4: q += rng.choice([[('verb', 'a', 'quiet')], [('verb', 'a', 'info')], [('verb', 'a', 'quiet'), ('verb', 'a')], [('verb', 'a', 'quiet'), ('clear', 'a'), ('prec', 'a', dict(calculation='all', n=3))], [('verb', 'a', 'nonsense')], [('verb', 'a', 'debug')]])
                q.append(o)
            p = q
        cfg = dict(g_env(rng), line_buffered=rng.randrange(3), **g_sched(rng))
        if cfg.get('grant_mode') == 2: cfg.pop('grant_mode')
        return dict(prog=p, cfg=cfg, variant='tsan')

    def norm(self, l): return self.TIME.sub(r'\1', re.sub(r'using \d+ threads', 'using N threads', l))

    def judge(self, case, ctx):
        r = ctx.run(case); out = []; m = Model()
        if r['out_lost']: return out
        for rec in r['ops']:
            i = rec['i']; op = case['prog'][i]; ok = rec['res'][0] == 'ok'; mstep(m, op, ok)
            if op[0] not in ('run', 'terms', 'spec') or not ok or m.verb != 'info': continue
            text = r['out'][rec['out'][0]:rec['out'][1]]
            if text and not text.endswith('\n'): out.append(V('line', 'operation %d: the report ends in the middle of a line: %r' % (i, text[-60:])))
            lines = text.split('\n')
            # same lines as one thread
            key = tuple(o for o in case['prog'][:i] if o[0] not in ('run', 'verb')) + (('verb', op[1], 'info'),) + ((op[:2] + (dict(op[2], nthreads=1),)) if op[0] == 'run' else op,)
            st, ref = ctx.fresh(case, list(key), dict(suave_n=case['cfg'].get('suave_n', 24)), last=False)
            if st != 'ok': out.append(V('reference', 'operation %d: %s' % (i, ref))); continue
            rr = ref['ops'][-1]; want = ref['out'][rr['out'][0]:rr['out'][1]].split('\n')
            a, b = sorted(map(self.norm, lines)), sorted(map(self.norm, want))
            if a != b:
                extra = [l for l in a if a.count(l) > b.count(l)]; miss = [l for l in b if b.count(l) > a.count(l)]
                out.append(V('lines', 'operation %d: lines printed %r, expected %r' % (i, extra[:3], miss[:3])))
            if op[0] == 'run':
                cls = m.o[op[1]].cls; nk = len(m.o[op[1]].cols['k']); nks = [nk]; loops = {}
                if cls == 'B2Loop': nks.append(m.spec_of(m.o[op[1]])[0][1])
                ok_fig = set(100 * j // n for n in nks if n for j in range(n))
                figs = []
                for l in lines:
                    g = re.search(r'done at\s+(\S+)\s+percent', l)
                    if g:
                        try: x = float(g.group(1))
                        except ValueError: out.append(V('figure', 'operation %d: %r' % (i, l))); continue
                        figs.append(x); loops.setdefault(l[:g.start(1)], []).append(x)
                        if not 0 <= x <= 100: out.append(V('figure', 'operation %d: progress of %s percent' % (i, g.group(1))))
                        elif not any(abs(x - f) <= 1 for f in ok_fig): out.append(V('figure', 'operation %d: progress of %s percent is not the share of any wavenumber of %r' % (i, g.group(1), nks)))
                for text_, f in sorted(loops.items()) if cls != 'B2Loop' else []:
                    # as many reports as multiples of the step
                    step = max(nk * 10 // 100, 1); exp = sorted(100 * j // nk for j in range(0, nk, step))
                    if sorted(int(x) for x in f) != exp: out.append(V('figure', 'operation %d: progress figures %r, the reported wavenumbers are at %r percent' % (i, sorted(f), exp)))
                teams = rec['teams']
                for g in re.finditer(r'using (\d+) threads', text):
                    if not teams: continue
                    if int(g.group(1)) not in teams or any(int(g.group(1)) != t for t in teams): out.append(V('threads', 'operation %d: reports %s threads, teams of %s did the work' % (i, g.group(1), sorted(set(teams))))); break
        return out + ended(r)


# ================================================================ P14
class P14(Check):
    id = 'P14'
    rule = 'calculations with more threads than wavenumbers, empty grids, stalled threads and every strategy; steps are bounded by a multiple of those of one thread; quadrature rules of order 1-3000; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 6000, 50000

    def gen(self, rng, i, tier):
        if i % 10 == 9:
            p = [('new', 'a', 'Spectrum1Loop'), ('verb', 'a', 'quiet')]
            for _ in range(3): a = rng.uniform(-10, 10); p.append(('nodes', 'a', a, a + 10**rng.uniform(-3, 2), rng.choice([rng.randint(1, 60), rng.randint(60, 600), rng.randint(600, 3000)]) if tier != 'x' else 3))
            return dict(prog=p, cfg=dict(seed=1), variant='tsan', meta=dict(nodes=1))
        if i % 10 == 8:
            p = c_prog(rng, rng.randint(1, 4), c_head(rng, rng.choice(['quiet', 'info', 'debug']), small=True, wide=True), cuts=True)
        elif i % 10 == 7: p = history(rng, rng.randint(8, 16), W(caller=3, verb=3, find=3, sig2=3), wide=True)
        else: p = simple(rng, runs=rng.choice([1, 2]), verb=rng.choice(['quiet', 'info', 'info', 'debug']), ghi=8)
        cfg = dict(g_env(rng), **g_sched(rng, rng.choice([None, None, None, 4, 5, 6])))
        if rng.random() < 0.4: cfg['nprocs'] = 16
        return dict(prog=p, cfg=cfg, variant='tsan', meta=dict(nodes=0))

    def judge(self, case, ctx):
        cfg = case['cfg']
        # steps of one thread, serially
        if case['meta']['nodes']:
            r = ctx.run(case, cfg=dict(budget=400000000)); lim = None
            out = vio(r, ('deadlock', 'hang', 'sync'), ctx, case) + [v for v in ended(r) if v.sig in ('hang', 'deadlock', 'no-end')]
            for rec in r['ops']:
                op = case['prog'][rec['i']]
                if op[0] == 'nodes' and rec['steps'] > 2000 + 400. * op[4]**2: out.append(V('steps', 'a rule of order %d takes %d steps' % (op[4], rec['steps'])))
            return out
        prog = [(o[:2] + (dict(o[2], nthreads=1),)) if o[0] == 'run' else (o[:-1] + (1,)) if o[0] in ('c_runB', 'c_terms1', 'c_spec1', 'c_rerunB', 'c_rerun1', 'c_rerunspec1', 'c_terms2', 'c_rerun2') else o for o in case['prog']]
        st, r1 = ctx.fresh(case, prog, dict(suave_n=cfg.get('suave_n', 24), budget=300000000), last=False)
        if st != 'ok':
            return [V('hang', 'on one thread %s' % r1)] if 'hang' in r1 or 'deadlock' in r1 else []
        serial = max([o['steps'] for o in r1['ops']] + [1])
        # every thread initialises and frees for itself; a sample may be evaluated again
        budget = 2 * (1 + max([16] + [nthreads_of(o) for o in case['prog']])) * serial + 400000
        r = ctx.run(case, cfg=dict(budget=budget))
        out = vio(r, ('deadlock', 'hang', 'sync'), ctx, case)
        return out or [v for v in ended(r) if v.sig in ('hang', 'deadlock', 'no-end')]


# ================================================================ P15
class P15(Check):
    id = 'P15'
    rule = 'calls that must be refused, and allocation failures in the Python layer, inserted into histories; every later result is compared with that of a fresh process without them, and columns must be as they were; non-trivial when at least one call was refused'
    n_quick, n_thorough = 5000, 45000

    def gen(self, rng, i, tier):
        p = history(rng, rng.randint(10, 20), W(bad=16, nan0=1.5, fill=2, cols=6, prec=4, caller=0.3, verb=1, clear=0.4, find=3, pad=2))
        tail = [o for o in p if o[0] == 'run']
        live = set(); 
        c = dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan', meta=dict(np=0.), opts=dict(snapshot=1))
        if rng.random() < 0.35: c['meta'] = dict(np=rng.random() + 1e-9); c['prog'] = nonempty(p)
        return g_forms(rng, c)

    def nontrivial(self, case, ctx, n0): return any(o[0] == 'bad' for o in case['prog']) or sum(ctx.faults.values()) > n0[2]

    def remap(self, case, idx): return case

    def judge(self, case, ctx):
        over = {}
        if case['meta']['np']:
            c0, ctx.counting = ctx.counting, False
            r0 = ctx.run(case); ctx.counting = c0
            if r0['status'] == 1 and r0['n_np']: over = dict(np_fail_n=1 + int(case['meta']['np'] * r0['n_np']))
        r = ctx.run(case, cfg=over); out = []
        if r['status'] not in (1,) and over: return []  # visible

        def on(i, op, rec, m):
            return [V('trace', 'operation %d, refused (%s), changed %s' % (i, rec['res'][2][:80], '/'.join(own))) for own in rec.get('changed', [])] if rec['res'][0] == 'exc' else []
        m = Model(); prog = case['prog']
        failed = set(rec['i'] for rec in r['ops'] if rec['res'][0] == 'exc') if over and r['f_np'] else set()
        for rec in r['ops']:
            if rec['res'][0] == 'exc' and (prog[rec['i']][0] == 'bad' or rec['i'] in failed and prog[rec['i']][0] not in ('run', 'modk', 'modspec', 'fill', 'rescale', 'terms', 'setrows')): out += on(rec['i'], prog[rec['i']], rec, m)
        out += [V('again', 'operation %d (%s): %s' % (rec['i'], prog[rec['i']][2], rec['res'][2])) for rec in r['ops'] if rec['res'][:2] == ('exc', 'Again')]
        acc = [rec['i'] for rec in r['ops'] if prog[rec['i']][0] == 'bad' and rec['res'][0] == 'ok']
        soft = {'rununset'}
        if any(prog[j][2] not in soft for j in acc): return out  # the call was accepted: not a refused call
        # a failed calculation leaves its own columns undefined until it is run again
        dirty = set()
        skip = set()
        for rec in r['ops']:
            op = prog[rec['i']]
            if rec['i'] in failed and op[0] in ('run', 'rescale'): dirty.add(op[1])
            elif rec['res'][0] == 'ok' and op[0] in ('run', 'terms', 'new'): dirty.discard(op[1])
            elif op[0] in ('cols', 'eval') and op[1] in dirty: skip.add(rec['i'])
            elif op[0] in ('copy', 'deepcopy') and rec['res'][0] == 'ok' and op[1] in dirty: dirty.add(op[2])
        if dirty or skip: skip |= set(rec['i'] for rec in r['ops'] if prog[rec['i']][0] in ('cols', 'eval'))
        out += (follow2 if failed else follow)(ctx, case, r, may_fail=failed | ({j for j in range(len(prog)) if failed and j > min(failed)} if failed else set()), skip=skip)
        return out + ended(r)


# ================================================================ P16
def gB(rng, p, sets, runs, names='dt'):
    """sets and runs of the B term in the C interface, appended to p"""
    for _ in range(sets):
        a, b = rng.choice([('delta', 'theta'), ('theta', 'delta'), ('theta', 'theta'), ('delta', 'theta'), ('theta', 'theta'), ('delta', 'delta')])
        p.append(('c_specB', a, b, rng.choice('duvw')) + ((0,) if rng.random() < 0.12 else ()))


class P16(Check):
    id = 'P16'
    rule = 'sequences of spectra set in any order and naming, other linear spectra, other calculations and B calculations in the C interface, compared with a fresh process in which just the spectra in force were set; powers of the given spectra (scaling one of them by 2 scales each column by 4, 2 or 1); the one-loop fallback against spectra computed and set explicitly; B1Loop and B2Loop against the C interface; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 5500, 45000
    POW = [(2, 0), (1, 1), (0, 2), (2, 0), (1, 1), (0, 2), (1, 1), (0, 2), (0, 2)]

    def head(self, rng):
        p = [('new', 'z', 'Spectrum1Loop'), ('verb', 'z', rng.choice(['quiet', 'quiet', 'info', 'debug'])), ('prec', 'z', dict(calculation='all', n=rng.randint(2, 5)))]
        for _ in range(rng.choice([0, 0, 1])):
            p.append(('prec', 'z', dict(g_prec(rng), n=rng.randint(2, 5))))
        if rng.random() < 0.2: p.append(('cut', 'z', g_cut(rng)))
        return p

    def gen(self, rng, i, tier):
        cfg = dict(g_env(rng), **g_sched(rng)); meta = dict(kind='history'); variant = rng.choice(['tsan', 'tsan', 'kasan'])
        k = i % 8
        if k == 6:  # powers
            p = self.head(rng) + [('c_spec', 'd', g_spec(rng)), ('c_spec', 'u', g_spec(rng)), ('c_spec', 's', g_spec(rng)), ('c_setpk', 's'), ('c_grid', 'g', g_grid(rng, 1, 5))]
            x = [('c_specB',) + rng.choice([('delta', 'theta'), ('theta', 'delta')]) + ('d',), ('c_specB', 'theta', 'theta', 'u')]; rng.shuffle(x)
            meta = dict(kind='powers', f=(rng.choice([1., 2., 0.5, 4.]), rng.choice([1., 2., 0.5, 4.])))
            p = cheap(p + x + [('c_runB', 'g', g_threads(rng))], n=3)
        elif k == 7:
            p = self.head(rng) + [('c_spec', 's', g_spec(rng)), ('c_setpk', 's'), ('c_grid', 'g', g_grid(rng, 1, 5))]
            kind = rng.choice(['fallback', 'fallback', 'B1', 'B2']); meta = dict(kind=kind); n = g_threads(rng)
            if kind == 'fallback' and rng.random() < 0.5: p += [('c_spec', 'd', g_spec(rng)), ('c_specB',) + rng.choice([('delta', 'theta'), ('theta', 'theta'), ('delta', 'delta')]) + ('d',)]
            if kind == 'B1': p += [('c_specB', 'delta', 'theta', 's'), ('c_specB', 'theta', 'theta', 's')]
            p = cheap(p + [('c_runB', 'g', n)], n=3)
        elif k == 5:  # Python objects, and spectra set behind their back
            p = self.head(rng) + [('c_spec', 'd', g_spec(rng)), ('new', 'a', rng.choice(['B1Loop', 'B2Loop'])), ('spec', 'a', g_spec(rng)), ('terms', 'a', g_grid(rng, 0, 4)), ('new', 'b', rng.choice(['B1Loop', 'B2Loop'])), ('spec', 'b', g_spec(rng)), ('terms', 'b', g_grid(rng, 0, 4))]
            for _ in range(rng.randint(2, 6)):
                o = rng.choice(['run', 'run', 'set', 'spec', 'terms']); s = rng.choice('ab')
                p.append(('run', s, dict(nthreads=g_threads(rng))) if o == 'run' else ('c_specB', rng.choice(['delta', 'theta']), 'theta', 'd') if o == 'set' else ('spec', s, g_spec(rng)) if o == 'spec' else ('terms', s, g_grid(rng, 0, 4)))
            p = cheap(p + [('run', 'a', dict(nthreads=g_threads(rng))), ('run', 'b', dict(nthreads=g_threads(rng)))], n=3)
        else:
            p = self.head(rng) + [('c_spec', x, g_spec(rng)) for x in 'duvws'] + [('c_setpk', 's'), ('c_grid', 'g', g_grid(rng, 0, 5)), ('c_grid', 'h', g_grid(rng, 0, 5)), ('c_grid', 'i', g_grid(rng, 0, 4)), ('c_grid', 'j', g_grid(rng, 0, 4))]
            s1 = t1 = None; b = None
            for _ in range(rng.randint(3, 10)):
                x = rng.random()
                if x < 0.42: gB(rng, p, 1, 0)
                elif x < 0.62: b = rng.choice('gh'); p.append(('c_runB', b, g_threads(rng)))
                elif x < 0.68:
                    if b: p.append(('c_rerunB', b, g_threads(rng)))
                elif x < 0.76: s1 = rng.choice('ij'); p.append(('c_spec1', s1, rng.choice(['delta', 'theta']), rng.choice(['delta', 'theta']), g_threads(rng)))
                elif x < 0.83:
                    if s1: p.append(('c_rerunspec1', s1, rng.choice(['delta', 'theta']), 'theta', g_threads(rng)))
                elif x < 0.88: t1 = rng.choice('ij'); p.append(('c_terms1', t1, rng.choice(['delta', 'theta']), 'theta', g_threads(rng)))
                elif x < 0.92:
                    if t1: p.append(('c_rerun1', t1, 'theta', rng.choice(['delta', 'theta']), g_threads(rng)))
                elif x < 0.97: p.append(('c_setpk', rng.choice('duvws')))
                else: p.append(('cut', 'z', g_cut(rng)))
            b = b or 'g'; p.append(('c_runB', b, g_threads(rng)))
            if s1: p.append(('c_rerunspec1', s1, 'delta', 'theta', g_threads(rng)))
            if t1: p.append(('c_rerun1', t1, 'delta', 'theta', g_threads(rng)))
            p = cheap(p, n=3)
        c = dict(prog=p, cfg=cfg, variant=variant, meta=meta)
        if meta['kind'] != 'history': c['fixed_prog'] = 1
        return c

    def judge(self, case, ctx):
        m = case['meta']; r = ctx.run(case); out = follow(ctx, case, r) + ended(r)
        if m['kind'] == 'history' or out: return out
        got = {c: simops.unpack(v) for c, v in r['ops'][-1]['res'][1].items()}; prog = case['prog']
        spec = [o[2] for o in prog if o[0] == 'c_spec' and o[1] == 's'][-1]; grid = [o[2] for o in prog if o[0] == 'c_grid'][-1]; sets = [o for o in prog if o[0] in ('prec', 'cut')]
        sn = dict(suave_n=case['cfg'].get('suave_n', 24))
        if m['kind'] == 'powers':
            f, h = m['f']
            q = [(o[:2] + (tuple(o[2]) + (f if o[1] == 'd' else h,),)) if o[0] == 'c_spec' and o[1] in 'du' else o for o in prog]
            st, want = ctx.fresh(case, q, sn)
            if st != 'ok': return [V('reference', want)]
            w = {c: simops.unpack(v) for c, v in want.items()}
            got['9'] = (got['9'].reshape(-1, 9) * np.array([f**a * h**b for a, b in self.POW])).ravel()
            t = close(got, {c: v.tolist() for c, v in w.items()}, 1e-9)
            return [V('powers', 'with the density-velocity spectrum times %g and the velocity-velocity spectrum times %g: %s' % (f, h, t))] if t else []
        if m['kind'] in ('B1', 'B2'):
            q = [('new', 'r', m['kind'] + 'Loop'), ('verb', 'r', 'quiet')] + [(o[0], 'r') + o[2:] for o in sets] + [('spec', 'r', spec), ('terms', 'r', grid), ('run', 'r', dict(nthreads=1))]
            st, want = ctx.fresh(case, q, sn)
            if st != 'ok': return [V('reference', want)]
            want = {c: simops.unpack(v).ravel().tolist() for c, v in want.items() if c != 'k'}; want['9'] = want.pop('pk')
            t = close(got, want, 1e-7)
            return [V('python', '%sLoop and the C interface differ: %s' % (m['kind'], t))] if t else []
        if m['kind'] == 'fallback':
            q = [('new', 'r', 'Spectrum1Loop'), ('verb', 'r', 'quiet')] + [(o[0], 'r') + o[2:] for o in sets] + [('c_spec', 's', spec), ('c_setpk', 's'), ('c_grid', 'x', ('KS', spec)), ('c_grid', 'y', ('KS', spec)), ('c_grid', 'g', grid), ('c_spec1', 'x', 'delta', 'theta', 1), ('c_spec1', 'y', 'theta', 'theta', 1), ('c_specBarr', 'delta', 'theta', 'x'), ('c_specBarr', 'theta', 'theta', 'y'), ('c_runB', 'g', 1)]
            st, want = ctx.fresh(case, q, sn)
            if st != 'ok': return [V('reference', want)]
            t = close(got, {c: simops.unpack(v).tolist() for c, v in want.items()}, 1e-9)
            return [V('fallback', 'without spectra set, against 1-loop spectra computed and set: %s' % t)] if t else []
        raise Invalid(m['kind'])


# ================================================================ P17
class P17(Check):
    id = 'P17'
    rule = 'histories in which every calculation asks for another number of threads, from several threads of the program, through Python and the C interface; the teams formed and the number of workers given to the integrator are compared with the number asked for; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 5000, 45000

    def gen(self, rng, i, tier):
        cls = rng.choice([None, None, ['Spectrum1Loop', 'Spectrum2Loop'], ['B1Loop', 'B2Loop'], ['A2Loop', 'Spectrum2Loop'], ['Bias1Loop', 'A1Loop']])
        if i % 4 == 3: p = c_prog(rng, rng.randint(3, 9), c_head(rng, rng.choice(['quiet', 'info'])), verbs=['info', 'quiet'])
        elif i % 40 == 4: p = long_rule(rng, rng.choice(['quiet', 'info']))
        elif i % 40 == 24: p = large(rng, rng.choice(['quiet', 'info']))
        else: p = history(rng, rng.randint(8, 18), W(run=26, caller=4, c_spec1=2, bad=1, prec=1, cut=0.3, clear=1, fill=0, find=1, sig2=0.5, verb=2, eval=0.5, hold=0, cols=0), classes=cls, grid_hi=12, hi=rng.choice([3, 8, 16]))
        return dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan')

    def judge(self, case, ctx):
        r = ctx.run(case); out = []; m = Model(); full = not case['cfg'].get('grant_mode')
        for rec in r['ops']:
            op = case['prog'][rec['i']]; ok = rec['res'][0] == 'ok'
            if op[0] == 'bad': m.unsure = True; continue
            mstep(m, op, ok)
            if not ok or op[0] not in ('run', 'c_runB', 'c_terms1', 'c_spec1', 'c_rerunB', 'c_rerun1', 'c_rerunspec1', 'c_terms2', 'c_rerun2'): continue
            n = op[2].get('nthreads', 8) if op[0] == 'run' else op[-1]
            if not isinstance(n, int) or n < 1: continue
            nk = len(m.o[op[1]].cols['k']) if op[0] == 'run' else len(m.g[op[1]])
            if op[0] == 'run' and m.o[op[1]].cls == 'B2Loop': nk = min(nk, m.spec_of(m.o[op[1]])[0][1])
            if op[0] in ('c_runB', 'c_rerunB') and m.last is not None: nk = min(nk, m.last[0][1])
            t = rec['teams']
            if any(x > n for x in t): out.append(V('more', 'operation %d (%s), asked to use %d threads, formed teams of %r' % (rec['i'], op[0], n, sorted(set(t)))))
            elif full and nk >= n and (any(x != n for x in t) or not t): out.append(V('fewer', 'operation %d (%s) on %d wavenumbers, asked to use %d threads, formed teams of %r' % (rec['i'], op[0], nk, n, sorted(set(t)))))
            if any(x != n for x in rec['cores']): out.append(V('workers', 'operation %d (%s), asked to use %d threads, told the integrator to use %r' % (rec['i'], op[0], n, sorted(set(rec['cores'])))))
        return out


# ================================================================ P18
class P18(Check):
    id = 'P18'
    rule = 'calculations and look-ups on grids of 2-40 wavenumbers (some repeated, some in no order), after other calculations, on teams of all sizes; rows drawn at random, the first and the last are compared with a fresh process in which that wavenumber is the only one; non-trivial when a team of more than one thread ran'
    n_quick, n_thorough = 4500, 45000

    def gen(self, rng, i, tier):
        if rng.random() < 0.08:  # the C interface
            p = c_prog(rng, rng.randint(2, 4), c_head(rng), two=rng.random() < 0.7)
            return dict(prog=cheap(p, rng), cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'tsan', 'kasan']))
        cls = g_class(rng); big = cls not in ('A2Loop', 'Spectrum2Loop')
        p = simple(rng, runs=rng.choice([1, 1, 2]), glo=2, ghi=rng.choice([6, 14, 40]), cls=cls)
        if rng.random() < 0.03: return dict(prog=large(rng, cls=cls), cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'tsan', 'kasan']))
        g = lambda: g_grid(rng, 2, 12, True)
        for _ in range(rng.randint(0, 2)): p.append(rng.choice([('find', 'a', g(), 'poly'), ('find', 'a', g(), 'lin'), ('sig2', 'a', g(), rng.choice([0.5, 1., 0.2]))]))
        if rng.random() < 0.25:  # a table of a few wavenumbers: several output wavenumbers in the same interval, and beyond the table
            sp = ('spec', 'a', g_spec(rng, True)); p = [sp if o[0] == 'spec' else o for o in p]
        if rng.random() < 0.2:  # at the wavenumbers of the table, and where the damping integral ends at them
            t = simops.spectrum([o for o in p if o[0] == 'spec'][0][2])[0]; u = rng.choice([1., 1., 0.5])
            ks = sorted(rng.choice([t[0], t[-1], rng.choice(t), rng.choice(t), rng.choice(t) * rng.uniform(0.9, 1.1)]) / u for _ in range(rng.randint(2, 8)))
            p = [('terms', 'a', ('KX', tuple(float(x) for x in ks))) if o[0] == 'terms' else o for o in p]
        elif rng.random() < 0.2: p = [('terms', 'a', g_grid(rng, 2, 8 if big else 4, True)) if o[0] == 'terms' else o for o in p]
        return dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'tsan', 'kasan']))

    def judge(self, case, ctx):
        r = ctx.run(case); out = []; m = Model()
        for rec in r['ops']:
            op = case['prog'][rec['i']]; ok = rec['res'][0] == 'ok'; e = mstep(m, op, ok)
            if not ok: out.append(V('raises', 'operation %d %s raises %s: %s' % (rec['i'], op[0], rec['res'][1], rec['res'][2]))); continue
            if not e or e[0] not in ('run', 'find', 'sig2', 'bi', 'c1', 'ct', 'c2', 'cB'): continue
            kind, key = e; ks = key[2] if kind == 'run' else key[1]; n = len(ks)
            if not n: continue
            rows = {0, n - 1} | {int(x * n) for x in np.random.RandomState(rec['i'] + 7 * n).rand(2)}
            for j in sorted(rows):
                k1 = (ks[j],); one = key[:2] + (k1,) + key[3:] if kind == 'run' else (key[0], k1) + key[2:]
                st, want = ctx.ref(case, kind, one)
                if st != 'ok': out.append(V('reference', 'operation %d: no reference: %s' % (rec['i'], want))); continue
                for c in sorted(want):
                    a = simops.unpack(rec['res'][1][c]).reshape(n, -1)[j]; b = simops.unpack(want[c]).reshape(1, -1)[0]
                    if a.tobytes() != b.tobytes():
                        x = int(np.flatnonzero(a.view('u8') != b.view('u8'))[0])
                        out.append(V('differs', 'operation %d (%s): column %s at k=%.17g, wavenumber %d of %d, is %.17g instead of %.17g as it is alone' % (rec['i'], kind, c, ks[j], j + 1, n, a[x], b[x]))); break
        return out + ended(r)


# ================================================================ P19
COMP = {('A1Loop', 'pk'): 5, ('A2Loop', 'pk'): 5, ('B1Loop', 'pk'): 9, ('B2Loop', 'pk'): 9}


class P19(Check):
    id = 'P19'
    rule = 'histories of padding, slicing, copying, rescaling and calculations on several objects, with allocation failures of the Python layer; all columns of all objects are read after every operation and compared with those read before by a small model of each operation; non-trivial when an object was padded, sliced or copied'
    n_quick, n_thorough = 3500, 35000

    def gen(self, rng, i, tier):
        w = W(pad=9, take=8, deepcopy=5, copy=3, rescale=4, nan0=3, run=7, terms=4, new=6, spec=6, fill=5, cols=0, eval=0, hold=0, extra=0, prec=0, cut=0, clear=0, verb=0.2, find=0, sig2=0, nodes=0, ipoly=0, caller=0.3, c_spec1=0, modspec=0.5, share=0.5, modk=1, setrows=4, gc=0.3, bad=1, **{'del': 1})
        q = nonempty(history(rng, rng.randint(8, 14), w, max_obj=4)); p = []
        for o in q:
            p.append(o)
            if o[0] in ('pad', 'take', 'deepcopy', 'copy', 'rescale', 'run', 'terms', 'fill', 'nan0', 'modk', 'bad', 'new', 'setrows'): p.append(('all',))
        c = dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant='tsan', meta=dict(np=0.))
        if rng.random() < 0.5: c['meta'] = dict(np=rng.random() + 1e-9)
        return g_forms(rng, c, 0.3)

    def remap(self, case, idx): return case

    def nontrivial(self, case, ctx, n0): return any(o[0] in ('pad', 'take', 'copy', 'deepcopy') for o in case['prog'])

    def judge(self, case, ctx):
        over = {}
        if case['meta']['np']:
            c0, ctx.counting = ctx.counting, False
            r0 = ctx.run(case); ctx.counting = c0
            if r0['status'] == 1 and r0['n_np']: over = dict(np_fail_n=1 + int(case['meta']['np'] * r0['n_np']))
        r = ctx.run(case, cfg=over); out = []; prog = case['prog']
        if r['status'] != 1: return [] if over else ended(r)
        old = {}; todo = []; m = Model(); failed = False  # the columns last read, the operations since
        for rec in r['ops']:
            op = prog[rec['i']]; ok = rec['res'][0] == 'ok'
            if op[0] == 'bad' and ok: return out
            if op[0] != 'bad':
                try: mstep(m, op, ok)
                except Invalid:
                    if failed: return out  # other checks judge what is accepted after a failure
                    raise
            failed |= not ok
            if op[0] != 'all': todo.append((rec['i'], op, ok)); continue
            if not todo: continue
            now = {s: {c: simops.unpack(v) for c, v in d.items()} for s, d in rec['res'][1].items()}
            at = 'after operation %d (%s) ' % (todo[-1][0], todo[-1][1][0])
            for s, d in sorted(now.items()):
                if 'k' not in d: continue
                bad = [c for c in d if d[c].size != d['k'].size * COMP.get((m.o[s].cls, c), 1)]
                if bad: out.append(V('rows', at + 'object %s has %d wavenumbers and %d values of %s' % (s, d['k'].size, d[bad[0]].size, bad[0])))
            if out: return out
            exp = self.expect(old, todo, m, now)
            if any(o[0] == 'terms' and not ok for i, o, ok in todo):  # new wavenumbers, and then memory ran out: they may be in place
                exp2 = self.expect(old, [(i, o, ok or o[0] == 'terms') for i, o, ok in todo], m, now)
                if all(self.same(now[s], e) for s, e in exp2.items() if s in now): exp = {}
            for s in sorted(exp):
                for c in sorted(exp[s]):
                    w = exp[s][c]
                    if w is None or s not in now: continue
                    if c not in now[s]: out.append(V('rows', at + 'object %s has lost column %s' % (s, c))); continue
                    a = now[s][c].ravel(); ws = [x.ravel() for x in (w if isinstance(w, list) else [w])]; w = ws[0]
                    if a.size != w.size: out.append(V('rows', at + 'column %s of object %s has %d values instead of %d' % (c, s, a.size, w.size)))
                    elif not any(a.tobytes() == x.tobytes() or len(ws) > 1 and np.allclose(a, x, 1e-12, 0., True) for x in ws):
                        j = int(np.flatnonzero(a.view('u8') != w.view('u8'))[0]); q = max(1, a.size // max(1, now[s]['k'].size))
                        out.append(V('rows', at + 'row %d of column %s of object %s is %.17g instead of %.17g' % (j // q, c, s, a[j], w[j])))
            i, op, ok = todo[-1]
            if op[0] == 'pad' and ok and not out and not m.unsure:  # the look-ups of a padded object
                sp = m.spec_of(m.o[op[1]]); d = now[op[1]]; k = tuple(d['k'].tolist())
                for c, e in (('pk_lin', ('find', (sp[0], k, 'poly'))), ('sigmad2', ('sig2', (sp[0], k, 0.5)))):
                    if c not in d: continue
                    st, want = ctx.ref(case, *e)
                    if st == 'ok' and simops.unpack(list(want.values())[0]).tobytes() != d[c].tobytes(): out.append(V('rows', at + 'column %s of object %s is not that of its wavenumbers' % (c, op[1])))
            if out: return out
            old = now; todo = []
        return out + ended(r)

    @staticmethod
    def same(d, e): return all(w is None or c in d and d[c].size == w.size and d[c].tobytes() == w.tobytes() for c, w in e.items() if not isinstance(w, list))

    def expect(self, old, todo, m, now):
        """the columns after these operations, from those before; None: not known; a list: one of these"""
        cur = {s: dict(d) for s, d in old.items()}

        def put(s, d):
            for t in m.o:
                if t == s or s in m.o and m.o[t].cols is m.o[s].cols: cur[t] = d

        known = lambda v: v is not None and not isinstance(v, list)
        for i, op, ok in todo:
            s = op[1] if len(op) > 1 else None
            if op[0] == 'bad' or not ok:
                if op[0] == 'run' and s in cur: put(s, {c: (v if c == 'k' else None) for c, v in cur[s].items()})
            elif op[0] == 'del': cur.pop(s, None)
            elif op[0] == 'new': cur[s] = {}
            elif op[0] in ('copy', 'deepcopy'): cur[op[2]] = dict(cur[s])
            elif op[0] == 'terms':
                k = simops.grid(op[2]); put(s, {c: k if c == 'k' else np.zeros(k.size * COMP.get((m.o[s].cls, c), 1)) for c in now.get(s, ())})
            elif op[0] in ('run', 'fill'): put(s, {c: (v if c == 'k' else None) for c, v in cur[s].items()})
            elif op[0] == 'nan0': put(s, {c: np.where(np.isnan(v), 0., v) if known(v) else None for c, v in cur[s].items()})
            elif op[0] == 'modk': put(s, dict(cur[s], k=simops.grid(op[2])))
            elif op[0] == 'setrows':
                n = cur[s]['k'].size; rows = simops.some_rows(n, op[2]); d = {}
                for c, v in cur[s].items():
                    if known(v): d[c] = v.copy().reshape(n, -1); d[c][rows] = op[3]
                    else: d[c] = None
                put(s, d)
            elif op[0] == 'take':
                n = cur[s]['k'].size; rows = simops.some_rows(n, op[3])
                cur[op[2]] = {c: v.reshape(n, -1)[rows] if known(v) else None for c, v in cur[s].items()}
            elif op[0] == 'rescale': put(s, {c: v if c == 'k' else [v * op[2]**(2 * SCALE[c])] if known(v) and c in SCALE else None for c, v in cur[s].items()})
            elif op[0] == 'pad':
                k = simops.grid(op[2]); k0 = cur[s]['k']; n = k0.size; a = k[k < k0[0]]; b = k[k > k0[-1]]; d = {}
                for c, v in cur[s].items():
                    if c == 'k': d[c] = np.concatenate([a, k0, b])
                    elif not known(v) or c in ('pk_lin', 'sigmad2'): d[c] = None
                    else: v = v.reshape(n, -1); d[c] = np.concatenate([np.zeros((a.size, v.shape[1])), v, np.zeros((b.size, v.shape[1]))])
                put(s, d)
        return cur


# ================================================================ P20
SCALE = {'k': 0, 'pk_lin': 1, 'sigmad2': 1, 'gamma1a_1loop': 1, 'gamma1b_1loop': 1, 'gamma1a_2loop': 2, 'gamma1b_2loop': 2, 'pk_gamma2_tree_tree': 2, 'pk_gamma2_tree_1loop': 3, 'pk_gamma2_1loop_1loop': 4, 'pk_gamma3_tree': 3,
         'pk_b2d': 2, 'pk_bs2d': 2, 'pk_b2t': 2, 'pk_bs2t': 2, 'pk_b22': 2, 'pk_b2s2': 2, 'pk_bs22': 2, 'sigma3sq': 1, 'pk': 2}


class P20(Check):
    id = 'P20'
    rule = 'histories of calculations, evaluations, copies and rescalings of terms and of linear spectra, on several objects and threads; every method evaluated with a growth factor, then without after rescaling by it; terms rescaled, also repeatedly, compared with those a fresh process calculates for the rescaled spectrum; non-trivial when terms were rescaled that a calculation had given'
    n_quick, n_thorough = 7000, 70000

    def gen(self, rng, i, tier):
        w = W(growth=14, growlin=5, run=12, spec=4, terms=3, eval=1, rescale=2, copy=2, deepcopy=2, take=1, share=1, modspec=1, new=5, fill=0.7, prec=1.5, cut=1, clear=0.2, pad=0.5, hold=0, extra=0, bad=0.3, cols=1, find=1, sig2=0.5)
        p = history(rng, rng.randint(8, 18), w, max_obj=3, grid_hi=6, small_spec=None)
        return g_forms(rng, dict(prog=p, cfg=dict(g_env(rng), **g_sched(rng)), variant=rng.choice(['tsan', 'tsan', 'kasan'])), 0.2)

    def nontrivial(self, case, ctx, n0): return any(o[0] == 'growth' for o in case['prog'])

    def judge(self, case, ctx):
        r = ctx.run(case)

        def on(i, op, rec, m):
            if op[0] not in ('growth', 'growlin') or rec['res'][0] != 'ok': return []
            out = []; pairs, cols = rec['res'][1]
            for n in sorted(pairs):
                a, b = (simops.unpack(x).ravel() for x in pairs[n])
                tol = 1e-6 if n.startswith('sigma') else 1e-9
                with np.errstate(all='ignore'): bad = a.size != b.size or not np.allclose(a, b, tol, 1e-12 * np.max(np.abs(b[np.isfinite(b)]), initial=0.), True)
                if bad: out.append(V('growth', 'operation %d (%s): %s with growth factor %r gives %r, and %r once rescaled by it' % (i, op[0], n, op[2], a[:4].tolist(), b[:4].tolist())))
            if op[0] == 'growlin': return out
            ob = m.o[op[1]]; g = ob.cols.get('grown')
            if not g or ob.cls in ('A2Loop', 'B2Loop') or out: return out  # of several orders
            (cls, spec, k, opt, can), f = g; spec = tuple(spec[:6]) + ((spec[6] if len(spec) > 6 else 1.) * f * f,)
            st, want = ctx.ref(case, 'run', (cls, spec, k, opt, can))
            if st != 'ok': return [V('reference', 'operation %d: no reference: %s' % (i, want))]
            for c in sorted(want):
                a, b = simops.unpack(cols[c]).ravel(), simops.unpack(want[c]).ravel()
                with np.errstate(all='ignore'): bad = a.size != b.size or not np.allclose(a, b, 1e-7, 1e-9 * np.max(np.abs(b[np.isfinite(b)]), initial=0.), True)
                if bad: out.append(V('rescaled', 'operation %d: column %s of a %s rescaled by %r is %r, and %r for the rescaled spectrum' % (i, c, cls, f, a[:4].tolist(), b[:4].tolist()))); break
            return out
        return follow(ctx, case, r, on=on) + ended(r)


ALL = {c.id: c for c in list(globals().values()) if isinstance(c, type) and issubclass(c, Check) and c is not Check}
