"""One simulated execution: a forked child runs a program of operations against the instrumented library.

Everything that happens is a function of the job (configuration with its seed, program, initial files, schedule);
the child reports through a shared memory block, so that whatever was done before a crash survives."""
import ctypes, gc, mmap, os, pickle, signal, struct, sys, time, warnings
import numpy as np

CFG = 'seed strategy sp1 sp2 nprocs pool_mode grant_mode grant_n budget kill_step c_fail_n c_fail_persist np_fail_n np_fail_persist clock_mode out_fail_after out_fail_mode fopen_fail_n fs_fail_after fs_fail_mode suave_n suave_order suave_workers suave_dup suave_lose suave_fail junk_mode quarantine race_on mem_on line_buffered stdout_closed max_trace r0 r1 r2 r3'.split()
DEFAULT = dict(seed=1, strategy=0, sp1=20, sp2=20, nprocs=4, pool_mode=1, grant_mode=0, grant_n=0, budget=400000000, out_fail_after=-1, fs_fail_after=-1, suave_n=24, junk_mode=2, quarantine=256, race_on=0, mem_on=1)
HEAD = '''status exit_code signo pc op steps maxop_steps switches decisions regions multi_regions teams_max sim_ns sched_hash ev_hash n_trace trace_lost
n_vio vio_len out_len err_len out_lost err_lost
f_calloc f_np f_out f_fopen f_fs f_clock f_kill f_grant f_stall f_poolfresh f_poolreuse f_suave_reorder f_suave_dup f_suave_lose f_suave_worker f_suave_fail
n_calloc n_free n_np n_printf n_fopen n_crit n_barrier n_access n_clock n_suave n_samples preempt'''.split()
STRATEGIES = ['serial', 'reverse', 'random-at-sync', 'random-preempt', 'round-robin', 'pct', 'stall', 'sync', 'burst', 'replay']
ST = {n: i for i, n in enumerate(STRATEGIES)}
STATUS = {0: 'ended abnormally', 1: 'finished', 2: 'exit', 3: 'crash', 4: 'hang', 5: 'deadlock', 6: 'killed', 7: 'abort', 8: 'unsupported'}
NFS = 8
RESCAP = 8 << 20


class Config(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int64) for n in CFG]


class Shared(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64 if n in ('sched_hash', 'ev_hash') else ctypes.c_int64) for n in HEAD] + [('spare', ctypes.c_int64 * 16), ('n_teams', ctypes.c_int64), ('team_log', ctypes.c_int64 * 510)]


class Sim:
    """Loaded libraries; children are forked from a process in which the library was never called."""

    def __init__(self, build, repo='/repo'):
        self.build = build
        self.real_cdll = ctypes.CDLL
        self.core = ctypes.CDLL(build + '/libsimcore.so', mode=ctypes.RTLD_GLOBAL)
        self.lib = {v: ctypes.CDLL('%s/libregpt_%s.so' % (build, v)) for v in ('tsan', 'kasan')}
        c = self.core
        c.sim_sizes.restype = ctypes.c_size_t
        for f in ('sim_live', 'sim_steps', 'sim_changed', 'sim_leaks', 'sim_locks_held'): getattr(c, f).restype = ctypes.c_int64
        assert c.sim_sizes(0) == ctypes.sizeof(Config), (c.sim_sizes(0), ctypes.sizeof(Config))
        assert c.sim_sizes(2) == ctypes.sizeof(Shared), (c.sim_sizes(2), ctypes.sizeof(Shared))
        self.off = dict(vio=c.sim_sizes(2), out=c.sim_sizes(3), err=c.sim_sizes(4), trace=c.sim_sizes(5), fs=c.sim_sizes(6), cov=c.sim_sizes(7))
        self.size = c.sim_sizes(1)
        self.fsz = c.sim_sizes(8)
        self.alloc()
        import simops  # children must not import anything
        self.cov = {}
        self.variant = 'tsan'
        sim = self
        real = ctypes.CDLL

        class CDLL(real):
            # whatever loads the library gets the instrumented one
            def __new__(cls, *a, **k): return object.__new__(cls)

            def __init__(self, name, *a, **k):
                if isinstance(name, (str, os.PathLike)) and os.path.basename(os.fspath(name)) == 'regpt.so':
                    name = '%s/libregpt_%s.so' % (sim.build, sim.variant)
                real.__init__(self, name, *a, **k)
        ctypes.CDLL = CDLL
        ctypes.cdll = ctypes.LibraryLoader(CDLL)
        sys.dont_write_bytecode = True
        sys.path.insert(0, repo)
        import pyregpt
        assert os.path.abspath(pyregpt.__file__).startswith(os.path.abspath(repo) + os.sep), pyregpt.__file__
        import pyregpt.pyregpt as mod
        self.mod = mod
        import numpy.core._multiarray_umath as mu
        get = ctypes.pythonapi.PyCapsule_GetPointer; get.restype = ctypes.c_void_p; get.argtypes = [ctypes.py_object, ctypes.c_char_p]
        table = ctypes.cast(get(mu._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        self.set_handler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(table[304])

        class Alloc(ctypes.Structure):
            _fields_ = [('ctx', ctypes.c_void_p), ('malloc', ctypes.c_void_p), ('calloc', ctypes.c_void_p), ('realloc', ctypes.c_void_p), ('free', ctypes.c_void_p)]

        class Handler(ctypes.Structure):
            _fields_ = [('name', ctypes.c_char * 127), ('version', ctypes.c_uint8), ('a', Alloc)]
        adr = lambda n: ctypes.cast(getattr(c, n), ctypes.c_void_p).value
        self.handler = Handler(b'sim', 1, Alloc(None, adr('sim_np_malloc'), adr('sim_np_calloc'), adr('sim_np_realloc'), adr('sim_np_free')))
        mk = ctypes.pythonapi.PyCapsule_New; mk.restype = ctypes.py_object; mk.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self._hname = b'mem_handler'
        self.capsule = mk(ctypes.addressof(self.handler), self._hname, None)
        # warm everything up that is lazily imported or cached
        a = np.asarray([1., 2.]); np.pad(a, 1); np.interp(1.5, a, a); np.exp(a); np.random.RandomState(1).rand(2); str(np.linspace(0, 1, 3)); np.ctypeslib.ndpointer(dtype='f8', shape=(2,))
        pickle.dumps([('ok', {'a': (1, b'')})]); import traceback  # noqa
        gc.collect(); gc.freeze()

    def alloc(self):
        self.mm = mmap.mmap(-1, self.size + RESCAP)  # shared with the children
        self.base = ctypes.addressof(ctypes.c_char.from_buffer(self.mm))
        self.head = Shared.from_buffer(self.mm)

    # -------------------------------------------------------------- parent side
    def run(self, job, timeout=120):
        """Runs the job in a forked child; returns a dict."""
        h = self.head
        ctypes.memset(self.base, 0, self.off['vio'])
        ctypes.memset(self.base + self.size, 0, 16)
        for i in range(NFS): ctypes.memset(self.base + self.off['fs'] + i * self.fsz, 0, 136)
        for i, (name, data) in enumerate(sorted((job.get('fs') or {}).items())):
            o = self.base + self.off['fs'] + i * self.fsz
            ctypes.memmove(o, name.encode(), len(name)); ctypes.memmove(o + 96, struct.pack('<qqqqq', 1, len(data), 0, 0, 0), 40); ctypes.memmove(o + 136, data, len(data))
        cfg = dict(DEFAULT); cfg.update(job.get('cfg') or {})
        if job.get('variant', 'tsan') != 'tsan': cfg['race_on'] = 0  # atomics are not visible there
        t0 = time.time()
        sys.stdout.flush(); sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 98
            try:
                self.child(job, cfg); code = 0
            except BaseException:
                import traceback
                try: os.write(self.dbg, traceback.format_exc().encode())
                except BaseException: pass
            finally:
                os._exit(code)
        timed_out = []
        def kill(*_): timed_out.append(1); os.kill(pid, signal.SIGKILL)
        old = signal.signal(signal.SIGALRM, kill); signal.setitimer(signal.ITIMER_REAL, timeout)
        _, wst = os.waitpid(pid, 0)
        signal.setitimer(signal.ITIMER_REAL, 0); signal.signal(signal.SIGALRM, old)
        r = {n: getattr(h, n) for n in HEAD}
        r['wall'] = time.time() - t0
        r['wstatus'] = wst
        r['timeout'] = bool(timed_out)
        mm = self.mm
        o = self.off
        r['vio'] = mm[o['vio']:o['vio'] + h.vio_len].decode('utf-8', 'replace').splitlines()
        r['out'] = mm[o['out']:o['out'] + h.out_len].decode('utf-8', 'replace')
        r['err'] = mm[o['err']:o['err'] + h.err_len].decode('utf-8', 'replace')
        r['trace'] = list(struct.unpack_from('<%dQ' % h.n_trace, mm, o['trace'])) if job.get('want_trace') else None
        r['teams'] = [t for t in h.team_log[:h.n_teams] if t > 0]
        fs = {}
        for i in range(NFS):
            b = o['fs'] + i * self.fsz
            name = mm[b:b + 96].split(b'\0')[0].decode()
            if not name: continue
            ex, ln, touched, opens, closes = struct.unpack_from('<qqqqq', mm, b + 96)
            fs[name] = dict(exists=ex, data=mm[b + 136:b + 136 + ln] if ex else None, touched=touched, opens=opens, closes=closes)
        r['files'] = fs
        ops = []; p = self.size
        while True:
            n, = struct.unpack_from('<q', mm, p)
            if n <= 0: break
            ops.append(pickle.loads(mm[p + 8:p + 8 + n])); p += 8 + n
        r['ops'] = ops
        r['ended'] = STATUS.get(h.status, '?')
        if job.get('cov', True):
            v = job.get('variant', 'tsan')
            c = np.frombuffer(mm, dtype=np.uint8, count=262144, offset=o['cov'])
            if v not in self.cov: self.cov[v] = np.zeros(262144, dtype=np.uint8)
            self.cov[v] |= c
        return r

    # -------------------------------------------------------------- child side
    def emit(self, rec):
        b = pickle.dumps(rec, protocol=4)
        if self.respos + len(b) + 24 > self.size + RESCAP: raise RuntimeError('results too long')
        struct.pack_into('<q', self.mm, self.respos + 8 + len(b), 0)
        self.mm[self.respos + 8:self.respos + 8 + len(b)] = b
        struct.pack_into('<q', self.mm, self.respos, len(b))
        self.respos += 8 + len(b)

    def child(self, job, cfg):
        gc.disable()
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        self.dbg = os.dup(2)
        self.fd = os.memfd_create('out')
        os.dup2(self.fd, 1); os.dup2(self.fd, 2)
        sys.stdout = open(1, 'w', buffering=1, closefd=False); sys.stderr = open(2, 'w', buffering=1, closefd=False)
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        self.respos = self.size
        v = job.get('variant', 'tsan'); self.variant = v
        core = self.core
        if core.sim_prepare(b'libregpt_%s.so' % v.encode()): raise RuntimeError('library not found')
        sched = job.get('sched') or []
        arr = (ctypes.c_uint64 * max(1, len(sched)))(*sched)
        c = Config(**{k: int(x) for k, x in cfg.items()})
        core.sim_np_arm(0)
        core.sim_begin(ctypes.byref(c), ctypes.c_void_p(self.base), arr, ctypes.c_int64(len(sched)))
        self.set_handler(self.capsule)
        from simops import Program
        Program(self, job).run()
        core.sim_end()
