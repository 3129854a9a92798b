#!/usr/bin/python3
"""Builds the simulator and the instrumented copies of the library from the working tree of /repo.

  tsan : every access, atomic and basic block is a hook (switch points, data races, heap checks)
  kasan: every access checked against heap, stack and global bounds (and a switch point)
The result goes to /verif/build/<content hash>/ and is reused while nothing changed."""
import hashlib, json, os, subprocess, sys, glob, fcntl, shutil, tempfile
SIM = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(SIM)
REPO = os.environ.get('SIM_REPO', '/repo')
CC = os.environ.get('CC', 'gcc')
VARIANTS = {
    'tsan': '-fsanitize=thread -fsanitize-coverage=trace-pc --param tsan-instrument-func-entry-exit=0',
    'kasan': '-fsanitize=kernel-address -fasan-shadow-offset=0x7fff8000 --param asan-stack=1 --param asan-globals=1 --param asan-instrumentation-with-call-threshold=0 -fsanitize-coverage=trace-pc',
}
GOMP = '''GOMP_parallel GOMP_barrier GOMP_barrier_cancel GOMP_critical_start GOMP_critical_end GOMP_critical_name_start GOMP_critical_name_end
GOMP_atomic_start GOMP_atomic_end GOMP_loop_end GOMP_loop_end_nowait GOMP_loop_end_cancel GOMP_ordered_start GOMP_ordered_end GOMP_single_start
GOMP_single_copy_start GOMP_single_copy_end GOMP_sections_next GOMP_sections_start GOMP_sections_end GOMP_sections_end_nowait GOMP_parallel_sections
GOMP_task GOMP_taskloop GOMP_taskloop_ull GOMP_taskwait GOMP_taskyield GOMP_taskgroup_start GOMP_taskgroup_end GOMP_cancel GOMP_cancellation_point
GOMP_parallel_loop_runtime GOMP_parallel_loop_nonmonotonic_runtime GOMP_parallel_loop_maybe_nonmonotonic_runtime
omp_get_thread_num omp_get_num_threads omp_get_max_threads omp_set_num_threads omp_get_num_procs omp_in_parallel omp_set_dynamic omp_get_dynamic
omp_set_nested omp_get_nested omp_set_schedule omp_get_schedule omp_get_thread_limit omp_set_max_active_levels omp_get_max_active_levels omp_get_level
omp_get_active_level omp_get_ancestor_thread_num omp_get_team_size omp_in_final omp_get_cancellation omp_get_proc_bind omp_get_wtick omp_get_wtime
omp_init_lock omp_destroy_lock omp_set_lock omp_unset_lock omp_test_lock omp_init_nest_lock omp_destroy_nest_lock omp_set_nest_lock omp_unset_nest_lock omp_test_nest_lock'''.split()
for n in 'static dynamic guided runtime nonmonotonic_dynamic nonmonotonic_guided nonmonotonic_runtime maybe_nonmonotonic_runtime'.split():
    for f in 'GOMP_loop_%s GOMP_loop_ordered_%s GOMP_loop_ull_%s GOMP_loop_ull_ordered_%s'.split():
        GOMP += [f % n + '_start', f % n + '_next']
GOMP += ['GOMP_parallel_loop_' + n for n in 'static dynamic guided nonmonotonic_dynamic nonmonotonic_guided'.split()]
LIBC = '''malloc calloc realloc reallocarray free aligned_alloc posix_memalign strdup memcpy memmove memset memcmp
strlen strcmp strncmp strcpy strncpy strcat sprintf snprintf vsnprintf
printf fprintf vprintf vfprintf puts fputs fputc putchar fwrite fflush fclose fopen freopen remove rename perror dprintf write stdout stderr
exit _exit quick_exit abort __assert_fail time clock clock_gettime gettimeofday usleep sleep nanosleep sched_yield
pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock Suave Vegas Cuhre'''.split()
RENAME = {n: 'sim_' + n for n in GOMP + LIBC}
RENAME.update({'__tls_get_addr': 'sim_tls_get_addr', 'cubacores': 'sim_cubacores_v', 'cubaaccel': 'sim_cubaaccel_v', 'cubawait': 'sim_cubawait_v', 'fopen64': 'sim_fopen64', 'unlink': 'sim_unlink', 'putc': 'sim_putc'})


def makevars():
    mk = 'include %s/src/Makefile\nsimprint:\n\t@echo "SRC:$(SRC)"\n\t@echo "OPT:$(DEFINEOPTIONS)"\n' % REPO
    src = []; opt = []
    env = {k: v for k, v in os.environ.items() if k not in ('MAKEFLAGS', 'MAKELEVEL', 'OPT')}
    r = subprocess.run(['make', '-s', '-C', REPO + '/src', '-f', '-', 'simprint'], input=mk, capture_output=True, text=True, env=env)
    for l in r.stdout.splitlines():
        if l.startswith('SRC:'): src = l[4:].split()
        if l.startswith('OPT:'): opt = l[4:].split()
    src = [s for s in src if os.path.exists(os.path.join(REPO, 'src', s))]
    if not src: src = sorted(os.path.basename(f) for f in glob.glob(REPO + '/src/*.c'))
    return src, opt


def key():
    h = hashlib.sha256()
    for f in sorted(glob.glob(REPO + '/src/*')) + sorted(glob.glob(SIM + '/*.cpp')) + [SIM + '/cuba.h', SIM + '/simbuild.py']:
        if f.endswith(('.o', '.d')) or not os.path.isfile(f): continue
        h.update(os.path.basename(f).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        sys.stderr.write('simbuild: %s\n%s%s\n' % (' '.join(cmd)[:400], r.stdout[-3000:], r.stderr[-3000:]))
        raise RuntimeError('build failed')
    return r


def build(verbose=False):
    base = os.path.join(ROOT, 'build')
    os.makedirs(base, exist_ok=True)
    k = key(); out = os.path.join(base, k)
    if os.path.exists(out + '/done'):
        os.utime(out); return out
    with open(base + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out + '/done'): return out
        tmp = tempfile.mkdtemp(dir=base, prefix='tmp')
        try:
            src, opt = makevars()
            jobs = []
            open(tmp + '/rename', 'w').write(''.join('%s %s\n' % i for i in sorted(RENAME.items())))
            jobs.append(('core', subprocess.Popen(['g++', '-std=c++17', '-O2', '-g', '-fPIC', '-shared', '-w', '-fvisibility=hidden', '-fno-exceptions', SIM + '/simcore.cpp', '-o', tmp + '/libsimcore.so', '-ldl'], stderr=subprocess.PIPE, text=True)))
            objs = {}
            for v, fl in VARIANTS.items():
                for s in src:
                    o = '%s/%s_%s.o' % (tmp, v, os.path.splitext(s)[0].replace('/', '_')); objs.setdefault(v, []).append(o)
                    # -D definitions come from the project's Makefile, the optimisation level and instrumentation from here
                    cmd = [CC, '-fopenmp', '-O2', '-g', '-w', '-fPIC', '-fno-builtin-printf', '-fno-builtin-fprintf', '-fno-builtin-malloc', '-fno-builtin-calloc', '-fno-builtin-free', *['-fno-builtin-' + f for f in 'memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy strcat sprintf snprintf'.split()], '-fno-tree-loop-distribute-patterns', '-U_FORTIFY_SOURCE', '-mtls-dialect=gnu', '-fno-omit-frame-pointer', '-I' + SIM] + opt + fl.split() + ['-c', os.path.join(REPO, 'src', s), '-o', o]
                    jobs.append((s, subprocess.Popen(cmd, stderr=subprocess.PIPE, text=True)))
                    while sum(p.poll() is None for _, p in jobs) >= 16: jobs[[p.poll() is None for _, p in jobs].index(True)][1].wait()
            for n, p in jobs:
                _, e = p.communicate()
                if p.returncode:
                    sys.stderr.write('simbuild: %s\n%s\n' % (n, e[-3000:])); raise RuntimeError('compilation failed')
            for v in VARIANTS:
                for o in objs[v]: run(['objcopy', '--redefine-syms=' + tmp + '/rename', o])
                # interposition is off so that the library calls its own functions; undefined symbols are an error
                run(['gcc', '-shared', '-Wl,-z,now', '-Wl,-Bsymbolic', '-Wl,--allow-multiple-definition', '-Wl,-rpath,$ORIGIN', '-nostartfiles'] + objs[v] + ['-L' + tmp, '-lsimcore', '-lm', '-lc', '-Wl,--no-undefined', '-Wl,-soname,libregpt_%s.so' % v, '-o', '%s/libregpt_%s.so' % (tmp, v)])
                for o in objs[v]: os.unlink(o)
            blocks = {}
            for v in VARIANTS:
                d = subprocess.run(['objdump', '-d', '--no-show-raw-insn', '%s/libregpt_%s.so' % (tmp, v)], capture_output=True, text=True).stdout
                blocks[v] = sum('call' in l and 'sanitizer_cov_trace_pc' in l for l in d.splitlines())
            json.dump(blocks, open(tmp + '/blocks.json', 'w'))
            open(tmp + '/done', 'w').write(REPO + '\n')
            if os.path.exists(out): shutil.rmtree(out)
            os.rename(tmp, out)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True); raise
        old = sorted((d for d in glob.glob(base + '/*') if os.path.isdir(d) and d != out), key=os.path.getmtime)
        for d in old[:-3]: shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == '__main__':
    print(build(True))
