"""writes MANIFEST.json"""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = 'deterministic simulation with fault injection'
COMMON = 'Seeded search, not exhaustive: a clean run says that no violation was met in the cases explored (evidence file). The C code is the real one, recompiled from the working tree with its memory accesses, atomics and basic blocks calling the simulator; OpenMP, malloc, stdio, clock and Cuba are simulated. '
N = {
'P01': ('thread schedules and team sizes against a serial run in a fresh process', 'Bitwise comparison. Threads are switched at memory accesses, basic blocks and synchronisation; weaker orderings of the processor are not simulated.'),
'P02': ('happens-before race detection on simulated schedules', 'Every access of every thread is compared with all earlier ones not ordered before it, by vector clocks; a race is found even where the schedule did not make it change a value.'),
'P03': ('poisoned columns and byte-wise watching of caller arrays under simulated schedules', 'Columns are poisoned before calculations; every array the caller owns is compared before and after each operation.'),
'P04': ('simulated allocator that accounts for every block, per operation', 'Blocks, locks and files left after each operation; frees of what is not held; growth of the Python layer over repeated cycles.'),
'P05': ('simulated allocator and shadow memory over seeded histories of operations', 'Every access of the instrumented C code is checked against live memory, with freed blocks never reused during a run; accesses inside libc functions are checked at their call.'),
'P06': ('injection of allocation failures at chosen points of seeded histories', 'One or several failures per run, in the C code and in numpy; a result returned normally must equal that of a fresh process, and later results too.'),
'P07': ('simulated output streams and clock with faults: errors, short writes, clock jumps', 'All standard output and error, from C and from Python, are observed; results compared bitwise over verbosity modes, clocks and output faults.'),
'P08': ('simulated directory with open failures, full disks, and kills at arbitrary steps', 'The content of dumps is checked against returned arrays; after a kill the file must be a prefix of a complete dump or be absent or old.'),
'P09': ('seeded histories of operations against fresh processes', 'Each result of a history is compared bitwise with a fresh process that has only the spectrum, grid and settings in force.'),
'P10': ('seeded sequences of settings against a reference model of the settings', 'What each calculation did (allocations, evaluations, results) is compared with a fresh process set up according to the model; values under every single setting and under the defaults are recorded in golden/settings.json.'),
'P11': ('seeded interleavings of operations on several objects against fresh processes', 'Every result, and every column of every other object, is checked after every operation.'),
'P12': ('simulated workers of the Monte-Carlo integrator: order, batches, loss and re-sending', 'Each sample is evaluated again at other times, in other workers and batches, with other samples before it, and must give the same bits.'),
'P13': ('simulated schedules with every line of progress checked against the history', 'Lines as they reach the simulated terminal are compared with the wavenumbers actually handled and with the lines of a serial run.'),
'P14': ('adversarial schedules, stalls and step bounds', 'A bound of twice (threads + 1) times the serial number of steps, for at least 16 threads, plus 400000 per operation; deadlocks are detected exactly (no thread can run).'),
'P15': ('refused calls and allocation failures of the Python layer inserted into seeded histories', 'All later results are compared with those of a fresh process without the refused calls.'),
'P16': ('seeded histories of the B term against fresh processes and metamorphic relations', 'Powers of the spectra, fallback against explicit spectra, Python classes against the C interface.'),
'P17': ('simulated OpenMP run-time and integrator: every team formed and every worker count asked for, over seeded histories', 'Teams are compared with the number asked for by each calculation; a number of zero, which leaves the choice to the run-time, is not judged.'),
'P18': ('seeded schedules and grids against fresh processes with a single wavenumber', 'Bitwise, for the first, the last and some other rows of every column.'),
'P19': ('allocation failures injected in seeded histories of column operations, against a small reference model', 'All columns of all objects are read after every operation and compared with those the model derives from the columns read before.'),
'P20': ('seeded histories of rescaling, evaluation and calculation, with metamorphic relations and fresh processes', 'Numerical tolerance 1e-9 between the two ways of evaluating (1e-6 for integrals), 1e-7 between rescaled terms and a calculation from the rescaled spectrum.'),
}
checks = [dict(property=p, quick_cmd='./check %s --tier quick' % p, thorough_cmd='./check %s --tier thorough' % p, technique='%s: %s' % (T, t), level='exploration', level_note=COMMON + n) for p, (t, n) in sorted(N.items())]
PURE = 'A pure function of its inputs: no schedule, clock, fault, I/O or history takes part, so simulation would be plain input generation. '
NA = {
'N01': PURE + 'What simulation can decide, that every schedule, fault and history gives the same numbers, is claimed as P01, P06, P09; whether those numbers are the published ones is for the numerical tests.',
'N02': PURE + 'Rules obtained by several threads at once, or after failures, are covered by P01, P06 and P09.',
'N03': PURE + 'Look-ups that leave the table in memory are covered by P05.',
'N04': PURE + 'An algebraic identity between two calculations.',
}
m = dict(version=1, setup_cmd='/usr/bin/python3 sim/simbuild.py', hooks=dict(guard='none: no hook was needed in the repository', enable='the checks compile the unchanged sources with instrumentation (gcc -fsanitize=thread and -fsanitize=kernel-address, without their run-time libraries) and link them with the simulator in place of libgomp, malloc, stdio, clock and Cuba', source_commits=[]), checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())], notes='./check <id> --replay <file> replays a recorded violation; --seed, --n, --workers choose the search. Repairs made in the repository are listed in known-findings.txt.')
open(ROOT + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
