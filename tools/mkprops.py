#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is readable and diffable)."""
import json, os
S='src/spectrum_1loop.c src/spectrum_2loop.c src/spectrum_bias_1loop.c src/spectrum_A_1loop.c src/spectrum_A_2loop.c src/spectrum_B.c'.split()
K='src/calc_pkcorr_from_A_1loop.c src/calc_pkcorr_from_A_2loop_I.c src/calc_pkcorr_from_A_2loop_II_III.c src/calc_pkcorr_from_B.c src/calc_pkcorr_from_bias_1loop.c src/calc_pkcorr_from_gamma2.c src/calc_pkcorr_from_gamma3.c src/gamma1_1loop.c src/gamma1_2loop.c src/gamma2d_1loop.c src/gamma2t_1loop.c src/bispectrum_1loop.c'.split()
PY='pyregpt/pyregpt.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('P01','Results do not depend on the number of threads or on their scheduling',
 'For a given linear spectrum, output wavenumbers and settings, every calculation returns bit-for-bit the same arrays whatever number of threads is requested, whatever number is actually provided, whichever thread handles which wavenumber, in whatever order threads advance, and whether worker threads are new or reused from earlier calculations. This holds for the 1-loop and 2-loop spectra, the bias terms and the A and B corrections alike.',
 ['schedules','configurations'],'all interleavings of a team of 1..16 threads, all team sizes requested and granted, fresh or reused workers, all nine calculations and all small precision settings',
 'The tests compare one run with 8 threads against stored numbers at 1e-6: they see one uncontrolled schedule, one team size, and never compare two schedules.',
 S+K+['src/common.c','src/regpt.c'],
 [('parallel region with a static work-shared loop over wavenumbers, private loop variables','src/spectrum_*.c: run_terms_*'),('per-thread scratch (threadprivate quadrature tables), initialised by each thread at region entry','src/calc_pkcorr_from_*.c, src/gamma*.c: init_*'),('thread-count selection','src/regpt.c: set_num_threads')],
 [('gauss_legendre_q / gauss_legendre_mu','threadprivate quadrature nodes, weights and spectrum values','each calculation file')],
 ['output columns after run_terms','regpt.so entry points'])
p('P02','Threads of a team never conflict on unsynchronised memory',
 'While a calculation runs on several threads, no two threads access the same memory location without synchronisation when at least one of the accesses writes. This holds for every team size, every calculation and every setting.',
 ['schedules','configurations'],'all interleavings and team sizes of every parallel calculation, with and without progress reporting and debug output',
 'A conflicting access usually stores the same value or loses the race rarely; the tests compare final numbers of a few runs and would pass (the B term had such a conflict for years).',
 S+K+['src/common.c'],
 [('threadprivate declarations','src/gamma*.c, src/calc_pkcorr_from_*.c'),('private(ik,...) and default(none) clauses','src/spectrum_*.c'),('critical section around the release of scratch','src/spectrum_*.c')],None,['memory accesses of the compiled library'])
p('P03','A calculation fills all its output columns and alters nothing else of the caller',
 'When a calculation returns, every element of every output column of the object it was called on has been computed by this call, whatever the column held before. The output wavenumbers, the input spectra, and every other array the caller owns keep their values.',
 ['schedules','configurations','histories'],'all grid lengths (shorter than, equal to and longer than the team, including empty and one-element grids), team sizes, schedules, previous column contents and neighbouring allocations',
 'The tests use freshly zeroed columns, a few fixed grid lengths and look only at the output columns; a skipped element that should be near zero, or a write next to a column, goes unseen.',
 S+K+['src/common.c',PY],
 [('static work-shared loop covering all indices','src/spectrum_*.c: run_terms_*'),('stores indexed by wavenumber and component','src/spectrum_*.c'),('columns handed over by address','pyregpt/pyregpt.py: set_terms')],None,['all caller-owned arrays before and after each call'])
p('P04','Working memory of a calculation is returned exactly once, by every thread',
 'All working memory obtained by a calculation or an evaluation, by whichever of its threads, has been released exactly once when the call returns. Repeating calls of any kind in any order therefore never makes the memory held by the library grow, and nothing is released that is not held.',
 ['schedules','histories','configurations'],'all sequences of calls, team sizes (also when the team granted is smaller than requested or than the number of wavenumbers), schedules and thread reuse',
 'The tests never look at memory; a leak per thread, per call or per grid point, or a double release that the allocator happens to tolerate, leaves the compared numbers unchanged.',
 S+K+['src/common.c'],
 [('init_*/free_* pairs called by every thread of the team','src/spectrum_*.c and src/calc_pkcorr_from_*.c'),('allocation and release of quadrature tables','src/common.c: init_gauss_legendre_q, free_gauss_legendre_q, ..._mu'),('temporary tables of the polynomial interpolation','src/common.c: interpol_poly'),('temporary spectra','src/spectrum_B.c: run_spectra_B_1loop, src/spectrum_1loop.c: run_spectrum_1loop')],None,['allocator calls of the library'])
p('P05','The library only touches live memory it was given or obtained itself',
 'For every sequence of public operations on well-formed inputs, the library reads and writes only inside arrays that are alive at that moment: arrays handed over by the caller and not yet replaced, its own working memory, and its own variables. This holds when objects are deleted, copied, padded, or given new wavenumbers or spectra between calculations, and for wavenumbers at, inside and outside the limits of the tabulated spectrum.',
 ['histories','inputs','schedules'],'all operation sequences over several objects with deletion and replacement of arrays at every point, grid and table lengths from the smallest upwards, wavenumbers on, between and beyond the tabulated ones, all team sizes',
 'Reads just outside an array, or of an array that Python has released but the allocator has not reused, return plausible numbers; the tests keep all objects alive and never check addresses.',
 ['src/common.c','src/regpt.c']+S+K+[PY],
 [('index clamping of table look-up, interpolation and extrapolation','src/common.c: find_pk, extrapol_pk_lowk, extrapol_pk_highk, calc_running_sigmad2'),('arrays kept alive and handed over again before use','pyregpt/pyregpt.py: _set_terms, _set_spectrum_lin'),('registered addresses','src/regpt.c: set_pk_lin; src/spectrum_*.c: set_terms_*')],
 [('pk_lin, terms_*','addresses of caller-owned arrays held between calls','src/define.c, src/spectrum_*.c')],['memory accesses of the compiled library'])
p('P06','Running out of memory never yields wrong numbers as if all were well',
 'If memory cannot be obtained at any point of any operation, the operation either still returns the correct result, or fails visibly (an exception, or the process ends abnormally); it never returns normally with missing, partial or wrong results. After an exception, the objects involved can be used again and give correct results (the operation that failed had no effect or its full one).',
 ['fault_sequences','histories','schedules'],'a failure of any one allocation, or of every allocation from some point on, by any thread of a calculation or by the Python layer, at every allocation site and every point of an operation sequence',
 'The tests never make an allocation fail.',
 ['src/common.c','src/spectrum_B.c','src/spectrum_1loop.c',PY],
 [('allocation results used directly','src/common.c: interpol_poly, init_gauss_legendre_q, init_gauss_legendre_mu'),('columns allocated before they are handed over','pyregpt/pyregpt.py: zeros, set_terms'),('arrays handed over again before each calculation','pyregpt/pyregpt.py: _set_terms')],None,['allocator calls of the library and of numpy','outcome of each operation'])
p('P07','Quiet mode is silent, and reporting, clock and output errors never alter results',
 'Once quiet mode is chosen nothing is written to standard output or standard error by any operation on any object, until another mode is chosen. The numbers returned by a calculation are the same in every verbosity mode, under any behaviour of the system clock, and when writing progress reports fails or is cut short.',
 ['fault_sequences','histories','schedules'],'all sequences of mode changes, object creations, copies and calculations; all clock readings including jumps backwards; failures and short writes of standard output at every point',
 'One test prints markers around a quiet run for a human to look at; output is never captured, and clock or output failures never happen in the tests.',
 ['src/regpt.c','src/common.c',PY]+S,
 [('process-wide verbosity','src/define.c: verbose; src/regpt.c: set_verbosity; pyregpt/pyregpt.py: set_verbosity, __init__'),('reports guarded by the mode','src/spectrum_*.c'),('timing','src/common.c: timer')],None,['standard output and error','output columns'])
p('P08','Debug dumps hold the computed values, and dump failures are never silent',
 'In debug mode a calculation that documents a dump writes, to its named file in the current directory, one line per wavenumber holding the values it computed (or, for the B correction, the input spectra it used), replacing an older file completely; in other modes no file is created or changed. If the file cannot be opened the process ends with a non-zero status and a message naming the file; if writing fails midway and goes on failing, the file holds a prefix of the complete dump and the returned arrays are still correct.',
 ['fault_sequences','crash_points','configurations'],'all calculations with dumps, all modes and team sizes, an existing longer or partial file from a crashed run, failure to open, and write failures or short writes after any number of bytes',
 'No test runs in debug mode or reads a dump, and the file system never fails in the tests.',
 ['src/spectrum_1loop.c','src/spectrum_2loop.c','src/spectrum_B.c','src/common.c'],
 [('dump writers','src/spectrum_1loop.c: write_terms_spectrum_1loop; src/spectrum_2loop.c: write_terms_spectrum_2loop; src/spectrum_B.c: write_spectra_B'),('open failure','src/common.c: error_open_file')],None,['file operations of the library','exit status and standard error'])
p('P09','A result depends only on the current spectrum, grid and settings, not on history',
 'The result of a calculation is bit-for-bit the one a fresh process would return for the same linear spectrum, wavenumbers, options and settings in force, whatever operations were performed before: other calculations of any kind, other spectra, grids, settings since reset, objects created and deleted, repeated calls, failed calls, or calls from another thread of the program.',
 ['histories','schedules'],'all sequences of public operations (including C entry points used by other languages) preceding a calculation, interleaved over several objects and several calling threads',
 'The tests run each scenario once, in its own process, from the initial state; state that survives a calculation (the full integration range of two integrals used to) is invisible to them.',
 S+K+['src/common.c','src/regpt.c',PY],
 [('scratch re-initialised at every calculation','init_* of each calculation'),('columns overwritten, not accumulated','src/spectrum_*.c'),('integration range derived at each calculation','src/calc_pkcorr_from_gamma3.c: init_gamma3_tree; src/calc_pkcorr_from_A_2loop_II_III.c: init_A_2loop_II_III; src/common.c: init_gauss_legendre_q')],
 [('static settings, registered arrays, threadprivate scratch','survive between calls','all of src/')],['output columns'])
p('P10','Settings act as documented, only where addressed, and clear() undoes them',
 'After any sequence of setting calls, each calculation uses exactly the integration order, range, interpolation and cutoff last set for it: an order of zero, a reversed range or an unknown interpolation leaves that item unchanged, a call with nothing to set restores the defaults of the addressed integral, a non-positive limit selects the range of the spectrum, and a group name addresses every member of the group and nothing else. After clear() all calculations behave as in a fresh process.',
 ['histories','configurations'],'all sequences of single and group setting calls, cutoff changes, and clear(), followed by any calculation',
 'The tests use a handful of fixed settings, mostly before the first calculation, and never check that one integral\'s setting leaves another one alone or that clear() really restores everything (it did not).',
 ['src/common.c',PY]+S+K,
 [('update rule of a setting','src/common.c: set_precision, set_interpol'),('per-integral setters','src/calc_pkcorr_from_*.c, src/gamma*.c: set_precision_*; src/spectrum_*.c: set_precision_*_pk_lin, set_running_uvcutoff_*'),('groups and clear','pyregpt/pyregpt.py: set_precision, set_running_uvcutoff, clear')],None,['output columns as a function of the settings'])
p('P11','Objects do not disturb each other',
 'A calculation on an object uses that object\'s own linear spectrum and wavenumbers and stores its results in that object\'s own columns, whatever other objects (of any class, including deep copies and padded objects) were created, given spectra or wavenumbers, run, modified or deleted in between. Columns of other objects never change, and results already returned stay as they are until their own object runs again.',
 ['histories','schedules'],'all interleavings of operations on several objects of the same or of different classes',
 'The tests create one object at a time and run it immediately; the library behind all objects is a single one with one registered spectrum and one set of arrays per calculation.',
 [PY,'src/regpt.c']+S,
 [('own arrays handed over before each calculation','pyregpt/pyregpt.py: _set_terms, _set_spectrum_lin'),('copies','pyregpt/pyregpt.py: copy, deepcopy, pad_k')],
 [('pk_lin, terms_*','one registration per process','src/define.c, src/spectrum_*.c')],['columns of all live objects'])
p('P12','Monte-Carlo integrands are the same in any worker, order or batch',
 'The value of an integrand handed to the multi-dimensional integrator depends only on the sample point and on the arguments of the calculation: it is the same whichever worker process evaluates it, in whatever order and batches samples are evaluated, and however often a sample is repeated or re-sent after the loss of a worker. Hence for a given sampling the 2-loop results do not depend on how many workers there are.',
 ['schedules','fault_sequences','configurations'],'all orders, batch sizes, worker counts (0 to many), repetitions and worker losses, for both integrals and both forms of the 2-loop calculations',
 'The tests that reach the integrator cannot run here, and elsewhere compare one run at 1e-6 or looser, above which effects of stale per-process state can hide.',
 ['src/calc_pkcorr_from_gamma3.c','src/calc_pkcorr_from_A_2loop_II_III.c','src/spectrum_2loop.c','src/spectrum_A_2loop.c','src/regpt.c'],
 [('integrands without side effects','src/calc_pkcorr_from_gamma3.c: kernel_pk_gamma3_tree; src/calc_pkcorr_from_A_2loop_II_III.c: kernel_A_tA_2loop_II_III'),('arguments passed through variables set before the integration','calc_pk_gamma3_tree, calc_pk_A_2loop_II_III'),('worker set-up','src/regpt.c: set_num_threads')],None,['calls of the integrator'])
p('P13','Progress reports are truthful and complete in any schedule',
 'In info mode every progress figure lies between 0 and 100 and equals the share of wavenumbers preceding the reported one, every line is whole, and the set of lines printed for a calculation is the same for every number of threads and schedule. The reported number of threads is the number that will do the work.',
 ['schedules','configurations'],'all grid lengths, team sizes requested and granted, and interleavings of progress output with the work of other threads',
 'No test looks at the output; figures above 100 went unnoticed.',
 S+['src/regpt.c'],
 [('progress lines','src/spectrum_*.c: run_terms_*'),('thread count by atomic increments','src/regpt.c: print_num_threads')],None,['standard output'])
p('P14','Every operation terminates, without deadlock, under every schedule',
 'Every operation on well-formed input returns within a number of steps bounded by a fixed multiple of the steps a single thread needs, in every interleaving in which no thread is stalled for ever; threads never wait for each other in a cycle and never spin. This includes teams larger than the work, empty grids, stalled threads and quadrature rules of any order.',
 ['schedules','configurations','inputs'],'all schedules including long stalls of any thread, team sizes above and below the number of wavenumbers, empty grids, orders from 1 to thousands',
 'The tests hang or do not hang on the one schedule and the few orders they use.',
 S+['src/common.c','src/regpt.c'],
 [('every thread of the team passes the loop barrier and the critical section','src/spectrum_*.c'),('termination of the node iteration','src/common.c: nodes_weights_gauss_legendre'),('bisection','src/common.c: get_dichotomy_index')],None,['scheduler steps'])
p('P15','A rejected or failed call leaves no trace',
 'A call that raises (an unknown setting or calculation name, ill-formed wavenumbers or spectra, a calculation before a spectrum or wavenumbers were given, a mode or option of the wrong type, an allocation failure in the Python layer) changes nothing that later calls can observe: later calculations on the same and on other objects return what they would have returned without it. (A call that sets something and runs out of memory may, instead, have set all of it; it never sets a part.)',
 ['fault_sequences','histories'],'all positions in an operation sequence at which one or several failing calls of each kind are inserted, including a failure in the middle of a call',
 'The tests contain no failing call.',
 [PY,'src/regpt.c'],
 [('argument conversion before the library is entered','pyregpt/pyregpt.py: argtypes'),('columns prepared before they are registered','pyregpt/pyregpt.py: zeros, set_terms, _set_terms')],None,['outcome of each operation'])
p('P16','The B correction uses exactly the spectra set for it',
 'The B correction is computed from the last density-velocity and velocity-velocity spectra set for it, whichever order they were set in; spectra set for other pairs are not taken for them, and the pair may be named in either order. When one of them has not been set, both are computed at 1 loop from the current linear spectrum for that calculation only, and afterwards the earlier state is unchanged.',
 ['histories','configurations'],'all sequences of setting each of the four pairs, of calculations of the B correction and of the 1-loop spectrum, and of changes of the linear spectrum',
 'The tests run the Python wrapper, which sets both spectra in one fixed order right before each calculation; other pairs, other orders and the fallback are never exercised.',
 ['src/spectrum_B.c','src/spectrum_1loop.c','src/calc_pkcorr_from_B.c'],
 [('choice of the spectrum to set','src/spectrum_B.c: set_spectra_B'),('fallback','src/spectrum_B.c: run_terms_B, run_spectra_B_1loop'),('working arrays of the fallback','src/spectrum_1loop.c: run_spectrum_1loop')],
 [('pk_dt, pk_tt','spectra registered for the B correction','src/spectrum_B.c')],['output columns of the B correction'])
p('P17','A calculation uses the number of threads it was asked for',
 'A calculation asked to use n threads is carried out by teams of at most n threads, and by n where there are that many wavenumbers and the system provides them; it tells the multi-dimensional integrator to use the same number of workers. This holds for all its parts (the spectra computed on the way to the B correction included), whatever earlier calculations asked for and whichever thread of the program calls.',
 ['histories','schedules','configurations'],'all sequences of calculations that ask for different numbers of threads, from different threads of the program, through Python and the C entry points, on teams granted in full or in part',
 'The tests never look at the number of threads at work; a calculation on one thread, or on all of them, gives the same numbers.',
 S+['src/regpt.c',PY],
 [('number of threads of the OpenMP run-time (per calling thread) and of the integrator (global)','src/regpt.c: set_num_threads'),('number handed down to the parts of a calculation','src/spectrum_B.c: run_spectra_B_1loop; pyregpt/pyregpt.py: B2Loop.run_terms')],None,['size of each team formed','number of workers of the integrator'])
p('P18','A result at one wavenumber does not depend on the rest of the grid',
 'What a calculation, a look-up of the linear spectrum or the running damping integral returns at one wavenumber is bit for bit what it returns when that wavenumber is the only one: it does not depend on which other wavenumbers are asked for, repeated or beyond the table, nor on their order or on which of them the same thread has dealt with before.',
 ['schedules','inputs','configurations'],'all grids (in any order, repeated, very close and outlying wavenumbers), all tables from two wavenumbers upwards, all distributions of the wavenumbers over threads',
 'The tests use fixed grids and compare whole columns at 1e-6; a value carried over from one wavenumber to the next is the same in every such run.',
 S+K+['src/common.c'],
 [('scratch of each thread, used again for its next wavenumber','src/calc_pkcorr_from_*.c, src/gamma*.c'),('positions and partial sums kept from one wavenumber to the next','src/common.c: find_pk, calc_running_sigmad2'),('accumulation into output columns','src/spectrum_*.c')],None,['output columns'])
p('P19','Padding, slicing and copying keep rows together, also when memory runs out',
 'Indexing, padding, copying and rescaling a set of terms act on all its columns alike, so that each row still belongs to its wavenumber, padded rows hold the look-ups at their wavenumbers and the padding value, and all columns keep the length of the wavenumbers. When such an operation fails for lack of memory at any point, all columns are as they were before. (Where setting new wavenumbers fails: as they were before, or all new.)',
 ['histories','fault_sequences','inputs'],'all sequences of these operations and calculations over several objects, index expressions, paddings on either, both or no sides, and a failure of any allocation of the array layer',
 'The padding test does not run here, slicing is untested, and no allocation ever fails in the tests.',
 [PY],
 [('column-wise operations','pyregpt/pyregpt.py: Terms.__getitem__, pad_k, deepcopy, copy, rescale, nan_to_zero'),('all columns replaced at once','pyregpt/pyregpt.py: Terms.pad_k, Terms.zeros, PyRegPT.pad_k')],None,['columns of all objects'])
p('P20','Growth factors and rescaling agree, at any point of a history',
 'Evaluating terms or a linear spectrum with growth factor D gives what evaluating them with growth factor 1 gives once they are rescaled by D; and terms rescaled by D are those a calculation gives for the linear spectrum rescaled by D, each column to its order in the spectrum (the corrections at 2 loops, A2Loop and B2Loop, excepted, which mix orders). This holds after any sequence of calculations, copies, rescalings and evaluations on any number of threads, and a calculation after the linear spectrum was rescaled uses the rescaled one.',
 ['histories','inputs','schedules'],'all growth factors, classes, evaluation methods and spectra, at any point of all sequences of these operations on several objects',
 'One file is compared at one growth factor; nothing is ever rescaled.',
 [PY],
 [('powers of the growth factor','pyregpt/pyregpt.py: scale_factor, damping_factor, pk of each class'),('order of each column','pyregpt/pyregpt.py: SCALE of each class, Terms.rescale')],None,['values returned by evaluations, columns'])
# pure properties: not applicable to this technique
p('N01','Calculated spectra agree with the published RegPT and RegPTcorr results',
 'For every physically reasonable linear spectrum the 1- and 2-loop terms and spectra, bias terms and A and B corrections agree with those of the reference implementation to the stated tolerance.',
 ['inputs'],'all linear spectra and wavenumbers','The tests compare one cosmology.',S+K,[('kernels','src/kernels.c, src/gamma*.c')])
p('N02','Gauss-Legendre rules are exact to their degree',
 'The n-point nodes and weights integrate every polynomial of degree up to 2n-1 exactly over the interval, up to rounding; nodes lie inside the interval and weights are positive and sum to its length.',
 ['inputs'],'all orders and intervals','The tests look at orders 10 and 100.',['src/common.c'],[('Newton iteration on Legendre polynomials','src/common.c: nodes_weights_gauss_legendre')])
p('N03','Look-up reproduces the table and continues it smoothly',
 'At a tabulated wavenumber the spectrum look-up returns the tabulated value; between them it lies on the chosen interpolant, and outside it continues as a power law.',
 ['inputs'],'all tables and wavenumbers','The tests use one table.',['src/common.c'],[('look-up','src/common.c: find_pk')])
p('N04','Cross spectra are symmetric in their two fields',
 'The spectrum of (a,b) equals that of (b,a), with the two propagators exchanged.',
 ['inputs'],'all spectra and pairs','The tests compare both with stored numbers for one cosmology.',['src/spectrum_1loop.c','src/spectrum_2loop.c',PY],[('symmetric use of a and b','src/calc_pkcorr_from_gamma2.c')])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
