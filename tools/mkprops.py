# writes properties.jsonl (kept as the single source for the property texts)
import json
FE=["spafe/features/%s.py"%m for m in "bfcc cqcc gfcc lfcc lpc mfcc msrcc ngcc pncc psrcc rplp spfeats".split()]
FB=["spafe/fbanks/%s.py"%m for m in "bark_fbanks gammatone_fbanks linear_fbanks mel_fbanks".split()]
FR=["spafe/frequencies/dominant_frequencies.py","spafe/frequencies/fundamental_frequencies.py"]
UT=["spafe/utils/%s.py"%m for m in "cepstral converters filters preprocessing spectral".split()]
VI=["spafe/utils/vis.py"]
ALL=FE+FB+FR+UT
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})

p("C01","Concurrent callers get exactly the answers they would get alone",
 "When any computation functions (features, spectrograms, filter banks, pitch and dominant frequencies, converters, pre- and post-processing helpers) are called at the same time from several threads of one process, on private or shared argument objects, every call returns, or raises, exactly what the same call does alone in a freshly started process. This holds for every interleaving of the calls, and also for a call made from inside another one on the same thread, as a signal handler or finaliser would make it.",
 ["schedules","inputs","configurations"],
 "all interleavings (at source-line and at bytecode granularity) of 2-4 caller threads, with stalls, garbage collections and re-entrant calls at arbitrary points, over all public computation functions and their parameters",
 "The test suite is single-threaded: no two calls ever overlap, so any state shared between calls (scratch buffer, cache, default object) is never observed half-updated.",
 ALL,[("functions keep every intermediate in locals; module level holds only constants and message tables","all modules of spafe/features, spafe/fbanks, spafe/frequencies, spafe/utils"),
      ("a fresh window object is built per call when none is given","spafe/features/*.py: 'if window is None'"),
      ("framing copies the signal before taking strided views of it","spafe/utils/preprocessing.py: stride_trick")],
 ["return value or exception of each public call"])
p("C02","A call's outcome depends on its arguments, never on the calls made before it",
 "After any history of earlier calls of any computation functions, successful or rejected with an error, a call returns or raises exactly what it would as the first call of a fresh process. In between, the caller may overwrite, reuse or drop its earlier argument arrays and modify earlier results in place.",
 ["histories","inputs","configurations"],
 "all finite call histories: neighbouring configurations differing in one parameter, different functions with equal parameters, hundreds of distinct configurations and repeats, argument buffers refilled in place, results modified by the caller, rejected calls",
 "Each test calls a function once or twice with equal parameters; no test interleaves different configurations, refills a buffer in place, modifies a result and calls again, or builds a history long enough to evict anything.",
 ALL,[("no caches, no mutable defaults, no accumulation across calls","all modules"),("fresh arrays allocated per call","all modules")],
 ["return value or exception of each public call"])
p("C03","Caller-owned arguments are never written to, not even temporarily",
 "Signals, lists, precomputed filter banks, cepstra, spectra and window objects that a caller passes in hold the same values at every instant of the call, as another thread would see them, and after it, whether the call returns, raises or is interrupted midway. Read-only argument arrays give the same outcome as writable ones.",
 ["inputs","schedules","fault_sequences"],
 "every instant (each executed source line) of calls of every public computation function, over argument kinds (dtypes, layouts, lists, read-only), with interrupts and allocation failures at arbitrary points",
 "No test compares an argument before and after a call, let alone during it or after an interrupted one.",
 ALL,[("pre-emphasis and framing build new arrays","spafe/utils/preprocessing.py: pre_emphasis, stride_trick, framing"),
      ("feature stages rebind locals and only store into arrays they created","spafe/features/*.py"),
      ("in-place row reversal happens on the bank just built","spafe/fbanks/mel_fbanks.py: inverse_mel_filter_banks")],
 ["bytes of each argument object"])
p("C04","An interruption or memory failure inside a call is never swallowed",
 "If a keyboard interrupt, interpreter-exit request or timeout exception from a signal handler strikes at any point of a running computation call, that exception reaches the caller. If a memory allocation fails inside a call, the call raises an error or returns exactly the fault-free result; in no case does a call hit by such a fault return a different, degraded or partial result.",
 ["fault_sequences","crash_points","inputs"],
 "every executed line and library-call return of every public computation function as the point of interruption; every array allocation as the failing one",
 "No test injects any failure; the fallback and error paths inside a call are never executed by the suite.",
 ALL,[("no broad exception handlers around computations","all modules; spafe/fbanks/gammatone_fbanks.py: peak normalisation")],
 ["exception or value the caller receives"])
p("C05","A call abandoned midway leaves no trace in later results",
 "After calls were abandoned at arbitrary points by an interrupt, a failed allocation or the death of their thread, every later or concurrent call, including a retry of the abandoned one, returns or raises exactly what it would in a fresh process.",
 ["crash_points","fault_sequences","histories","schedules"],
 "all abandonment points (line, library-call return, allocation) of one or more calls in a history on one or several threads, followed by retries and calls with equal or neighbouring parameters",
 "No test abandons a call midway, so nothing checks that partially built state is not picked up later.",
 ALL,[("no state outlives a call","all modules")],["return value or exception of the later calls"])
p("C06","Process-wide settings are the same during and after any call as before it",
 "No computation call changes process-wide or thread-wide settings of its host program: numeric error handling, warning filters, the states of the global random generators, array print options, working directory, environment, locale, signal handlers, interpreter limits and hooks, logging and plotting defaults, or attributes of the numeric libraries and of the spafe modules. This holds on every exit (normal, rejected arguments, interrupted) and for every interleaving of concurrent calls; process-wide settings do not change even temporarily.",
 ["fault_sequences","schedules","inputs"],
 "every exit path of every public computation function, interruptions at every point, overlapping calls",
 "No test looks at interpreter or library settings, and the paths that would skip a restore (errors, interrupts, overlapping calls) are not exercised.",
 ALL,[("computations never touch global settings; non-finite values are avoided by substituting tiny values instead of silencing warnings","spafe/utils/preprocessing.py: zero_handling"),("module tables are only read","spafe/utils/exceptions.py, spafe/fbanks/mel_fbanks.py")],
 ["settings snapshot before, during and after calls"])
p("C07","Results do not depend on clock, randomness, environment or process identity",
 "A computation call with the same arguments gives the bit-identical outcome in every process and at every moment: whatever the time of day and clock jumps, global random seeds, system entropy, environment variables, working directory, string-hash seed, thread that makes the call, garbage-collector state, or whether the process was spawned or forked. It draws nothing from the global random generators.",
 ["configurations","histories","schedules"],
 "all settings of the ambient sources (simulated clock, entropy, generator seeds, environment, directory, hash seed, thread, GC) and changes to them at arbitrary points of a call",
 "Tests run each call in one ambient configuration and compare with themselves in the same process at 3 decimals.",
 ALL,[("pure numpy/scipy arithmetic with no clock, random or environment reads","all modules")],["return value or exception; generator states"])
p("C08","Results belong to the caller alone",
 "An array or container returned by a computation call shares no memory with the call's arguments, with any other call's result, or with state inside the library: overwriting an argument after the call does not change the result, and writing into a result changes no argument, no other result and no later call. The only exception is liftering with a factor documented to do nothing, which may hand back its argument.",
 ["histories","inputs","configurations"],
 "all pairs of results and arguments over histories of calls with equal or different parameters, with the caller overwriting arguments and results between calls",
 "Tests never write into an argument or a result after the call.",
 ALL,[("framing copies its input","spafe/utils/preprocessing.py: stride_trick"),("banks and features are allocated per call","spafe/fbanks/*.py, spafe/features/*.py")],
 ["memory bounds of results and arguments; values after overwriting"],None)
p("C09","No call ever waits for another, and every call finishes",
 "A computation call completes within a bounded amount of its own work whatever other callers do: it never blocks on, spins on, or retries because of a call that another thread has started and that is stalled indefinitely, was interrupted midway, or died. There is no interleaving or interruption after which some later call hangs.",
 ["schedules","crash_points","fault_sequences"],
 "all interleavings of 2-4 callers where any may be stalled for the rest of the run or killed at any point; bounded liveness: each call finishes within a fixed multiple of its solo step count",
 "Tests never overlap, stall or kill calls, so a lock left held or a spin on shared state cannot show.",
 ALL,[("no locks, queues, or waits anywhere","all modules"),("all loops are over ranges fixed by the arguments; the pitch search advances on each turn","spafe/frequencies/fundamental_frequencies.py: get_pitch")],
 ["number of steps each call takes; blocked callers"])
p("C10","Computations do no I/O and leave nothing running",
 "Computation calls open, read, write or delete no files (Python's own loading of module code apart), make no network connections, start no processes, print nothing to standard output or error (apart from warnings issued through the warnings mechanism), and leave no thread running and no file descriptor open. This holds on success, on rejected arguments, and when the call is interrupted or runs out of memory.",
 ["inputs","fault_sequences","histories"],
 "all calls, exits and fault points of every public computation function",
 "The suite asserts on values only; it would not notice a temp file, a cache on disk, a stray print, or a leaked thread or descriptor.",
 ALL,[("computations are in-memory only; audio reading is left to the caller","all modules")],["interpreter audit events, standard streams, thread list, descriptor table"])
p("C11","Memory held does not grow with the number of calls, and no caller data is kept",
 "Once a computation call has ended, normally, with an error or by interruption, and the caller has dropped its own references, the library keeps no reference to any argument array. Over arbitrarily long call histories with ever new arguments and parameters, the memory retained by the library stays below a fixed bound.",
 ["histories","fault_sequences","inputs"],
 "histories of several hundred calls with pairwise distinct parameters and signals for each public function, with rejected and interrupted calls",
 "Tests make a few calls each and never look at memory.",
 ALL,[("no caches and no retained references","all modules")],["liveness of argument arrays after the call; traced memory over long histories"])
p("C12","Plotting draws only in its own new figure",
 "Each call of a plotting function opens exactly one new figure whose contents are determined by its arguments and the plotting defaults in force, whatever figures the caller had open or selected before. It never alters, closes or draws on the caller's existing figures, never changes plotting defaults or its argument arrays, whether it completes, the display fails, or it is interrupted at any point.",
 ["histories","fault_sequences","inputs"],
 "all histories of caller-made figures and plotting calls, with interrupts at any point and failing displays",
 "The tests call each plotting function once on a clean plotting state with the display mocked, and assert nothing about the result.",
 VI,[("each function opens a fresh figure before drawing","spafe/utils/vis.py: show_fbanks, show_spectrogram, show_features")],
 ["structural digest of every open figure, plotting defaults"])
p("C13","Results never depend on uninitialised or out-of-bounds memory",
 "Whatever the memory handed out by the allocator happens to contain, and wherever it lies, a computation call gives the same outcome: it never reads an element before writing it and never reads or writes outside its argument and working arrays. Signals of an unsupported shape (two channels, row vectors) or with a senseless hop are rejected or processed deterministically, never read past their end.",
 ["histories","fault_sequences","inputs","configurations"],
 "all contents and placements of allocated array memory (seeded poison, guard zones, alignments) for every public computation function, including signals of unsupported shape",
 "Freshly mapped memory is mostly zero in a test process, so an element read before it is written usually looks right; no test passes a two-channel or row-vector signal.",
 ALL,[("zero-initialised work arrays","spafe/fbanks/*.py, spafe/features/*.py: np.zeros"),("frame count formula keeps strided frames inside the copied signal","spafe/utils/preprocessing.py: stride_trick"),("sparse kernel rows filled by explicit index ranges","spafe/utils/spectral.py")],
 ["return value or exception under differing memory contents; guard zones"])
p("C14","Modules import in any order, after an interrupted import, and without plotting",
 "Every module of the package can be the first one imported, and the modules can be imported in any order and concurrently by several threads, always giving working and identically behaving functions. An import interrupted at any point can simply be repeated, importing changes no process-wide settings and does no work beyond defining names, and everything except the functions that draw figures works when the plotting library is not installed.",
 ["schedules","crash_points","configurations","fault_sequences"],
 "all import orders (each module first, random permutations), interruption at any executed import-time line or nested import, concurrent importers, optional dependency missing",
 "The suite and the build import modules in one fixed order with every dependency installed.",
 ALL+VI+["spafe/__init__.py","spafe/fbanks/__init__.py","spafe/features/__init__.py","spafe/frequencies/__init__.py","spafe/utils/__init__.py"],
 [("acyclic import graph: features -> fbanks -> utils","import blocks of all modules"),("plotting library imported inside the drawing functions only","spafe/utils/vis.py")],
 ["import outcome and behaviour of the functions afterwards"])

# ---- pure functions of their arguments: not decidable by simulation
NA="tests compare a handful of parametrisations with themselves; it must hold for every input"
p("C20","Framing is exact and complete",
 "For every mono signal at least one window long, frame k contains exactly the samples from k*hop to k*hop+length-1, and frames are produced as long as a whole window fits.",["inputs","configurations"],"all signals, rates, window lengths and hops",NA,
 ["spafe/utils/preprocessing.py"],[("frame count formula and strided view","stride_trick, framing")])
p("C21","Cepstral features are finite, one row per frame, for every real signal",
 "For every finite mono signal, including silence, each cepstral extractor returns one row per frame and the requested number of columns, with finite values.",["inputs","configurations"],"all signals and parameters",NA,
 FE,[("zero substitution before logarithms","spafe/utils/preprocessing.py: zero_handling")])
p("C22","Filter banks are non-negative, at most one, and confined to the requested band",
 "Every filter bank has one row per filter and one column per frequency bin, entries in [0, 1], responses confined to the band, and centres increasing within it; scaling multiplies rows by the documented ramp.",["inputs","configurations"],"all bank parameters",NA,
 FB+["spafe/utils/filters.py"],[("slope construction and row scaling","mel_filter_banks_helper, scale_fbank")])
p("C23","Frequency-scale conversions are strictly increasing and invert each other",
 "For every approach, converting hertz to mel, bark or erb and back returns the original frequency, and each conversion is strictly increasing over the audible range.",["inputs","configurations"],"all frequencies and approaches",NA,
 ["spafe/utils/converters.py"],[("closed-form pairs","converters")])
p("C24","Invalid parameters are rejected with the library's parameter error",
 "A negative lowest frequency, a highest frequency above half the sampling rate, fewer filters than coefficients, or a hop longer than the window is rejected with the parameter error before any result is produced, and valid parameters are accepted, defaults included.",["inputs","configurations"],"all parameter combinations",NA,
 FE+FB+["spafe/utils/preprocessing.py","spafe/utils/exceptions.py"],[("explicit checks at entry","'run checks' blocks")])
p("C25","Passing the bank the library would build gives the same features as passing none",
 "Passing the bank that the library would build for the same parameters yields the same features as passing none.",["inputs","configurations"],"all signals and bank parameters",NA,
 FE,[("bank built only when none is given","'if fbanks is None'")])
p("C26","Frame features depend only on that frame's samples",
 "For extractors without inter-frame stages, changing or removing samples outside a frame (and the one sample before it when pre-emphasis is on) leaves that frame's features unchanged.",["inputs"],"all signals and edits outside a frame",NA,
 FE+FR,[("per-frame transforms along the last axis","features")])
p("C27","Linear prediction coefficients solve the normal equations of their frame",
 "For every non-degenerate frame, the returned coefficients satisfy the autocorrelation normal equations for the requested order, with leading coefficient one.",["inputs","configurations"],"all frames and orders",NA,
 ["spafe/features/lpc.py","spafe/features/rplp.py"],[("autocorrelation and Toeplitz solve","__lpc_helper")])
p("C28","Pitch and dominant frequency estimates of a pure tone match the tone",
 "For a steady tone within the search range, the estimated fundamental and dominant frequencies equal the tone's frequency within the resolution, and never leave the search range.",["inputs","configurations"],"all tones, rates and window parameters",NA,
 FR,[("YIN difference function and threshold search; spectral peak picking","frequencies")])
p("C29","Liftering and normalisation follow their definitions",
 "Mean subtraction gives zero-mean columns, variance options divide by the stated deviation, and liftering multiplies column k by the documented factor, for every cepstral matrix.",["inputs","configurations"],"all matrices and options",NA,
 ["spafe/utils/cepstral.py"],[("closed-form expressions","normalize_ceps, lifter_ceps, deltas")])
open(__file__.rsplit("/tools/",1)[0]+"/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
