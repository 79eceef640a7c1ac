#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source for titles, statements and check entries)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or ["caller's arrays and return values on every rank"], hook_needed=None),
                  technique=technique, note=note))

T = "The tests run a few fixed grids on 1, 4, 8 or 12 processes with one or two evenly cut layouts and look only at the grid after forward plus backward; "
prop("C01", "3d forward FFT returns the exact DFT in the requested output layout",
     "For every 3d grid the library accepts, every number of ranks and every pair of tilings of that grid (including uneven and empty tiles and permuted output storage), a forward transform leaves on each rank exactly the values of the discrete Fourier transform (sign -1, unscaled) that belong to its output tile, in the documented storage order, within floating-point rounding. This holds for every data content, precision and supported 1d FFT library, whatever settings are chosen, in place or out of place.",
     ["inputs", "configurations", "schedules"], "all accepted 3d grid sizes, rank counts, input/output tilings, permutations, settings, data contents, precisions and 1d FFT back ends",
     T + "a forward result is only compared for one tiny grid, so a wrong pencil, a wrong permutation or a wrong spectrum that the backward transform undoes stays unseen.",
     ["src/fft3d.cpp", "src/remap3d.cpp", "src/pack3d.h", "src/kissfft.h", "src/ffttype.h"],
     [("chain of remaps and 1d FFTs", "src/fft3d.cpp FFT3d::compute, perform_ffts"), ("choice of pencils and remap plans", "src/fft3d.cpp FFT3d::setup, remap_forward_create"), ("1d transforms", "src/kissfft.h kiss_fft*, src/fft3d.cpp setup_ffts")],
     "oracle monitor (long-double DFT) on sanitized real code over simulated MPI", "Held on the generated jobs only; the simulated MPI and the direct-definition DFT are trusted.")
prop("C02", "2d forward FFT returns the exact DFT in the requested output layout",
     "For every 2d grid the library accepts, every number of ranks and every pair of tilings of that grid (including uneven and empty tiles and permuted output storage), a forward transform leaves on each rank exactly the values of the discrete Fourier transform (sign -1, unscaled) that belong to its output tile, in the documented storage order, within floating-point rounding. This holds for every data content, precision and supported 1d FFT library, whatever settings are chosen, in place or out of place.",
     ["inputs", "configurations", "schedules"], "all accepted 2d grid sizes, rank counts, input/output tilings, permutations, settings, data contents, precisions and 1d FFT back ends",
     T + "the 2d drivers ask for a permutation that 2d FFTs do not have, so permuted 2d output is not tested at all.",
     ["src/fft2d.cpp", "src/remap2d.cpp", "src/pack2d.h", "src/kissfft.h", "src/ffttype.h"],
     [("chain of remaps and 1d FFTs", "src/fft2d.cpp FFT2d::compute, perform_ffts"), ("choice of pencils and remap plans", "src/fft2d.cpp FFT2d::setup, remap_forward_create"), ("1d transforms", "src/kissfft.h, src/fft2d.cpp setup_ffts")],
     "oracle monitor (long-double DFT) on sanitized real code over simulated MPI", "Held on the generated jobs only; the simulated MPI and the direct-definition DFT are trusted.")
prop("C03", "Backward FFT inverts forward FFT; 1/N scaling applied exactly when requested",
     "A backward transform takes data in the output layout and returns the inverse transform in the input layout, multiplied by one over the number of grid points exactly when scaling is on, so that forward followed by scaled backward (and backward followed by forward) reproduces the data. Forward transforms are never scaled, and toggling the scale setting between transforms affects only the transforms that follow, on every rank and for every value it owns.",
     ["inputs", "configurations", "histories"], "all 2d and 3d grids, rank counts, tilings, permutations, settings, data contents, sequences of scale on/off",
     T + "the backward result is never compared on its own, with scaling off, or on layouts where a rank owns more values on one side than on the other.",
     ["src/fft3d.cpp", "src/fft2d.cpp"], [("backward chain and scaling", "src/fft3d.cpp and src/fft2d.cpp compute, scale_ffts"), ("reverse remap plans", "src/fft3d.cpp remap_backward_create, src/fft2d.cpp remap_backward_create")],
     "oracle monitor (long-double inverse DFT, round trip) on sanitized real code over simulated MPI", "Held on the generated jobs only; simulated MPI and reference DFT are trusted.")
prop("C04", "Out-of-place transforms equal in-place ones and leave the input untouched",
     "Every transform or remap operation that may be given different input and output arrays delivers in the output array what the in-place form delivers, reads no more of the input array than the rank's own input values, and leaves every byte of the input array unchanged.",
     ["inputs", "configurations"], "all operations, directions, tilings, permutations and settings, with the input array exactly as large as the rank's own data",
     "Every test driver transforms in place; the out-of-place path is never executed.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp"], [("copy of input and choice of destination per remap", "src/fft3d.cpp and src/fft2d.cpp compute, only_remaps, only_one_remap")],
     "differential monitor in-place vs out-of-place, input checksum, exact-size arrays under ASan", "Held on the generated jobs only.")
prop("C05", "Algorithm settings never change results",
     "The collective, exchange, pack and buffer-ownership settings change performance only: for the same problem and data every combination of settings delivers the correct transform (and the same data for remap-only use) on every rank.",
     ["configurations", "inputs"], "for each generated problem all 18 combinations of collective, exchange and pack, with either owner of the buffers, in both directions",
     "The tests visit the combinations on one grid and one even layout, forward plus backward only.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/pack3d.h", "src/pack2d.h"],
     [("point-to-point, all-to-all and combined exchange", "src/remap3d.cpp and src/remap2d.cpp remap, setup"), ("pack/unpack kernels", "src/pack3d.h, src/pack2d.h"), ("pencil and brick exchange", "src/fft3d.cpp setup")],
     "exhaustive settings sweep per generated problem against the reference DFT", "All 18 setting combinations per problem; problems are sampled.")
prop("C06", "Remap delivers every datum exactly once to its owner, bit for bit",
     "A stand-alone remap from any tiling of a 2d or 3d grid to any other, with any number of values per grid point and any permitted permutation, puts exactly the source value of each grid point and component at its documented position on the rank that owns it in the new tiling: nothing is lost, duplicated, altered or written anywhere else, and repeating the remap works equally well. This holds for every setting, buffer owner and for in-place and out-of-place use (where the input stays unchanged).",
     ["inputs", "configurations", "schedules"], "all grids (of any size), tilings, permutations, numbers of values per point, settings, buffer ownership",
     "No test uses the remap interface directly; through the FFTs only two values per point and equal blocks occur.",
     ["src/remap3d.cpp", "src/remap2d.cpp", "src/pack3d.h", "src/pack2d.h"],
     [("overlap computation and message lists", "src/remap3d.cpp and src/remap2d.cpp setup, collide"), ("pack/unpack with permutation", "src/pack3d.h, src/pack2d.h"), ("all-to-all groups", "src/remap3d.cpp and src/remap2d.cpp setup, setup_collective")],
     "conservation monitor: uniquely tagged grid values, exact position check, sanitized", "Held on the generated jobs only.")
prop("C07", "Remap-only operations move data unchanged and compose to the full remap",
     "With remap-only on, a transform, and likewise the remap-only call, delivers the untransformed and unscaled input values in the other layout; performing the individual remap steps in order delivers the same, each step leaving complete grid lines of its direction on the ranks with every line held exactly once. The 1d-FFT-only call performs just the 1d transforms on the data in place.",
     ["inputs", "configurations"], "all grids, tilings, permutations, settings, directions, in place and out of place",
     "The drivers time these operations (-t) but never look at their results.",
     ["src/fft3d.cpp", "src/fft2d.cpp"], [("remap-only paths", "src/fft3d.cpp and src/fft2d.cpp compute (remaponly), only_remaps, only_one_remap, only_1d_ffts, remap()")],
     "conservation monitor on uniquely tagged values after every remap step", "Held on the generated jobs only.")
prop("C08", "No memory error with buffers of exactly the documented sizes",
     "With caller arrays of exactly the documented or reported sizes, no operation reads or writes outside the arrays it was given, reads uninitialised memory, uses freed memory, or commits undefined behaviour such as integer overflow, and no MPI call is handed overlapping, undersized or still-busy buffers. This includes setting up grids with billions of points.",
     ["inputs", "configurations", "histories", "schedules"], "all operations, tilings, settings, interfaces and buffer ownerships, ranks with no data, grids whose total size exceeds 32-bit range",
     "Tests run uninstrumented, with library-owned buffers, on small even layouts: small overruns and uninitialised reads go unnoticed.",
     ["src/remap3d.cpp", "src/remap2d.cpp", "src/pack3d.h", "src/pack2d.h", "src/fft3d.cpp", "src/fft2d.cpp", "src/memory.cpp", "src/kissfft.h"],
     [("buffer sizes computed at setup", "src/remap3d.cpp, src/remap2d.cpp setup; src/fft3d.cpp, src/fft2d.cpp setup"), ("pack/unpack loops", "src/pack3d.h, src/pack2d.h")],
     "ASan+UBSan builds, NaN-poisoned exact-size buffers, canaries, valgrind, MPI usage monitor", "Red-zone tools miss far out-of-bounds accesses inside other live blocks; FFTW itself is not instrumented.",
     ["sanitizer reports", "guard words around caller arrays", "buffer arguments of every MPI call"])
prop("C09", "Nothing is left behind: resources balance over every object life cycle",
     "Creating, configuring, using and destroying FFT and remap objects, in any number and at any stage of their life cycle (also when never set up), releases every communicator, group, request, datatype and heap block the library acquired, leaves no message undelivered, and never releases memory the caller owns.",
     ["histories", "configurations"], "life cycles cut off at any stage, all settings and interfaces, with and without tuning, repeated",
     "Each test process creates one object and exits; leaks and unbalanced resources vanish with the process.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/memory.cpp", "src/fft3d_wrap.cpp", "src/remap3d_wrap.cpp"],
     [("destructors and deallocation", "src/fft3d.cpp, src/fft2d.cpp ~FFT, deallocate_*; src/remap3d.cpp, src/remap2d.cpp ~Remap"), ("communicator creation and release", "src/remap3d.cpp, src/remap2d.cpp setup")],
     "resource-balance monitor on all MPI objects plus heap-growth monitor over repeated life cycles", "Heap growth is decided over four repetitions; one-time caches are tolerated.",
     ["every MPI object creation and release", "heap blocks live after each life cycle"])
prop("C10", "Results and termination do not depend on timing or message buffering",
     "Every operation finishes on all ranks under every interleaving of the ranks, every legal message delivery delay, every completion order of pending messages and whether or not the MPI library buffers sends; the result bits are the same in all of them. No deadlock, mismatched collective, mixed-up messages between consecutive operations or use of a buffer still owned by the MPI library can occur.",
     ["schedules", "inputs", "configurations"], "all interleavings, delivery delays, completion orders, eager and rendezvous sends, for sequences of operations on one object",
     "Tests see the one timing the shared-memory transport happens to produce, with small messages always buffered.",
     ["src/remap3d.cpp", "src/remap2d.cpp", "src/fft3d.cpp", "src/fft2d.cpp"],
     [("receive posting, sends and completion loop", "src/remap3d.cpp and src/remap2d.cpp remap"), ("all-to-all groups and their communicators", "src/remap3d.cpp and src/remap2d.cpp setup, setup_collective")],
     "controlled scheduler over simulated MPI: same job under many interleavings, deadlock and usage monitors, result hashes", "Interleavings are sampled (several policies per job), not enumerated.",
     ["every MPI call of every rank", "result bits"])
prop("C11", "Objects and communicators are isolated from each other",
     "Several FFT objects alive at once, on the same communicator or on different sub-communicators with any rank order, give the same correct results as each would alone, however their operations are interleaved and in whatever order they are destroyed. The library communicates only among the ranks of the communicator it was given and leaves that communicator usable.",
     ["histories", "schedules", "configurations"], "2 to 3 objects per communicator with different grids, settings and interfaces, interleaved operations, disjoint and reordered sub-communicators",
     "Every test program has a single object on the world communicator.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/error.cpp", "src/memory.cpp"],
     [("per-object state and communicator use", "src/fft3d.cpp, src/fft2d.cpp constructors and setup; src/remap3d.cpp, src/remap2d.cpp setup")],
     "multi-object workloads over simulated MPI with result, traffic and usage monitors", "Ranks are threads of one process in the harness; the library's mutable static data is gathered into a section of which every simulated rank has its own copy.",
     ["results of every object", "traffic per communicator"])
prop("C12", "Tuning agrees on all ranks, reports truthful statistics, and sets up correctly",
     "Tuning ends with identical settings on all ranks, whatever the ranks' clocks say, performs the documented trials within the requested number of iterations, selects the fastest of the settings it tried and reports those trials, settings and times consistently. Afterwards the object behaves exactly like one set up with the selected settings, tighter time limits never lead to more trial work than looser ones, and the trials planned never exceed what the limit allows at the speed of the first run.",
     ["inputs", "configurations", "schedules", "histories"], "all problems, tuning directions, iteration counts, time limits, clock behaviours (skewed, coarse, stalled, per-rank different)",
     "Tests tune on one grid with the real clock and do not look at the statistics; disagreement needs ranks whose timings differ.",
     ["src/fft3d.cpp", "src/fft2d.cpp"], [("trial loop, time limit, selection", "src/fft3d.cpp and src/fft2d.cpp tune, perform_trial/compute timing helpers")],
     "trace monitor on tuning statistics under simulated hostile clocks, then result oracle", "Clock behaviours are simulated through MPI_Wtime.",
     ["tuning statistics on every rank", "settings after tuning", "results afterwards"])
prop("C13", "Invalid requests stop all ranks with an error message, never silently",
     "Every documented misuse (wrong precision, dimension below 2, unsupported prime factor, input tile bounds outside the grid, input tiles that do not cover the grid, operations before setup or before memory is provided, setting up twice, invalid tuning arguments) and every failed allocation during the setup of an FFT or remap makes the job end on all ranks with an error message and a failure status. No rank hangs, crashes, computes or returns as if the request had been valid, even when only one rank's tile is wrong or only one rank's allocation fails.",
     ["inputs", "fault_sequences", "configurations"], "22 kinds of misuse with generated arguments, on any one rank, under all schedules, plus injected allocation failures at any point of setup",
     "No test makes an invalid request or fails an allocation.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp", "src/error.cpp", "src/memory.cpp"],
     [("argument checks agreed by reduction", "src/fft3d.cpp and src/fft2d.cpp setup, compute, setup_memory, tune"), ("collective and single-rank error exits", "src/error.cpp Error::all, Error::one")],
     "fault-injection workloads with a monitor on how every rank ends", "Faults are sampled per scenario; overlapping tiles with the right total count are outside what the library checks.",
     ["how every rank ends (status, message)"])
prop("C14", "C and Fortran interfaces behave exactly like the C++ interface",
     "For the same call sequence the C and the Fortran interface give bit-identical results, the same sizes, settings, decompositions, strings, memory usage and tuning statistics as the C++ interface, for FFTs and remaps in 2d and 3d.",
     ["inputs", "histories", "configurations"], "generated call sequences over all interface functions, both precisions",
     "Each interface is tested by its own driver on a fixed sequence; accessors, user memory and remaps through the C and Fortran interfaces are not compared.",
     ["src/fft3d_wrap.cpp", "src/fft2d_wrap.cpp", "src/remap3d_wrap.cpp", "src/remap2d_wrap.cpp", "src/fft3d_wrap.f90", "src/fft2d_wrap.f90", "src/remap3d_wrap.f90", "src/remap2d_wrap.f90"],
     [("argument forwarding and index translation", "src/*_wrap.cpp"), ("Fortran bindings", "src/*_wrap.f90")],
     "differential monitor: identical jobs through C++, C and Fortran, all outputs compared", "The Python interface is covered by C17.",
     ["results and every value returned by an interface function"])
prop("C15", "Results depend only on the current call, not on the object's history",
     "Whatever sequence of transforms, remaps, repeated and interleaved operations an object has performed, the next operation gives the same bits as on a fresh object. Changing a setting that is fixed at setup has no effect on later operations.",
     ["histories", "inputs"], "generated histories of up to seventy operations of all kinds with late setting changes in between, on FFT and remap objects",
     "The drivers repeat one operation; histories mixing kinds, directions, arrays and late setting changes never occur.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp"],
     [("state kept between calls", "src/fft3d.cpp and src/fft2d.cpp compute, only_*; src/remap3d.cpp and src/remap2d.cpp remap"), ("settings latched at setup", "src/fft3d.cpp, src/fft2d.cpp setup; src/remap3d.cpp, src/remap2d.cpp setup")],
     "history monitor: probe operation repeated after random histories, results vs reference", "Histories are sampled.",
     ["result bits of a probe operation before and after a history"])
prop("C16", "Reported sizes, settings, decompositions and memory usage are truthful",
     "The sizes reported by setup are non-negative, large enough for every operation on the object and independent of who owns the buffers; the reported settings and processor decompositions are those in use, each decomposition covering all ranks exactly once; reported memory usage accounts exactly for the library-owned buffers, includes the communication tables of every remap in use (up to one entry each) and never exceeds what the library holds. This holds up to grids with billions of points.",
     ["inputs", "configurations"], "all problems, settings, buffer owners, interfaces, and setup on grids beyond 32-bit total size",
     "Tests ignore the reported buffer sizes (the library owns the buffers) and never check a getter.",
     ["src/fft3d.cpp", "src/fft2d.cpp", "src/remap3d.cpp", "src/remap2d.cpp"],
     [("size computation", "src/fft3d.cpp and src/fft2d.cpp setup; src/remap3d.cpp and src/remap2d.cpp setup"), ("memory accounting", "memusage in all classes"), ("processor factorisation", "src/fft3d.cpp procfactors, bestfactors")],
     "consistency monitor on reported values plus exact-size buffers under ASan", "Held on the generated jobs only.",
     ["values returned by setup and getters"])
prop("C17", "The Python interface hands every call and value through unaltered",
     "Every method of the Python FFT and remap classes, in both precisions, reaches the library function of the same name with exactly the caller's communicator, object, numbers, keywords and arrays, and returns exactly what that function returned, so that a transform, remap, tuning run or query made from Python has the same effect and result as from C. Data that is not a Numpy array is refused instead of being misread, and each object is destroyed exactly once.",
     ["inputs", "histories", "configurations"], "generated sequences of method calls with arbitrary arguments on all four classes, both precisions, both ways of ending an object",
     "The tests never load the Python interface; its argument lists, return values and array conversions are unchecked by any compiler.",
     ["src/fftmpi.py"],
     [("argument and result types of each library function", "src/fftmpi.py __init__ of the four classes"), ("conversion of arrays and results", "src/fftmpi.py methods of the four classes")],
     "boundary monitor: callbacks with the C signatures record every crossing; real mpirun jobs against a direct DFT", "The Python 2 source runs after a lexical translation of print and raise statements, with a stand-in for mpi4py.",
     ["arguments arriving at and values returned by every library function", "results of real jobs"])

prop("C18", "Data travels as the settings say, once, and only to ranks that need it",
     "Every remap, stand-alone or inside a transform, sends from each rank to each other rank exactly the values that the second owns after it, each once, in at most one message, and nothing to ranks that need nothing; values that stay on a rank are not sent as messages. The point setting uses messages only, the all setting all-to-all operations only, among ranks connected by data to exchange, and the combo setting messages to and from the caller's layouts and bricks and all-to-all operations between pencils. Left alone, an FFT uses combo and the pencil exchange, a stand-alone remap all-to-all operations. The pencil exchange moves data at most once between two stages and the brick exchange at most twice; operations call no other communication.",
     ["inputs", "configurations"], "all grids, tilings, permutations, numbers of values per point, settings, directions and operations",
     "The results are the same however the data travels, so no test of results can notice extra traffic or the wrong kind of communication.",
     ["src/remap3d.cpp", "src/remap2d.cpp", "src/fft3d.cpp", "src/fft2d.cpp"],
     [("message lists and all-to-all groups", "src/remap3d.cpp and src/remap2d.cpp setup, collide"), ("kind of communication per remap", "src/fft3d.cpp and src/fft2d.cpp setup, remap_forward_create, remap_backward_create")],
     "trace monitor: bytes handed to MPI per pair of ranks, operation and kind against the overlap of the layouts", "With brick exchange the intermediate layout is not observable and the amount is only bounded.",
     ["every MPI call of every rank during an operation"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k not in ("technique", "note")}) + "\n")
m = dict(version=1, setup_cmd="python3 check.py --setup",
         checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
                      technique=p["technique"], level="exploration", level_note=p["note"]) for p in P],
         not_applicable=[], notes="No hooks in /repo: the monitors sit behind the MPI interface, the allocator and the public API. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
