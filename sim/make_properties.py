import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state:a["state"]=[{"name":x.strip(),"where":files[0]} for x in state.split(",")]
    if observe:a["observe_at"]=[x.strip() for x in observe.split(",")]
    if hook:a["hook_needed"]=hook
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Results never depend on earlier calls",
"Every public C++ calculation (range, stopping power from range, energy out, all straggling values, angular variance, magnification, non-reaction rate, single-layer and multi-layer calculate) returns exactly the same numbers, whatever calls were made before it, by whichever clients, with whichever projectiles, materials and configurations. The reference for a call is the same call made first in a fresh process with the same default configuration. An explicit configuration argument makes the result independent of the default configuration.",
["histories","inputs"],
"All call histories (any length, any interleaving of several clients, any number of evictions, resets and default-configuration changes in between), over argument sets that differ from each other in only one field, by a little.",
"A unit test makes a handful of calls with clearly different arguments. Stale or mixed-up stored data needs two nearly equal argument sets, a particular order, and often an eviction or a wrap-around of the 60-entry store in between; the space of histories is unbounded.",
["src/storage.cpp","src/catima.cpp","src/structures.cpp","src/reactions.cpp","include/catima/storage.h"],
"Range, range straggling and angular variance tables are kept in a global ring of 60 entries, looked up by comparing projectile, material and configuration; every calculation reads its tables from there.",
state="global result store, its write position, default configuration",
observe="return values of the public functions",
hook="compile-time table and store sizes")

p("C02","Default configuration changes take effect at once",
"A calculation called without a configuration argument gives exactly the result of the same calculation called with an explicit copy of the default configuration as it is at that moment. This holds right after any change of any field of the default configuration, also when changed back to an earlier value. It holds for the layer-stack and simplified calls too.",
["histories","configurations"],
"All sequences of default-configuration edits (each field, also back and forth) interleaved with calls that use the default and calls that use explicit configurations.",
"Tests run with one default configuration or set it once. A call path that captures the default early, drops the argument on an inner call, or compares only part of it shows only for particular edit and call orders.",
["src/catima.cpp","src/reactions.cpp","include/catima/catima.h","include/catima/config.h","src/storage.cpp"],
"The default argument of each function refers to a mutable global configuration; inner calls must pass the configuration on, and the store must tell configurations apart.",
state="default configuration, global result store",observe="return values")

p("C03","C functions depend only on their arguments and the current options",
"Each function of the C interface returns exactly what the corresponding C++ calculation gives for these arguments with the current default configuration, except that the effective-charge option is the one set in catima_defaults and the default angular scattering model is used. The result does not depend on which C or C++ functions were called before. The energy argument and the density rule (tabulated density if none is given) are respected on every call.",
["histories","configurations","inputs"],
"All interleavings of C and C++ calls, changes of catima_defaults and changes of the C++ default configuration.",
"The C test program makes two calls in a fresh process. Options that one function sets and another one forgets only show when the calls come in a particular order.",
["src/cwrapper.cpp","include/catima/cwrapper.h"],
"The C functions communicate their options to the C++ library by writing into the shared default configuration before each call.",
state="catima_defaults, C++ default configuration, global result store",observe="return values of the C functions")

p("C04","A failed allocation leaves no trace",
"If memory cannot be allocated at any point inside a calculation, the call either reports the failure by an exception or returns the right result; the process never terminates. Afterwards every calculation, including the failed one when it is repeated, returns exactly the result it gives in a fresh process. Repeated failures lose no memory.",
["fault_sequences","histories"],
"Every allocation of every operation failing, singly, repeatedly or from then on, at every position of a call history, including while an old entry is being replaced.",
"Allocation failures do not happen in tests, and half-updated stored data is only noticed by a later, different call.",
["src/storage.cpp","src/catima.cpp","src/structures.cpp","include/catima/storage.h"],
"A new entry of the result store is calculated and then moved over the oldest one; lookup keys hold vectors, so copying a key allocates.",
state="global result store and its write position",observe="return values, exceptions, allocation accounting")

p("C05","The result store holds exactly the latest 60 combinations",
"The result store always holds the most recently first-used distinct combinations of projectile, material and configuration, at most 60 of them, each exactly once. Asking again for a stored combination neither recalculates nor moves nor displaces anything; a new combination displaces exactly the oldest one. Resetting the store empties it and it then fills up again as a new one; separate store objects do not influence each other.",
["histories"],
"All sequences of store operations through the calculation functions and the store interface, many times around the ring, with resets at any position.",
"The unit test fills the ring once in order. Wrong wrap-around, duplicate entries, evicting the wrong entry or skipping a slot after a reset need particular positions and repeated laps.",
["src/storage.cpp","include/catima/storage.h"],
"Ring of 60 slots with a write position that wraps lazily; look-up by linear search.",
state="global result store and its write position",observe="store interface: Get, Get(i), GetN, get_index")

p("C06","Cache-free calculations may run concurrently",
"Functions that do not use the result store (stopping power, energy-loss and angular straggling per length, effective charge, time of flight tables, table calculation, radiation length, reaction cross sections, material, element and isotope look-up) give, when called from several threads at the same time, exactly the results they give when called one after the other.",
["schedules"],
"All interleavings of two to four threads at the granularity of single memory accesses, with equal and with different arguments.",
"Tests are single-threaded, and uncontrolled threads almost never preempt inside the few instructions where a shared scratch value would matter.",
["src/calculations.cpp","src/catima.cpp","src/srim.cpp","src/nucdata.cpp","src/material_database.cpp","src/abundance_database.cpp","src/reactions.cpp"],
"The functions share constant tables, global integrator objects and nothing else.",
state="global integrators and constant tables",observe="return values per thread")

p("C07","Stored results can be read concurrently",
"Once a combination of projectile, material and configuration has been calculated, any calculations that only need stored combinations can run in several threads at the same time, and each returns exactly its single-threaded result. They leave the store unchanged.",
["schedules","histories"],
"All interleavings of two to four reading threads at the granularity of single memory accesses, over any set of stored combinations, including a full store.",
"Tests are single-threaded; a hidden write on the look-up path (a hint, a counter, a shared scratch buffer) corrupts results only under particular preemptions.",
["src/storage.cpp","src/catima.cpp","include/catima/spline.h","include/catima/storage.h","src/reactions.cpp"],
"A look-up hit is a linear search and a read of immutable spline coefficients.",
state="global result store",observe="return values per thread, store contents")

p("C08","Returned data are snapshots and arguments are never modified",
"Results, copied table entries and copied interpolators keep their values for ever, whatever happens to the store later: evictions, resets, other calculations. A reference to a stored entry stays valid and unchanged until that entry is displaced or the store is reset. No C++ calculation modifies the projectile, material, layers, configuration or energy list passed to it, or the default configuration.",
["histories"],
"All histories of taking copies and references, further calculations, evictions and resets, and reading the copies at any later time.",
"The object must be kept while its origin is overwritten, and the memory must have been reused; a test that reads the value right away cannot see it.",
["include/catima/storage.h","include/catima/spline.h","src/storage.cpp","src/catima.cpp","src/reactions.cpp"],
"Table entries hold vectors and splines; a spline must not refer to memory it does not own.",
state="global result store, splines of copied entries",observe="values read from copies, argument objects after the call")

p("C09","Material and Layers are values, also when memory runs out",
"Materials and layer stacks behave as independent values: copying, assigning, adding elements or layers (also a stack to itself), and concatenating give the expected sequence and leave the sources unchanged. Adding one element or one layer either happens completely or, if memory runs out, not at all; appending a whole stack may stop early but leaves a valid sequence that starts with all previous layers followed by the first of the new ones in order. Molar mass always corresponds to the elements present.",
["histories","fault_sequences"],
"All sequences of container operations over a pool of materials and stacks with aliasing, and every allocation in them failing.",
"Tests build two or three small objects without aliasing or allocation failures.",
["src/structures.cpp","include/catima/structures.h"],
"Vectors of elements and of materials next to derived totals that must be updated together.",
state="element list, molar mass, layer list",observe="public accessors")

p("C10","The calculator never prints results from a partly read configuration",
"If the configuration file cannot be opened or read completely, is cut off, or loses its end while being read, the command line calculator prints no calculated values; interrupted and short reads do not change its output at all. The values printed for each energy of a list are those printed when that energy is the only one, in a fresh run.",
["fault_sequences","inputs","histories"],
"Open, read and seek failures, short reads, interruptions and early end of file at every call position, truncation at every length, over generated configurations with several layers and energies.",
"There is no test of the calculator, and I/O failures at a given call cannot be produced by ordinary inputs.",
["bin/catima_calculator.cpp"],
"The file size is determined by seeking, then the whole file is read into a buffer and parsed.",
state="file buffer, layer list, energy list",observe="standard output")

p("C11","File writers never report success for an incomplete file",
"The MOCADI export and the coefficient table generator report success (return true, or exit status 0) only if the complete file content was accepted by the system; interrupted and short writes change neither the content nor the reported success. A file that cannot be opened is reported as a failure.",
["fault_sequences"],
"Open, write and close failures (no space, I/O error), short writes and interruptions at every call and byte position, over generated layer stacks.",
"Disk-full and I/O errors do not occur in tests, and the writers are not tested at all.",
["include/catima/convert.h","utils/generator.cpp"],
"Buffered output streams that keep the error until they are asked for it.",
state="stream state",observe="return value or exit status, bytes accepted by the simulated disk")

p("C12","Integrators are re-entrant and pass exceptions through",
"Numerical integration gives exactly the same value whether the integrand calls any integrator itself, is interleaved with other integrations in other threads, or follows an integration aborted by an exception thrown by its integrand. An exception thrown by an integrand reaches the caller unchanged. The integrand is called for the same points in the same order each time.",
["schedules","fault_sequences","programs"],
"All nestings up to four levels of the Gauss-Legendre (1D and 2D) and Gauss-Kronrod integrators with preemption and throwing at every integrand call.",
"Tests integrate one plain function at a time.",
["include/catima/glq_integrator.h","include/catima/gkq_integrator.h","src/integrator.cpp"],
"Shared global integrator objects and static tables of points and weights.",
state="global integrators, point and weight tables",observe="integral values, sequence of integrand arguments, exceptions")

p("C13","Build options of the cache do not change results",
"Builds with stored or recreated splines, and with calculated or searched table index, give the same results for the same call history. Stored against recreated splines must agree exactly, calculated against searched index to within rounding at the table points.",
["configurations","histories"],
"The four combinations of the two build options, each driven through the same generated histories with evictions and resets.",
"The tests are run for one build configuration only.",
["include/catima/storage.h","src/storage.cpp","CMakeLists.txt","build_config.in"],
"Preprocessor alternatives for spline storage and for the table index.",
state="global result store",observe="return values in each build")

p("C14","Batch and layer calls equal the same calls made one by one",
"Calculating a stack of layers gives for each layer exactly the single-layer result for the energy leaving the previous layer, and the total energy loss, time of flight, final energy and survival follow from them; a list of energies gives for each energy the single-energy result. This holds also if the stack has more different materials than can be stored, and whatever is stored when the call starts.",
["histories","inputs"],
"Stacks of 1 to 150 layers and energy lists of up to 200 entries, started from any state of the store, so that entries are displaced in the middle of the call.",
"The tests use two or three layers in an empty store; displacement of entries in the middle of a call needs more than 60 different materials or a nearly full store.",
["src/catima.cpp","src/storage.cpp"],
"Each layer looks up its own entry in the ring while the results of earlier layers have been kept by value.",
state="global result store",observe="per-layer and total results, vector results")

p("C15","Results do not depend on leftover memory contents",
"Every calculation gives exactly the same numbers whatever the stack and heap memory it gets contained before, whatever errno and the floating point status flags were, and wherever its heap blocks happen to be placed. This covers the whole energy range including its end points.",
["fault_sequences","inputs"],
"Seeded contamination of fresh heap blocks, freed blocks and unused stack before every call, over all public calculations and energies at, just inside and outside the limits of the tables.",
"In a test process fresh memory is nearly always zero, so an uninitialised or out-of-range read gives the same plausible number every time.",
["include/catima/spline.h","include/catima/storage.h","src/catima.cpp","src/calculations.cpp","src/srim.cpp"],
"Spline solver work arrays, table index calculation, result structures.",
state="stack and heap contents",observe="return values under different contamination")

p("C16","Memory use stays bounded however many calls are made",
"The memory held by the library is bounded by the full result store: repeating any sequence of calls, including displacements, resets, layer stacks and failing calls, does not make it grow. Temporary memory of a call is released when the call returns or throws.",
["histories","fault_sequences"],
"Repeated call sequences of all public functions over more combinations than can be stored, with resets and allocation failures.",
"Tests end long before a leak is noticeable and do not account for memory.",
["src/storage.cpp","src/catima.cpp","include/catima/storage.h"],
"Displaced entries must give back their tables; temporary vectors must be released.",
state="heap owned by the library",observe="live heap bytes between calls")

p("C17","Threads with objects of their own never disturb each other",
"Threads of which each uses only result stores, materials and layer stacks that it made itself get exactly the results each of them gets when it runs alone. This covers filling, reading and resetting an own store object, adding elements to materials, building stacks, and reading tables and splines of the own store. The global result store is neither read nor changed by operations on own store objects.",
["schedules","histories"],
"All thread schedules at the level of single memory accesses, for all programs of two or more threads on objects that are not shared.",
"There is no test with threads, and with one thread hidden shared state (a static buffer, a remembered last entry) gives right results.",
["src/storage.cpp","src/structures.cpp","src/catima.cpp","include/catima/storage.h","include/catima/structures.h"],
"Store, material and stack objects hold all their state as members; nothing in their operations is shared between objects except constant tables.",
state="own store objects, global result store",observe="store interface, tables, splines, material and stack contents")

p("C20","One thread may use the shared state while others work without it",
"While at most one thread uses the global result store, the default configuration and the C interface, other threads may use cache-free functions with explicit configurations and result stores, materials and stacks of their own at the same time. Every thread then gets exactly the results it gets when it runs alone. The thread with the global state may do anything with it: fill it, displace entries, reset it, change the default configuration and the C options.",
["schedules","histories"],
"All thread schedules at the level of single memory accesses, for one thread with any calls and one or more others without the global state.",
"There is no test with threads; a value that is set globally for the time of one calculation is invisible with one thread.",
["src/storage.cpp","src/catima.cpp","src/calculations.cpp","src/cwrapper.cpp","src/reactions.cpp"],
"Only the store, the default configuration and the C options are shared; everything below takes its input from arguments.",
state="global result store, default configuration, C options",observe="return values in every thread, contents of the store")

p("C21","A call does not get slower with the number of earlier calls",
"A calculation for which all needed tables are stored does the same bounded amount of work, however many calls, displacements and resets were made before. A calculation for a combination that is not stored does the work of one table calculation per combination and layer, also when the store is full.",
["histories"],
"All sequences of calls, displacements and resets before a call, up to several thousand calls.",
"Tests do not measure work, and are too short for growth to be noticed.",
["src/storage.cpp","src/catima.cpp","include/catima/storage.h","src/reactions.cpp"],
"The store has a fixed number of slots which are searched once per look-up; results of a call are not kept.",
state="global result store and anything remembered besides it",observe="memory accesses and function calls of the library in one call")

p("C22","Running out of memory in one thread does not disturb other threads",
"When a call in one thread fails because memory runs out, calls that run at the same time in other threads still give exactly the results they give alone, under the conditions in which they may run at the same time at all. The failing call ends with std::bad_alloc or the right result. Repeated afterwards in its thread it gives the right result.",
["schedules","fault_sequences"],
"All thread schedules at the level of single memory accesses, together with every allocation of every thread failing.",
"There is no test with threads, nor one with failing allocations.",
["src/storage.cpp","src/catima.cpp","src/structures.cpp","include/catima/storage.h"],
"No call keeps a lock, or shared state that is changed half, when it is left by an exception.",
state="global result store, own objects, locks",observe="return values and exceptions in every thread")

p("C18","The MOCADI export depends only on what is exported",
"The MOCADI export of a beam and a layer stack writes exactly the same bytes, whatever was exported, calculated, or failed in the process before, whatever C and C++ locale is set, and whether or not another file of that name exists. Exporting changes neither the exported objects nor the result store, the default configuration or the locale.",
["histories","configurations","fault_sequences"],
"All sequences of exports (also failing ones), calculations, material look-ups, locale changes, changes of the exported objects and errno values, with file names used again.",
"There is no test of the export; programs with a graphical interface set a locale with decimal comma, test programs run in the C locale.",
["include/catima/convert.h"],
"Numbers are converted to text piece by piece; materials are looked up in the database.",
state="C locale, C++ locale, errno, existing file",observe="bytes of the written file, return value")

p("C19","Calls leave process-wide settings alone and do not depend on them",
"No calculation, look-up or C function changes settings that belong to the whole process: rounding mode and floating point control, C and C++ locale, state of the standard streams, umask, working directory, signal handling, environment variables, open files, the random generator, the C options. None of them prints anything. Results do not depend on any of these settings except the arithmetic ones (rounding mode), nor on the clock or the process id.",
["histories","configurations"],
"All sequences of calls of all public functions and changes of settings by the host program between them.",
"Tests look at returned values only and run with the settings of a fresh process.",
["src/catima.cpp","src/calculations.cpp","src/storage.cpp","src/cwrapper.cpp","src/reactions.cpp"],
"The functions are plain arithmetic on their arguments and on the result store.",
state="process-wide settings",observe="settings before and after every call, standard output, return values")

p("N01","Energy balance and range consistency of one layer",
"For one layer the energy loss equals the difference of the energies before and after it times the mass, and the range at the incoming energy exceeds the range at the outgoing energy by the layer thickness.",
["inputs"],"All projectiles, materials, thicknesses, energies and configurations.",
"The input space is continuous; tests check a few points.",["src/catima.cpp"],"Newton iteration on the range spline.",observe="fields of the result")
p("N02","Range grows with energy",
"For every projectile, material and configuration the range is strictly increasing in the energy over the tabulated interval.",
["inputs"],"All energies, projectiles, materials, configurations.","Continuous input space.",["src/catima.cpp","include/catima/spline.h"],"Integrated inverse stopping power, interpolated by a cubic spline.",observe="range")
p("N03","Results are finite and not negative over the documented domain",
"For valid projectiles, materials and energies all results are finite and not negative, and stopping inside a layer gives outgoing energy zero.",
["inputs"],"All valid inputs.","Continuous input space with many physics branches.",["src/calculations.cpp","src/catima.cpp","src/srim.cpp"],"Piecewise physics formulas.",observe="all results")
p("N04","Precalculated Lindhard coefficients match the exact calculation",
"The tabulated Lindhard-Soerensen corrections agree with the exact calculation within the accuracy of linear interpolation for all tabulated elements and energies.",
["inputs"],"All elements, mass numbers and energies of the table.","Tests compare a few points.",["src/calculations.cpp","include/catima/generated_LS_coeff.h","utils/generator.cpp"],"Generated tables, interpolated in energy and mass.",observe="precalculated and exact coefficients")
p("N05","Interpolated tables reproduce the integrated quantities",
"Range, range straggling and angular variance read from the stored splines agree with direct integration of their defining functions to the accuracy of the table.",
["inputs"],"All energies between the table points, all combinations.","Continuous input space.",["src/catima.cpp","include/catima/spline.h"],"600-point logarithmic tables with cubic splines.",observe="interpolated values")
p("N06","Material and isotope databases are internally consistent",
"Every database material has positive density and valid elements, weight fractions of a mixture sum to one, and isotope abundances of an element sum to one.",
["inputs"],"All database entries.","Tests check a few entries.",["src/material_database.cpp","src/abundance_database.cpp"],"Constant tables.",observe="database look-ups")
p("N07","The calculator interprets its input as documented",
"Energies given as number, list, string or interval with number of points or step, and materials given with or without density, are converted into the documented list of energies and layers, and the chosen configuration is used.",
["inputs"],"All configuration files.","There is no test of the calculator.",["bin/catima_calculator.cpp"],"JSON fields are converted into energies, layers and configuration.",observe="standard output")
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
