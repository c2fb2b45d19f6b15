"""Writes properties.jsonl (kept as code so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=hook)))

prop('C01', 'Results do not depend on threads or on how they are scheduled',
     'In a multi-threaded build, every result file of a run is byte for byte the one that the same build produces with a single thread, '
     'whatever number of threads is requested or actually granted and however their execution is interleaved. '
     'No run of a valid model crashes, hangs or fails because of the number of threads or their timing (a number of threads that the system cannot create at all may be refused with a diagnostic).',
     ['schedules', 'inputs', 'configurations'],
     'Every valid model, every team size (requested with -n, by environment, or cut down by the runtime), every split of the loops and every interleaving of the accesses to shared memory, in each media/field storage configuration.',
     'The tested build is compiled without OpenMP, so no existing test ever runs two threads; and a race that one schedule in a million exposes is not exposed by rerunning.',
     ['src/grid.c', 'src/mur.c', 'src/pml.c', 'src/planewave.c', 'src/vulture.c', 'src/waveform.c'],
     [('parallel loops with private scratch variables', 'src/grid.c updateGridEfield/updateGridHfield; src/pml.c; src/mur.c; src/planewave.c'),
      ('number of threads option', 'src/vulture.c parseOption, omp_set_num_threads')],
     ['impulse.dat, excite.dat, process.dat, eh_*_td.asc, eh_*_fd.asc, wf_*.asc', 'exit status'])

prop('C02', 'The solver exits with success only if every result file is complete',
     'If a result file cannot be created, or any part of it cannot be written, flushed or closed, the solver exits with a non-zero status and says on the standard error stream that output failed. '
     'Whenever it exits with status zero, every result file requested by the model and the options exists and is identical to that of an undisturbed run. '
     'A failure that touches only the log file never alters or removes a result.',
     ['fault_sequences', 'inputs', 'configurations'],
     'Every valid model and set of options; every file-creation, write, flush and close of every output file, failing once or from then on, with no space, quota, I/O error, or short writes; any capacity of the disk.',
     'The tests run on a disk that never fails: no test makes a single write fail, so the path from a failed write to the exit status is never taken.',
     ['src/observer.c', 'src/grid.c', 'src/message.c', 'src/vulture.c'],
     [('output files are checked when they are closed', 'src/message.c closeOutputFile and its callers'),
      ('failed opens are fatal', 'src/observer.c init*, src/grid.c writeLines/dumpMediaOnGrid')],
     ['exit status', 'stderr', 'all output files'])

prop('C03', 'A damaged or unreadable input is refused, never half used',
     'If the mesh file or a file it refers to is missing, cannot be read to the end of what the model needs, or stops before the data it announces is complete, the solver exits with a non-zero status and a diagnostic naming the problem, and does not start time stepping. '
     'It never simulates a model made from part of its input: a run that exits with status zero gives the results of the complete input.',
     ['fault_sequences', 'inputs'],
     'Every valid model with every combination of auxiliary files (external waveform, Debye parameters, surface pole-residue matrices); every input truncated at every position; a read error at every position and on every repeated pass, transient or permanent; an open that fails.',
     'The tests only read intact files (apart from two hand-made meshes); positions of truncation and of read errors are far too many for examples, and several readers used to accept them.',
     ['src/mesh.c', 'src/waveform.c', 'src/medium.c', 'src/filter.c', 'src/sibc.c'],
     [('section machine of the mesh reader', 'src/mesh.c readMesh, meshReadRealArray'), ('two-pass table reader', 'src/waveform.c loadExternalWaveform'),
      ('counted readers', 'src/medium.c readDebyeParameters; src/filter.c yfReadPoleResidueM')],
     ['exit status', 'stderr', 'vulture.log', 'result files'])

prop('C04', 'Running out of memory is an orderly, diagnosed failure',
     'If any request for memory is refused, at any point of a run, the program exits with a non-zero status after reporting the failure on the standard error stream; it never crashes, hangs or continues with wrong values. '
     'A run that exits with status zero has produced exactly the results of an undisturbed run.',
     ['fault_sequences', 'inputs'],
     'Every valid model and both programs; every single allocation refused once or from then on, and every cap on total memory.',
     'No test refuses an allocation: the checks after allocation, and the places where one is missing, are dead code to the tests.',
     ['src/alloc_array.c', 'src/medium.c', 'src/filter.c', 'src/planewave.c', 'src/observer.c', 'src/sibc.c', 'src/gmsh.c', 'uthash/uthash.h'],
     [('allocation helper reports and exits', 'src/alloc_array.c allocArray'), ('item allocation checks', 'src/*.c add*'), ('hash table allocation failure', 'src/message.h uthash_fatal')],
     ['exit status or signal', 'stderr', 'result files'])

prop('C05', 'A crash leaves only true prefixes of the results, and the log tells how far',
     'If the process dies at any point, every result file that had reached storage is empty or a prefix of the file the completed run would have produced (or, if the run had not yet reopened it, still the file of an earlier run): never other content. '
     'What the log reported before the crash is a prefix of the log of the completed run, and time stepping is never reported as completed before it is.',
     ['crash_points', 'inputs', 'histories'],
     'Every valid model and option set; a crash before, after or in the middle of any file operation and at any instruction in between; fresh directories and directories with results of earlier runs.',
     'No test kills a run; the states of a directory between two writes are never looked at.',
     ['src/observer.c', 'src/grid.c', 'src/message.c', 'src/simulation.c'],
     [('files are written once, front to back', 'src/observer.c'), ('log is flushed after each message', 'src/message.c message')],
     ['content of every file at the crash'])

prop('C06', 'The clock steers nothing but the progress report, which stays sane',
     'Result files, exit status and the number of steps performed are the same whatever the system clock shows: at any speed, when it jumps forward or backward, or stands still. '
     'Progress lines in the log appear only when at least ten seconds passed on the clock since the last estimate was made, never name a step outside the run, and with a steady clock and pace predict the true end within the rounding of the clock. '
     'The reported start, end and average time per iteration are those of the clock.',
     ['schedules', 'inputs', 'fault_sequences'],
     'Every valid model; every simulated speed of the machine from instantaneous to days per step, every sequence of clock jumps and rate changes.',
     'Tests finish within seconds of real time, so the estimator never even takes its first sample, and no test moves the clock.',
     ['src/timer.c', 'src/simulation.c'],
     [('sampling and filtering of the time per iteration', 'src/timer.c updateTimer'), ('summary', 'src/timer.c stopTimer')],
     ['vulture.log', 'result files'],
     [('timePerIteration, lastTime, estEndTime', 'running estimate', 'src/timer.c')])

prop('C07', 'Results are a function of the inputs alone',
     'Two runs of the same program on the same model and options give byte-identical result files and exit status, whatever memory held before, wherever objects are placed in memory, however the operating system splits reads and writes, and whatever else is in the environment. '
     'A run never writes outside the memory it allocated, never frees memory wrongly, and never lets a value it did not compute reach an output.',
     ['schedules', 'inputs', 'configurations'],
     'Every valid model and option set of both programs; any prior content of heap and stack, any placement and reuse of memory, any size of stdio buffers and of the pieces in which reads and writes are delivered, any time zone and date.',
     'A test sees one placement, one prior content of memory (mostly zero pages) and one read granularity; the very bugs at stake look correct under them.',
     ['src/grid.c', 'src/observer.c', 'src/planewave.c', 'src/pml.c', 'src/mur.c', 'src/sibc.c', 'src/debye.c', 'src/alloc_array.c', 'src/mesh.c', 'src/gmsh.c'],
     [('explicit initialisation of every array', 'src/grid.c initGridArrays, src/pml.c, src/mur.c, src/planewave.c, src/sibc.c, src/debye.c'),
      ('buffered readers and writers', 'stdio use in src/*.c')],
     ['all result files', 'exit status'])

prop('C08', 'The log is durable, ordered, and carries every diagnostic',
     'Each message of the solver or the renderer is in its log file before the run goes on, so that a crash at any later point loses no message and no message is written partly, twice or out of order. '
     'Whenever a program, having opened its log, ends on its own with an error, its last message is on the standard error stream and, unless the log itself cannot be written, also at the end of the log, and the exit status is not zero.',
     ['crash_points', 'fault_sequences', 'inputs'],
     'Every valid model and every fault in opening, reading, writing and allocating; every crash point; log files on failing or full disks.',
     'Tests read the log, if at all, after a successful exit, when anything unflushed has been flushed.',
     ['src/message.c', 'src/vulture.c', 'src/gvulture.c'],
     [('flush of log and standard error after each message', 'src/message.c message'), ('fatal messages exit', 'src/message.c message')],
     ['vulture.log, gvulture.log', 'stderr', 'exit status'])

prop('C09', 'Every output step is recorded once, in order, and all records agree',
     'At every moment of a run, including after a crash, each time-domain result holds exactly the records of the requested output steps performed so far up to a cut at its end: one per step, consecutive, with the right step number, time and positions, and none from outside the requested window of steps (records of sources and waveforms cover the whole run). '
     'The headers of a finished run announce exactly the records that follow, different files that record the same quantity agree on it, and frequency-domain results are the transforms of the recorded time series.',
     ['crash_points', 'histories', 'inputs'],
     'Every valid model with any set of observers, output windows, strides and frequencies; any crash point, any thread count, any splitting of writes.',
     'Tests compare a few time-domain files of finished runs within 1e-2 and never look at frequency-domain values, headers, strides, windows or partial files.',
     ['src/observer.c', 'src/simulation.c', 'src/waveform.c'],
     [('record writers and output window', 'src/observer.c updateObservers, updateObserverAsciiTime, updateImpulseDat, updateExciteDat'),
      ('running transform', 'src/observer.c updateObserverAsciiFreq, flushObserverDft'), ('headers', 'src/observer.c initImpulseDat, writeProcessDat')],
     ['eh_*_td.asc, eh_*_fd.asc, wf_*_td.asc, wf_*_fd.asc, impulse.dat, excite.dat, process.dat'])

prop('C10', 'The mesh renderer delivers a complete rendering or fails',
     'The rendering tool exits with status zero only if it read the whole mesh and every file of the requested rendering was written completely, identical to that of an undisturbed run. '
     'On any failure to open, read, write or close a file, or a truncated mesh, it exits with a non-zero status and a diagnostic.',
     ['fault_sequences', 'inputs', 'configurations'],
     'Every valid model, both output formats and all options; every open, read, write, flush and close failing, any truncation of the mesh, any disk capacity.',
     'The rendering tests check the exit status and, for some, the files on a disk that never fails.',
     ['src/gvulture.c', 'src/gnuplot.c', 'src/gmsh.c', 'src/block.c', 'src/line.c', 'src/surface.c', 'src/source.c', 'src/planewave.c', 'src/observer.c', 'src/grid.c', 'src/mesh.c'],
     [('output files are checked when they are closed', 'src/message.c closeOutputFile'), ('mesh reader', 'src/mesh.c readMesh')],
     ['exit status', 'stderr', 'gnuplot-*.dat, mesh.gnp, mesh.msh'])

prop('C11', 'Nothing is touched but the documented output files',
     'A run creates, truncates, writes, renames or removes only the files documented for its options, all in its current directory; it never modifies the mesh or an auxiliary input and never touches another file, whether it succeeds, fails or is cut short. '
     'Reading or checking a mesh only (read-only mode) produces no result files, and no temporary files are ever left behind.',
     ['fault_sequences', 'crash_points', 'inputs', 'configurations'],
     'Every valid model, every option of both programs, every fault and crash point, directories already holding any other files.',
     'Tests look at the files they expect, not at those they do not expect, and never after a failure.',
     ['src/vulture.c', 'src/gvulture.c', 'src/observer.c', 'src/grid.c', 'src/message.c', 'src/gnuplot.c', 'src/gmsh.c'],
     [('fixed output names in the current directory', 'fopen calls in src/*.c'), ('mode options', 'src/vulture.c main')],
     ['every file operation'])

prop('C12', 'Runs going on at the same time do not disturb one another',
     'Any number of solver and renderer processes running at the same time in different directories (or one solver and one renderer in the same directory), sharing mesh and auxiliary input files, each end as they would alone, with the same files and exit status, however their execution and file operations interleave and whichever of them fails or crashes.',
     ['schedules', 'fault_sequences', 'inputs'],
     'Every set of valid models and options, every interleaving of the processes at their file operations and in between, with and without faults in some of them.',
     'The tests do run in parallel, but only under the one interleaving the machine happens to choose, and none looks for interference.',
     ['src/vulture.c', 'src/gvulture.c', 'src/mesh.c', 'src/waveform.c', 'src/observer.c'],
     [('inputs opened read-only, outputs relative to the current directory', 'fopen calls in src/*.c')],
     ['all files of all processes', 'exit statuses'])

prop('C13', 'Every run ends, in bounded work, memory and open files',
     'Every run of a valid or damaged model, with or without faults, ends by itself within work that, for a given number of output frequencies, is proportional to the number of cells times the number of time steps plus the size of the inputs and outputs. '
     'Memory in use and open files do not grow with the number of time steps performed, and a normal end leaves no output file open.',
     ['fault_sequences', 'inputs', 'histories'],
     'Every valid model, every truncation of its inputs, every fault in opening, reading, writing, closing and allocating, transient or permanent; every number of time steps.',
     'A test that hangs is only seen for the inputs tried; growth per step is invisible in runs of a few hundred steps.',
     ['src/simulation.c', 'src/mesh.c', 'src/waveform.c', 'src/observer.c', 'src/planewave.c'],
     [('loop bounds', 'src/simulation.c propagate; src/mesh.c readMesh; src/waveform.c loadExternalWaveform; src/observer.c updateImpulseDat'),
      ('allocation only at initialisation', 'src/*.c init*')],
     ['instructions executed', 'bytes allocated', 'open files'])

prop('C14', 'Earlier runs in a directory never show in the results of a later one',
     'After any sequence of invocations in one directory - full, preprocessing, reading or rendering runs, of the same or different models, complete, failed or crashed - the files a successful run produces are exactly those it produces in a fresh directory. '
     'A rerun after a crash needs no clean-up.',
     ['histories', 'crash_points', 'fault_sequences'],
     'Every sequence of invocations of both programs with any models and options, each possibly ended by a fault or a crash at any point.',
     'Each test runs once in a directory that was just prepared, and the harness wipes the directory first.',
     ['src/observer.c', 'src/grid.c', 'src/message.c', 'src/gnuplot.c', 'src/gmsh.c', 'src/vulture.c'],
     [('output files are truncated when opened', 'fopen( ... , "w" ) in src/*.c')],
     ['all files of the directory'])

# ---- pure functions of the input: stated for breadth, not claimed (see MANIFEST not_applicable) ----
def phys(id, title, statement, files, why='The tests compare a handful of models with stored results within 1e-2.'):
    prop(id, title, statement, ['inputs', 'configurations'], 'Every valid model.', why, files, [('see files', ', '.join(files))], ['time-domain results'])
phys('P01', 'Fields obey the discrete Maxwell equations', 'In every source-free interior cell the recorded fields satisfy the leap-frog finite-difference Maxwell equations of the medium of that cell, to rounding.', ['src/grid.c', 'src/medium.c', 'src/block.c'])
phys('P02', 'The scheme is stable and conserves energy', 'With an accepted Courant number, no model grows without bound, and in a lossless closed model the discrete energy is constant once sources are off.', ['src/grid.c', 'src/simulation.c'])
phys('P03', 'Perfect conductors and walls impose their boundary conditions', 'Tangential electric (magnetic) fields vanish on perfect electric (magnetic) conductors and walls; periodic walls identify opposite faces.', ['src/surface.c', 'src/grid.c', 'src/block.c', 'src/line.c'])
phys('P04', 'Absorbing boundaries absorb', 'Waves leaving through PML or Mur boundaries are reflected by no more than the order of the method.', ['src/pml.c', 'src/mur.c'])
phys('P05', 'Dispersive media and impedance surfaces follow their models', 'Debye media and surface impedance boundaries reproduce the response of their pole-residue models.', ['src/debye.c', 'src/sibc.c', 'src/filter.c', 'src/medium.c'])
phys('P06', 'Plane waves stay inside the total-field region', 'A plane wave source produces the specified incident field inside its box and, in an empty mesh, no field outside it beyond the documented dispersion error.', ['src/planewave.c'])
phys('P07', 'Results are linear in the sources and symmetric in the axes', 'Fields of a model with several sources are the sum of those of each; relabelling the axes of a model relabels its results.', ['src/source.c', 'src/grid.c'])
phys('P08', 'Waveforms follow their documented formulas', 'Every waveform type has the documented shape, size, delay and width; an external waveform passes through its data.', ['src/waveform.c'])
phys('P09', 'The mesh language means what the manual says', 'Cards, defaults, comments, sections, multiplicities and limits are accepted, refused and interpreted as documented.', ['src/mesh.c', 'src/block.c', 'src/boundary.c', 'src/source.c', 'src/observer.c'])
phys('P10', 'Storage configurations give the same answer', 'Builds with indexed, averaged or scaled storage agree with the default build within rounding where they model the same thing.', ['src/grid.c', 'src/grid.h', 'src/medium.h'])
phys('P11', 'A rendering shows the model', 'The rendered files contain exactly the entities of the mesh at their positions.', ['src/gnuplot.c', 'src/gmsh.c', 'src/gvulture.c'])
phys('P12', 'Command line options do what the usage text says', 'Each option has its documented effect, in any order.', ['src/vulture.c', 'src/gvulture.c'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
