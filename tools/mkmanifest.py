"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import importlib
T = 'deterministic simulation with fault injection: '
COMMON = ('Seeded search, not exhaustive: what was explored is in the evidence file. The programs are compiled from the working tree; files, stdio buffering, heap, clock, environment '
          'and (in threaded builds) the OpenMP run time are the simulator\'s. Trusts gcc, libm and the simulator. ')
C = {
 'C01': ('seeded thread schedules over a simulated OpenMP run time, compared with one thread', 'Pre-emption happens at instrumented memory accesses (compiled as for a race detector), so interleavings inside library calls are not explored; the machine is sequentially consistent.'),
 'C02': ('injected failures of output operations, compared with the undisturbed run', 'Every file operation of most models is hit; errors of the disk are reported when an operation is called (or, for deferred errors, at close).'),
 'C03': ('injected read and open failures and cut or damaged inputs, against the complete input', 'A cut is judged only where what remains is not itself a complete input, as decided by a small model of each format.'),
 'C04': ('injected allocation failures and memory caps, against the undisturbed run', 'Allocations inside the C library itself are not refused.'),
 'C05': ('simulated crashes with only written data surviving, against the completed run', 'Data handed to the operating system survives (process crash, not power loss): the programs never sync.'),
 'C06': ('simulated clock with arbitrary pace, jumps and rate changes; a reference model of the progress report', 'The clock is read to the second, as by the programs.'),
 'C07': ('seeded contents and placement of memory, I/O granularity and environment, compared between runs', 'Also runs under address and undefined-behaviour checks of the simulator\'s own heap (red zones, canaries); wild accesses that land in other live blocks show only through results.'),
 'C08': ('simulated crashes and failures at every instruction, against the record of when each log byte was issued', 'Applies once the log file has been opened; earlier messages go to the standard streams only.'),
 'C09': ('simulated crashes, schedules and file-system behaviour over a reference model of the records', 'Values are compared between files of the run and with a second run; their physical meaning is not judged.'),
 'C10': ('injected failures and cut inputs of the renderer, compared with the undisturbed run', 'As C02 and C03.'),
 'C11': ('injected failures and crashes in directories full of other files, against the documented file names', 'File names are those documented for the options; all operations on files go through the simulator.'),
 'C12': ('seeded interleavings of several simulated processes on one file system, against each alone', 'Processes share only the file system, as in the programs.'),
 'C13': ('simulated faults and damaged inputs with instruction, memory and handle budgets; scaling over steps', 'Work is counted in control-flow edges; bounds are proportional with constants well above the current ones.'),
 'C14': ('simulated histories of invocations with crashes and faults in one directory, against fresh directories', 'Histories have at most 8 invocations.'),
}
NA = {p: 'A pure function of the model: no schedule, clock, fault, crash or other nondeterminism takes part in it, so simulating those would be input generation in disguise.' for p in
      ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12')}
checks = []
for p, (t, note) in sorted(C.items()):
    m = importlib.import_module('dst.checks.' + p.lower())
    checks.append(dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p, evidence_file='evidence/%s.json' % p,
                       technique=T + t, level=m.LEVEL, level_note=COMMON + note))
o = dict(version=1, setup_cmd='python3 -m dst.build vulture gvulture omp omp_idx omp_sca scaled indexed vult_zero vult_pat gvult_pat',
         hooks=dict(guard='none', enable='No hooks in /repo are needed: the checks compile /repo/src with the calls to the C library redirected to the simulator at link time.', source_commits=[]),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes='See DESIGN.md. VERIF_SEED, VERIF_CASES, VERIF_WALL and VERIF_WORKERS change the seed and the size of a run; python3 -m dst.replay FILE replays a violation.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(o, f, indent=1)
    f.write('\n')
