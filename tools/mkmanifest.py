"""Generates MANIFEST.json and known_findings.jsonl (one place to edit the texts)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = 'deterministic simulation with fault injection: '
TRUST = (' Evidence from seeded sampling, not proof. Trusted: the simulator core (vsim/core.py), CPython, numpy/scipy, and the oracle code named in DESIGN.md.')
checks = [
 ('C01', 'seeded flow-failure injection at every evaluation of a trace, bitwise prefix oracle and reference integrator',
  'Real tracer over generated flows; the failure is placed at sampled evaluation numbers (all of them for short traces). Accuracy is judged by an independent Dormand-Prince implementation and, where the estimator is trustworthy, by a high-accuracy solution.'),
 ('C02', 'seeded NaN/inf/stagnation/failure injection, progress within a bounded number of evaluations',
  'Liveness judged by an evaluation budget (and a CPU limit per simulated run); unbounded only in the limit of the budget, which is documented per flow class.'),
 ('C03', 'seeded interrupt at any line event, draw, evaluation, disk write or display of a run',
  'Interrupts are delivered between lines of oneka code and at seam calls, not inside C extensions.'),
 ('C04', 'seeded failure placement over the traces of a realization, union-of-solo-traces oracle', 'Raster reference is an independent exact-distance implementation with a tie band.'),
 ('C05', 'seeded operation histories with abandoned realizations against a sparse reference model', 'Checked after every operation; tie nodes (distance equal to the umbra up to rounding) may go either way.'),
 ('C06', 'seeded allocation failures at the n-th allocation of a growth, twin-history oracle', 'Allocation failures are injected at the numpy constructors called from oneka code.'),
 ('C07', 'seeded and extreme draws behind the random seam, independent reference model, fit and tracer', 'Whole stochastic runs; numerical tolerance band around capture-zone edges.'),
 ('C08', 'seeded entropy and clock, multi-run histories, statistical oracles at 1e-9', 'Statistical power is limited to deviations visible in the sampled number of variates (see DESIGN.md); false-alarm probability below 1e-6 per batch.'),
 ('C09', 'seeded histories, clocks, entropy and interleavings, bitwise twin-run oracle and reference model', 'Interleavings at line granularity of oneka code.'),
 ('C10', 'seeded interleavings of caller threads (baton scheduler, pre-emption at every line) and sequences, solo-run oracle', 'Results compared bitwise with the same computation run alone in a fresh process image.'),
 ('C11', 'seeded interleavings (line and opcode pre-emption) of readers of one model, solo-query oracle', 'Results compared bitwise; model state compared before and after.'),
 ('C12', 'seeded whole runs on a simulated disk with crashes from the moment of display', 'Crash keeps exactly what reached the OS; no loss of OS page cache is modelled (the code never syncs and does not claim to).'),
 ('C13', 'seeded disk faults (ENOSPC, EIO, short, torn, crash) during archiving and damage to stored bytes', 'Random damage; deliberate forgeries of a pickle are out of scope.'),
 ('C14', 'seeded clocks, failing and crashing attempts, restarts and concurrent writers over a simulated disk', 'All archives re-read after every operation.'),
 ('C15', 'seeded sequences of runs of the driver with crashes, interrupts, failures and log-device errors', 'Bytes on storage compared with what each run did; failure to open the log at all is out of scope.'),
 ('C16', 'seeded evaluation failures at map nodes, recount at the plot seam', 'The arrays handed to matplotlib are judged, not pixels.'),
 ('C17', 'seeded field histories and whole runs, recount at the log and plot seams', 'The arrays handed to matplotlib and the logged numbers are judged, not pixels.'),
 ('C22', 'seeded sessions of accepted and rejected runs behind the random, flow, disk, clock and display seams; effects counted, field compared with an independent process', 'The corrupted arguments are drawn from a catalogue per argument (see DESIGN.md).'),
 ('C24', 'seeded sessions of complete, interrupted and failing runs with seeded draws, independent filter and fit oracle', 'Observations so near the buffer or the metre that rounding decides are skipped; fewer than seven retained observations are out of scope.'),
 ('C25', 'seeded host processes making complete, rejected, failing, interrupted, starved and disk-faulted runs; process state and host handlers compared around each', 'Interrupts are delivered at seam calls and between lines of the oneka package, not between the statements of the driver script; settings compared are the listed ones.'),
 ('C26', 'seeded host sessions with drawing failures, interrupts and leftover figures; artists of every figure compared at the moment of display', 'Figures are judged by their artists, not by pixels.'),
 ('C27', 'seeded runs, crashes at the display, restarts, and operation histories on loaded fields against a twin that never left memory', 'Same version of the code and libraries on both sides.'),
 ('C29', 'seeded draws (extremes included), errors raised at seeded lines within flow evaluations, and query/refit histories; every answer judged as the run proceeds', 'Bounds follow from rounding: an absolute error below 4e-10 of the sum of the absolute terms.'),
 ('C28', 'seeded simulated wall and monotonic clocks set and advanced during whole runs', 'Time is simulated; it passes at flow evaluations, displays and clock reads.'),
]
PURE = ('A pure function of its input: no schedule, clock, I/O, randomness or fault for a simulator to decide; %s')
na = [
 ('C18', PURE % 'it would need proof or input-space testing. What holds for every model a run draws, at every point it evaluates, is decided by C29.'),
 ('C19', PURE % 'it would need proof or input-space testing. What holds for every model a run draws, at every point it evaluates, is decided by C29; head maps by C16.'),
 ('C20', PURE % 'it would need proof or input-space testing. The fit of every realization of a run is compared with an independent one in C07, C09 and C24.'),
 ('C21', PURE % 'As part of whole runs it is decided by C24 (which observations a run fits and lists); C10 checks that concurrent filtering gives the solo result.'),
 ('C23', PURE % 'The table a run logs is decided by C24; C10 checks that concurrent summaries give the solo result.'),
]
m = dict(version=1, setup_cmd='./check --selftest', hooks=dict(guard='none', enable='no hooks: every seam is an argument, a module attribute or a Python-level interface', source_commits=[]),
 checks=[dict(property=p, quick_cmd='./check %s' % p, thorough_cmd='VERIF_TIER=thorough ./check %s' % p, evidence_file='evidence/%s.json' % p,
   technique=T + t, level='exploration', level_note=n + TRUST) for p, t, n in checks],
 not_applicable=[dict(property=p, reason=r) for p, r in na],
 notes='One seed is one execution. Replay: ./check --replay replays/<file>.json. See DESIGN.md.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
fixed = [
 ('C03', 'c333d55', 'an interrupt during a flow evaluation was swallowed by the tracer (bare except) and the run went on'),
 ('C15', '03b6cf1', 'premature trace ends went to a logger without handlers and never reached the run log'),
 ('C02', '29a6725', 'a NaN/infinite velocity or a step that cannot advance made the tracer loop for ever'),
 ('C05', '92e4761', 'nodes within the umbra of a track but outside its bounding box were lost at the edge of the grid'),
 ('C05', '8c7cbc2', 'a track with a repeated vertex or a single point divided by zero'),
 ('C06', '6fe6a60', 'running out of memory while growing left extent and arrays inconsistent'),
 ('C14', '33dc0a5', 'two archives made in the same clock second: the later overwrote the earlier'),
 ('C15', '8ca48b0', 'the log handler of a finished or failed run stayed attached, so later runs wrote into its log'),
 ('C12', '3b26e26', 'smooth = 0, the documented default, was rejected'),
 ('C12', '9419f4b', 'oneka() did not return the probability field'),
 ('C08', 'dc7c0b2', 'distributions given as lists were not drawn; zero-width triangular distributions failed'),
 ('C16', 'a0ffea2', 'one dry node in a head map raised NameError'),
 ('C10', 'b267d9d', 'duplicate observations that are not adjacent in the list were not averaged (property C21; visible as a singular or order-dependent fit)'),
 ('C13', '5d5b2f0', 'an archive damaged in its tail could load as something else, because unpickling ended before the checksum was verified'),
 ('C24', 'c53dfb8', 'the recharge logged for each stochastic realization had the wrong sign (negative where water is added)'),
 ('C22', '0cb9a8b', 'an observation with a standard deviation of zero was accepted and broke the fit in the middle of the run'),
 ('C22', '796c8ae', 'a duration that is not a number was accepted; the run displayed an empty capture zone'),
 ('C22', 'a935d6a', 'a conductivity or thickness of zero, or an infinite one, was accepted and broke the fit in the middle of the run; a porosity of zero gave an empty capture zone'),
 ('C25', '1896eda', 'the driver closed every log handler of the process after its run, so the log file a host had opened for writing silently recorded no more'),
 ('C28', '515ec38', 'the elapsed time of a run was taken from the wall clock, so it was wrong, even negative, when the clock was set meanwhile'),
    ('C06', 'd234fcf', 'a request to grow the field to an infinite extent never returned, and one to an undefined extent was taken without an error'),
]
with open(os.path.join(ROOT, 'known_findings.jsonl'), 'w') as f:
    for p, c, w in fixed:
        f.write(json.dumps(dict(status='fixed', property=p, commit=c, what=w, record='fixed: property=%s %s %s' % (p, c, w))) + '\n')
