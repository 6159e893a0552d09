"""Writes DESIGN.md: the prose below, and tables taken from the checks, the planted bugs and tools/caught.json."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = r'''# Deciding OnekaPy's properties by deterministic simulation with fault injection

(Generated by `tools/mkdesign.py`; edit the prose there.)

## 1. The system and its nondeterminism

OnekaPy is a single-process Monte Carlo program: a data module describes a well field, `runme.main` or `oneka.oneka.oneka` checks the
arguments, filters the observations, draws an aquifer and well discharges per realization, fits a regional flow, traces particles, tallies
the captured nodes on a growing grid, archives the run, and displays and logs it.  What its guarantees depend on besides the input is:

| source | seam (all in `vsim/core.py`, installed before `oneka` is imported) | what the simulator does with it |
|---|---|---|
| random draws | `np.random.*`, `default_rng`, bit generators, `random.*`, `os.urandom` | one seeded stream per task; draws forced to the ends of their ranges; normal vectors moved far from their mean; entropy changed as by a restart |
| clocks | `time.*`, `datetime.datetime` | separate wall and monotonic clock, processor time apart; stands still, creeps, jumps, is set at any read; the process lives in one of several time zones, with summer time starting or ending |
| disk | `open`, `io`, `bz2`, `os.replace/remove/...` within the scratch directory | open/write/close errors, full disk, short and torn writes, crash at any operation, dead process |
| memory | numpy array constructors called from oneka code | the n-th allocation fails |
| flow evaluation | `feval` argument, `Model.compute_velocity*` | raises, NaN, infinite, zero, stagnating at any evaluation, in any region, at any line within an evaluation |
| interrupts, process death | `sys.settrace` at every line of oneka code, and at every seam call | KeyboardInterrupt, SystemExit, a kill after which nothing reaches storage |
| threads | real threads parked on a baton; pre-emption at every line or opcode of oneka code; `threading` locks simulated | a seeded scheduler decides who runs; the list of switches is part of the replay file |
| other processes | `vsim/sub.py`: forked before, released at a chosen line or disk operation | archive at the same time, die part-way, restart, repeat |
| display | `plt.show`, `Figure.show`, drawing calls | the instant of display is observed, fails, is interrupted, or kills the process |

No hook in /repo was needed.  Everything else is the real code: oneka, numpy, scipy, matplotlib (Agg), pickle, bz2, logging.

One integer decides a run: `VERIF_SEED`, the property and the run number seed the generator of the scenario (a JSON document: project,
operations, faults, schedule) and, through it, all streams.  Every run is a forked child with its own scratch directory and CPU limit.  A
violation is minimised (faults and operations dropped, lists shortened, values simplified, switches dropped) while its class persists, saved
as `replays/<id>-<seed>-<run>.json`, and replayed in a fresh process with another hash seed (`./check ID --replay FILE`).  Each batch re-runs a sample of its own
runs and counts digest mismatches in the evidence (`replay_mismatches`, always 0).  `tools/determinism.sh` compares the event-log digests of
whole batches under different worker counts and hash seeds; see section 6.

## 2. Why this reaches what the tests cannot

The 8 stable tests evaluate a handful of functions once, without faults, threads, disk, clock or draws.  Each property below quantifies over
draws, schedules, fault placements, crash points or histories; the simulator samples thousands of them per minute (section 6) with
independent oracles: `vsim/ref.py` (aquifer model, weighted fit, high-accuracy paths by scipy's DOP853, rasterisation with an exact-distance
band) shares no code with /repo.

## 3. The properties

Each entry: what one run does (`RULE`, also in the evidence), real and simulated components, quick/thorough number of runs, and the oracle.
'''

ORACLE = {
 'C01': 'The trace without faults must satisfy, step by step, the step limit and an independent Dormand-Prince error estimate, end at the requested time, and agree with a high-accuracy path where the embedded estimate is trustworthy. With a failure at evaluation k the result must be bit-identical to the prefix completed before k and a warning must be logged. All evaluations of short traces are failure points, sampled ones of long traces.',
 'C02': 'A budget of evaluations per trace (liveness as progress in bounded steps), 2000 after a persistent failure; finite vertices; prefix relation to the undisturbed trace. A CPU limit turns a hang without evaluations into a violation too.',
 'C03': 'The interrupt must reach the caller; no evaluation, realization, plot or disk write of a later stage may follow; every file left must fail to load or load to the complete result of that run.',
 'C04': 'Reference rasterisation of each particle traced alone through the same flow; nodes within a rounding band of the umbra may go either way; total weight exact.',
 'C05': 'A sparse dictionary model of the tally, compared after every operation.',
 'C06': 'State compared bit for bit after a failed operation; the later history must match a twin in which the failed operation never happened.',
 'C07': 'Models observed through the velocity seam: one per realization, all inputs within support and not shared between realizations, coefficients from an independent fit with the realization\'s inputs (mean and covariance of the observed draw); node probabilities between the sure and the possible captures of reference paths.',
 'C08': 'Kolmogorov-Smirnov, chi-square, serial and cross correlation tests at 1e-10, and detection of repeated draws; in a quarter of the sessions a known share of the normal vectors is moved to three times its distance, and that share must reach the realizations (nothing drawn may be selected); the seed is fixed, so a quiet check stays quiet.',
 'C09': 'Bit identity of all repetitions, inputs equal to the means, reference paths.',
 'C10': 'Bit identity of every computation with the same computation alone in a pristine process under the same draws; inputs compared before and after.',
 'C11': 'Bit identity with a fresh copy of the model, queried alone; deep comparison of the model before and after.',
 'C12': 'At the instant of display and at every end: exactly one new archive, loading to the arguments and to the field that an independent process computes from the same draws, which is also the one returned.',
 'C13': 'After a fault: error or exactly what was archived, never anything else; a normal return implies a complete archive.',
 'C14': 'After every step each archive completed so far is re-read; the number of archives equals the number of completed attempts. Other processes are forked beforehand with modules of their own and run between two lines or disk operations of this one.',
 'C15': 'Bytes of each log compared with the arguments, the observed models, the injected failures and everything the process emitted, up to the instant of death.',
 'C16': 'Independent model at independently computed node positions; blank exactly where the evaluation fails or the node is dry.',
 'C17': 'Areas recounted node by node from the returned field; plotted arrays compared with it.',
 'C22': 'No draw, evaluation, file or display before the error; accepted runs compared with an independent process.',
 'C24': 'Independent filtering, averaging, fit and statistics compared with the models used and the lines logged.',
 'C25': 'Open descriptors, settings, handlers, threads and what the host\'s own handlers write, compared before and after every end of a run.',
 'C26': 'All artists of all figures compared at the instant of display and at the end of every run; markers on the new figures compared with the wells, target and independently filtered observations; the host also draws the results again with other figures current.',
 'C27': 'Twin fields: one that never left memory and one archived and reloaded (repeatedly) take the same operations and must agree in state, reports and errors; the run repeated from its archived arguments must give the archived field.',
 'C28': 'Reported times compared with what the simulated clocks showed when the run started and the time that passed.',
 'C29': 'Every answer of a model is bracketed by an independent model of the same parameters; the bracket follows from rounding (4e-10 of the sum of absolute terms).',
}

TAIL = r'''
## 4. Not applicable

C18, C19, C20, C21 and C23 as stated are pure functions of their input: there is no schedule, clock, I/O, randomness or fault for a simulator to decide, and
seeded sampling of inputs would be plain property testing.  What they mean for *runs* - where the inputs come from draws, and failures,
interrupts and earlier runs intervene - is decided by C29 (flow at every point a run evaluates), C07/C09/C24 (fit of every realization) and C24 (observations
filtered and summarised by a run).

## 5. Defects found

Repaired, each in its own `fix:` commit in /repo (also in `known_findings.jsonl`; no open finding remains):

%(fixes)s

Observed and left alone (no property claims otherwise; each would need a decision of the maintainer):

- `visualize.quick_capture_zone` calls `Model.compute_backtrack`, which does not exist (dead code).
- `Model` has a mutable default for `coef`, and keeps a view of the array it is given.
- `ProbabilityField.expand` with infinite extents, an infinite well radius and an infinite umbra do not terminate; infinite spacing fails late; an infinite
  discharge is accepted and ends every trace. NaN coordinates, heads or base are found out by the fit only. C22 stays inside the declared ranges.
- A particle traced into the singularity of an injection well, or a field fitted to nearly collinear observations, takes very long though boundedly many steps.
- The embedded error estimate can be blind (both formulas agree by accident or symmetry); C01 then judges by the estimate only.
- Runs made at the same time by several threads through the *driver* share the logger `Oneka`, so their records mix; C15 is about runs one after another.

## 6. Determinism, coverage and cost

%(coverage)s

## 7. False alarms met and what was done

Each was a fault of the check or an overstrong property, corrected there; none is listed as a finding.

- C01: reference comparison where the embedded estimator is blind; travel time of paths that leave the smooth region. Now judged only where the estimate is trustworthy.
- C03: `logging.raiseExceptions` output counted as work after an interrupt; archives that were complete when the interrupt came.
- C04/C02: a fault region touching only a Runge-Kutta stage, and ties at the border of the region, may cut either way; an infinite velocity may reach the vertex through a stage only.
- C07: injection wells next to a path (singular reference); now kept far away.
- C10/C24: observation lists that leave the fit ill-posed; now at least seven well-spread observations are retained.
- C09 (seed 4, `no-progress`): the run meant to fail was given four observations, whose rank-deficient fit is now and then not refused numerically and yields absurd gradients; that run is now short.
- C13: numbering of disk operations differed between buffered writers; faults are placed by share instead.
- C15: late flush of an abandoned handler counted as foreign; NaN columns in the summary table; too few retained observations.
- C22: two corruptions that undo one another; requiring an integer number of realizations (a repair dropped again, the code is as lenient as it was).
- C24: synthetic heads below the base.
- C07 (`no-progress`): the processor time of the reference counted against the code under test in a rare large scenario; the reference now has its own allowance and is faster.
- C29: errors injected into the fit (which rightly ends the run) instead of into a flow evaluation.

## 8. Planted bugs

%(nbugs)d changes in `seeded/`, written from the property texts and the code, each confirmed to build, to pass the tests and to be exposed by its own demonstration.
"caught" is the result of `tools/seeded.sh` with the check of the bug's property at seed 1 (quick tier).

%(bugs)s

%(missed)s

## 9. Edits that must stay quiet

Three trees of behaviour-preserving refactorings (helpers extracted, loops vectorised or rewritten, `with`/`try` restructured, constants hoisted, local renames, generator draws
through another call, archive and log code restructured, plots made through Axes, one body for both kinds of run) were run through all checks at one or two seeds; so were a comment line and a no-op statement in every function the planted
bugs touch (vcheck does the latter on each run). The oracles look at files, logs, figures, returned fields, evaluations and public attributes of `Model` and `ProbabilityField`, not at the code.

## 10. Trust and limits

Trusted: `vsim/core.py` (seams, scheduler), `vsim/ref.py`, CPython, numpy/scipy/matplotlib. Sampling is evidence, not proof. Interrupts arrive between lines of oneka code and at seam calls,
not inside C extensions; threads are pre-empted at lines or opcodes of oneka code only; durability is that of completed `write` calls (OnekaPy never syncs, and promises nothing across power loss);
thread properties are about CPython with its lock, as shipped. Figures are judged by artists, not pixels.
'''


MISSED = '''Checks strengthened after they missed a planted bug (or would have): C01 map coordinates and long traces, C03 archiving alone and incomplete results that load, C04 independently cut traces,
C07 nearly dry aquifers and the covariance of the observed draw, C08 other activity between runs and inputs that share a declaration, C10 queries and argument variants, C11 refits, C14 other processes (`archive-shared-spool`),
C17 oblong cells, C22 NaN and degenerate values, C26 further wells within the field of the target (`map-target-nearest-centre`). Later: C04 errors that escape from a zone, C06 growth by thousands of nodes at once, wells near the target (C07), more than a
hundred realizations (C07, C15), project names that are no file names or hold format characters (C12, C13, C15, C22, C25), archives of one name in several folders (C13), map nodes exactly at a well (C16), zones of
many hectares (C17), arguments far within their ranges and fields of many wells (C22), averages at full precision (C24), arguments that cannot be archived (C25), wells of tiny discharge (C29).'''


def check_consts(path):
    t = ast.parse(open(path).read())
    d = {'doc': ast.get_docstring(t)}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'RUNS', 'REAL', 'STUBS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


props = {}
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    props[p['id']] = p
out = [HEAD]
for f in sorted(glob.glob(os.path.join(ROOT, 'vsim', 'checks', 'c*.py'))):
    pid = os.path.basename(f)[:-3].upper()
    c = check_consts(f)
    out.append('\n### %s  %s\n\n%s.\n\n*Oracle.* %s\n\n*Runs:* %d quick, %d thorough. *Real:* %s. *Simulated:* %s.\n' % (
        pid, props[pid]['title'], c['RULE'][0].upper() + c['RULE'][1:], ORACLE[pid], c['RUNS']['quick'], c['RUNS']['thorough'], ', '.join(c['REAL']), ', '.join(c['STUBS'])))
fixes = []
for l in open(os.path.join(ROOT, 'known_findings.jsonl')):
    k = json.loads(l)
    fixes.append('| %s | %s | %s |' % (k['property'], k['commit'], k['what']))
try:
    caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
except OSError:
    caught = {}
bugs = []
for m in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')):
    d = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    bugs.append((d['property'], i, '| %s | %s | %s | %s |' % (d['property'], i, d['what_it_breaks'].replace('|', '/'), caught.get(i, ''))))
cov = open(os.path.join(ROOT, 'tools', 'coverage.md')).read() if os.path.exists(os.path.join(ROOT, 'tools', 'coverage.md')) else ''
out.append(TAIL.replace('%%', '%') % dict(
    fixes='| property | commit | what failed |\n|---|---|---|\n' + '\n'.join(fixes), nbugs=len(bugs), missed=MISSED, coverage=cov.strip(),
    bugs='| property | bug | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(b[2] for b in sorted(bugs))))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out))
