"""Generates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=list(over), text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'A trace is the true flow path, cut only where evaluating the flow fails',
 """A particle trace starts at the requested point and follows the flow field backwards in time (forwards for a negative
 duration) for exactly the requested travel time, no step being longer than the step limit or having an estimated error above the
 tolerance. If evaluating the flow fails at any instant (dry aquifer, arithmetic error, any other ordinary error), the
 returned trace is exactly the leading part, up to the last completed step, of the trace it would have returned without
 the failure. Every such premature end is reported as a warning.""",
 ['fault_sequences', 'inputs'],
 'every flow field, start, duration, tolerance and step limit, and every instant at which an evaluation can fail',
 'Nothing in the test suite calls the tracer; no finite set of samples covers every evaluation at which a trace can die.',
 ['oneka/capturezone.py'],
 [('adaptive Dormand-Prince stepping with exception capture', 'oneka/capturezone.py:compute_backtrace')],
 [('vertices', 'accepted points of the path so far', 'oneka/capturezone.py:compute_backtrace')],
 ['list of vertices returned', 'warnings logged', 'sequence of flow evaluations requested'])

prop('C02', 'Every trace ends, also when the flow becomes undefined',
 """Tracing a particle ends after a bounded number of flow evaluations for every flow field, including fields that
 stagnate, converge on a well, jump, or become undefined (NaN), infinite or failing part-way. Once the flow is
 persistently undefined, infinite or failing, the trace ends promptly and returns the part completed so far. Every
 vertex returned is a finite point.""",
 ['fault_sequences', 'inputs'],
 'every flow field and every instant at which it may turn undefined, infinite, stagnant, discontinuous or failing, temporarily or for good',
 'Non-termination depends on the step controller meeting a bad value at a particular stage of a particular step; the tests never trace.',
 ['oneka/capturezone.py'],
 [('step acceptance and step-size control loop', 'oneka/capturezone.py:compute_backtrace')],
 (), ['number of flow evaluations', 'vertices returned'])

prop('C03', 'An interrupt ends the run and never becomes a finished result',
 """An interrupt (Ctrl-C) or exit request that arrives at any instant of a computation (single trace, capture zone,
 stochastic or deterministic run, or a whole archived run) reaches the caller, and no further trace, realization or
 plot is computed after it. An interrupted run never leaves an archive that loads as anything but the complete result of that run.""",
 ['crash_points', 'schedules'],
 'every program point of a run at which an asynchronous interrupt can be delivered, and every flow evaluation, draw, log record and disk write in between',
 'A test can raise at one hand-picked point; the property quantifies over every instant of a run.',
 ['oneka/capturezone.py', 'oneka/stochastic.py', 'oneka/deterministic.py', 'oneka/oneka.py', 'oneka/archive.py'],
 [('which exceptions a trace absorbs', 'oneka/capturezone.py:compute_backtrace'),
  ('archive written only after the computation', 'oneka/oneka.py:oneka')],
 (), ['exception seen by the caller', 'flow evaluations after the interrupt', 'files left on disk'])

prop('C04', 'A realization is the union of its traces, and a failing trace harms only itself',
 """The capture zone of one realization consists of exactly the grid nodes within the umbra of at least one of the
 requested number of traces, which start evenly spaced around the well one metre outside its radius, and it is added to
 the field once, with the given weight. A flow failure during one trace shortens that trace only: the other traces, earlier
 realizations and the total weight come out as if it had not failed.""",
 ['fault_sequences', 'inputs', 'histories'],
 'every number of traces, well, field state, and every pattern of failures over the traces of a realization',
 'The tests never compute a capture zone; the failure patterns over traces are combinatorial.',
 ['oneka/capturezone.py', 'oneka/probabilityfield.py'],
 [('loop over starting angles, one registration', 'oneka/capturezone.py:compute_capturezone')],
 [('pgrid/rgrid', 'accumulated and current marks', 'oneka/probabilityfield.py:ProbabilityField')],
 ['probability field after the call', 'flow evaluation points'])

prop('C05', 'The probability field is the weighted tally of its realizations, for any history',
 """After any sequence of inserted tracks, registrations, discards and grid growth, the value accumulated at each grid node is the
 total weight of the registered realizations that have a track within the umbra of that node (counted once per
 realization), and the total weight is the sum of all registered weights. The result does not depend on the order in which
 tracks and realizations arrive nor on when the grid grew. A realization abandoned part-way and discarded leaves nothing behind.""",
 ['histories', 'fault_sequences'],
 'every history of track, register, reset and grow operations, with realizations abandoned at arbitrary points',
 'The tests check one growth and one distance; "TODO: add tests for insert and rasterize".',
 ['oneka/probabilityfield.py'],
 [('auto-expanding grid', 'oneka/probabilityfield.py:ProbabilityField.expand'),
  ('vector-to-raster marking', 'oneka/probabilityfield.py:ProbabilityField.insert'),
  ('accumulate and clear', 'oneka/probabilityfield.py:ProbabilityField.register')],
 [('pgrid', 'accumulated weight per node', 'ProbabilityField'), ('rgrid', 'marks of the current realization', 'ProbabilityField'),
  ('total_weight', 'normalising weight', 'ProbabilityField')],
 ['public grid, extent and weight attributes after every operation'])

prop('C06', 'Growing the grid never moves or loses content, even when memory runs out',
 """Growing the field keeps every stored value and current mark at its geographic location, keeps the node spacing and lattice, keeps
 extent and node counts consistent, and makes the requested extent lie inside the grid. If growth
 fails because memory cannot be allocated, or the request is invalid, the error is reported and the field is exactly as it was
 before, so that later operations give the result they would have given had the failed one never been tried.""",
 ['fault_sequences', 'histories'],
 'every history of growth requests in every direction and every allocation within them that can fail',
 'One growth from empty is tested; allocation failures never occur in tests.',
 ['oneka/probabilityfield.py'],
 [('grid re-allocation and copy with row/column shift', 'oneka/probabilityfield.py:ProbabilityField.expand')],
 [('xmin,xmax,ymin,ymax,nrows,ncols', 'geometry, must agree with the arrays', 'ProbabilityField')],
 ['public grid, extent and weight attributes before and after a failing operation'])

prop('C07', 'A stochastic run averages exactly the requested realizations, each freshly drawn',
 """For whatever values the random draws take, a stochastic run performs exactly the requested number of realizations, each with its own
 draw of every uncertain input (each well's discharge, conductivity, porosity, thickness, regional flow coefficients), the
 coefficients being drawn around the weighted least-squares fit to the observations made with that realization's own inputs. The
 probability at each grid node is the fraction of realizations whose model's capture zone covers the node, confined or not, and lies between 0 and 1.""",
 ['schedules', 'inputs', 'fault_sequences'],
 'every outcome of the random draws (extreme ones included), every configuration, realizations that run dry included',
 'No test performs a realization; correctness must hold for every outcome of the random source.',
 ['oneka/stochastic.py', 'oneka/model.py', 'oneka/capturezone.py', 'oneka/probabilityfield.py'],
 [('Monte Carlo loop', 'oneka/stochastic.py:create_stochastic_capturezone'),
  ('weighted least squares fit', 'oneka/model.py:Model.fit_regional_flow')],
 (), ['models queried for velocity', 'random draws requested', 'returned probability field'])

prop('C08', 'Random inputs follow their declared distributions and are independent',
 """Over realizations and runs, every uncertain input stays inside its declared support and follows its declared constant,
 uniform or triangular distribution, and the regional flow coefficients follow the normal distribution given by the fit and its covariance.
 Draws are independent between inputs, between realizations and between runs, whatever the clock reads and however many runs start at the same instant.""",
 ['schedules', 'histories', 'inputs'],
 'every state of the entropy source and clock, and every sequence of runs in one process',
 'A distribution is a statement about every outcome of the random source; no test draws anything.',
 ['oneka/stochastic.py'],
 [('variate generation', 'oneka/stochastic.py:generate_random_variate'),
  ('multivariate normal coefficients from a fresh generator', 'oneka/stochastic.py:create_stochastic_capturezone')],
 (), ['parameters of the models queried for velocity', 'returned variates'])

prop('C09', 'A deterministic run depends on its arguments alone and uses the mean inputs',
 """A deterministic run computes the capture zone of a single model having the mean of every uncertain input and the
 fitted expected regional flow coefficients, with a total weight of one and every node value zero or one. Its result is identical however often and
 whenever it is run, whatever the random state, the entropy source, the clock and whatever other runs came before or alongside.""",
 ['schedules', 'histories', 'inputs'],
 'every state of the random source and clock and every preceding history of runs in the process',
 'No test runs it; independence from hidden state quantifies over all states.',
 ['oneka/deterministic.py', 'oneka/stochastic.py', 'oneka/model.py', 'oneka/capturezone.py'],
 [('mean inputs', 'oneka/stochastic.py:compute_variate_mean'),
  ('single realization of weight one', 'oneka/deterministic.py:create_deterministic_capturezone')],
 (), ['returned probability field', 'model queried for velocity'])

prop('C10', 'Runs sharing a process do not affect each other or their inputs',
 """Capture-zone runs, traces, probability fields, model fits and observation filtering performed by different caller threads in any
 interleaving, or one after another in one process (including after a run that failed or was interrupted), each give exactly the result they would give alone, for the
 same random draws. None of them modifies the wells, observations or other inputs passed by the caller.""",
 ['schedules', 'histories'],
 'every interleaving of the steps of several runs in one process and every sequence of runs, failed and interrupted ones included',
 'Tests run one thing at a time on fresh objects; hidden shared state shows only under particular interleavings or sequences.',
 ['oneka/stochastic.py', 'oneka/deterministic.py', 'oneka/capturezone.py', 'oneka/model.py', 'oneka/probabilityfield.py', 'oneka/utilities.py'],
 [('all run state is local to the run', 'oneka/stochastic.py, oneka/deterministic.py, oneka/capturezone.py')],
 (), ['results of each run', 'inputs after each run'])

prop('C11', 'One model can serve many concurrent readers',
 """Potential, head, discharge and velocity queries and traces made through one shared model by several threads, in any interleaving, each return
 exactly what they return when made alone. No query, successful or failing, changes the model.""",
 ['schedules'],
 'every interleaving of the steps of concurrent queries against one shared model, including queries that fail',
 'Existing tests are single threaded; the capture-zone code is meant to be parallelised over traces ("we may be able to parallelize the tracking").',
 ['oneka/model.py', 'oneka/capturezone.py'],
 [('queries are read-only', 'oneka/model.py:Model.compute_*')],
 [('coef, wells, base, conductivity, porosity, thickness, xo, yo', 'model parameters', 'oneka/model.py:Model')],
 ['query results', 'public attributes of the model'])

prop('C12', 'A finished run is archived in full before its results are displayed',
 """When a run has been computed, exactly one new archive holding it is complete on storage before the run starts displaying results or
 returns, and the archive loads to exactly the arguments of the run and the computed probability field, which the run also returns. Killing the process at any
 later moment, including while the results are displayed, does not lose it.""",
 ['crash_points', 'inputs', 'configurations'],
 'every configuration (stochastic or deterministic) and every crash point from the moment display starts',
 'No test performs a whole run or archives anything; crash points are not sampled at all.',
 ['oneka/oneka.py', 'oneka/archive.py'],
 [('archive before the blocking display', 'oneka/oneka.py:oneka'), ('pickle into bzip2', 'oneka/archive.py:dump_oneka')],
 (), ['files on disk at the moment of display and after a crash', 'loaded archive', 'returned field'])

prop('C13', 'Loading an archive yields exactly what was saved, or fails',
 """If archiving returns normally, the archive is complete on storage and loads to exactly what was archived, field included. If writing was cut short by
 a crash, a full disk or an I/O error, or stored bytes were lost or altered later, loading raises an error or still returns exactly what was archived,
 never anything else. A write failure is reported to the caller.""",
 ['fault_sequences', 'crash_points', 'inputs'],
 'every archived content, every crash point and I/O failure during the write, every truncation and alteration of stored bytes',
 'Archives are not tested; torn writes and bit rot cannot be produced by ordinary tests.',
 ['oneka/archive.py'],
 [('bzip2 checksum and end-of-stream marker', 'oneka/archive.py:load_oneka'), ('context-managed write', 'oneka/archive.py:dump_oneka')],
 (), ['exception or value from loading', 'exception from archiving'])

prop('C14', 'Archiving never destroys an earlier archive',
 """However many runs are archived, by one process or several, and whatever the clock does (several within a second, standing still, stepping back, repeating an hour), every archive ever completed
 stays loadable with its original content, and each archived run gets its own archive. A later archiving attempt that fails or crashes
 part-way does not damage earlier archives either.""",
 ['histories', 'schedules', 'fault_sequences'],
 'every sequence of archiving operations under every clock behaviour, with failing and crashing attempts in between',
 'Collisions need two runs ending within one clock second or a clock step; no test archives even once.',
 ['oneka/archive.py'],
 [('time-stamped file name', 'oneka/archive.py:dump_oneka')],
 (), ['all archives on disk after every operation'])

prop('C15', 'The run log holds the whole record of its own run and no other',
 """The log file of a run started through the driver holds that run's arguments, one record per realization in order, every premature trace end and, if the run
 completed, its results and closing line, and nothing from runs made before or after it in the same process unless they started in the same second, in which case both are kept. If the run
 fails, is interrupted or the process dies, everything logged up to then is in the file. Failing writes to the log neither stop a run nor change its result.""",
 ['histories', 'fault_sequences', 'crash_points'],
 'every sequence of runs in one process, each completing, failing, interrupted or killed at any log record, with log-write errors',
 'The driver is not tested; contamination needs several runs in a process, loss needs a crash.',
 ['runme.py', 'oneka/oneka.py', 'oneka/stochastic.py', 'oneka/capturezone.py'],
 [('per-run log file handler', 'runme.py:main'), ('logger shared by all modules', 'oneka/*.py: logging.getLogger')],
 (), ['log files on disk'])

prop('C16', 'Head and potential maps show every computable node and leave gaps elsewhere',
 """A head or potential map of a model in which any subset of map nodes is dry is drawn: every node whose value can be computed shows exactly that value at its own position,
 every dry node is left blank, and the dry nodes influence no other node.""",
 ['fault_sequences', 'inputs'],
 'every subset and order of nodes at which evaluating the model fails because the aquifer is dry',
 'No test draws a map; the subsets of failing nodes are exponential.',
 ['oneka/visualize.py'],
 [('per-node exception capture', 'oneka/visualize.py:contour_head'), ('per-node exception capture', 'oneka/visualize.py:contour_potential')],
 (), ['grid handed to the plotting library'])

prop('C17', 'Reported areas and plots agree with the computed probability field',
 """For every outcome of a run, the reported deterministic area is the number of captured nodes times the cell area, the plotted probabilities are the field's accumulated values divided by its total
 weight at the nodes' own coordinates, and for each reported probability level the reported area counts the cells whose probability reaches that level
 (to within one cell, or the tied cells), never increasing with the level. A field without any registered realization is reported as an error instead of plotted.""",
 ['schedules', 'inputs'],
 'every probability field that a history of realizations can produce, ties, empty and full nodes included',
 'No test plots or reports; fields depend on random outcomes.',
 ['oneka/visualize.py', 'oneka/oneka.py'],
 [('area accumulation', 'oneka/visualize.py:create_deterministic_plot'), ('sorted probabilities vs. area', 'oneka/visualize.py:create_impact_plot'),
  ('decile table', 'oneka/oneka.py:oneka')],
 (), ['log records', 'return values', 'data handed to the plotting library'])

# ---- pure functions of their input: listed, but not decidable by simulation -------------------
prop('C18', 'The discharge vector is the negative gradient of the potential',
 """At every point off the wells the discharge vector equals minus the gradient of the discharge potential, its divergence is the uniform recharge, and
 the flux out of a closed curve around a well equals minus its discharge.""",
 ['inputs'], 'every model and every location', 'Two points of one model are tested.',
 ['oneka/model.py'], [('closed-form superposition', 'oneka/model.py:Model.compute_discharge, compute_potential')])
prop('C19', 'Head, potential and velocity are mutually consistent across flow regimes',
 """Head is a continuous, strictly increasing function of the potential across the confined/unconfined transition, inverts the potential's definition, and velocity is discharge divided by porosity times the
 saturated thickness; where the aquifer is confined the fast and general velocity functions agree. A dry point is reported as an error.""",
 ['inputs'], 'every model and location', 'Three points of one confined model are tested.',
 ['oneka/model.py'], [('regime branches', 'oneka/model.py:Model.compute_head, compute_velocity, compute_velocity_confined')])
prop('C20', 'The regional flow fit is the minimum-variance unbiased weighted fit',
 """The fitted coefficients minimise the weighted squared misfit of potentials at the observations, reproduce any regional flow exactly when the observations do, and the covariance is the inverse
 normal matrix; neither depends on the order of the observations.""",
 ['inputs'], 'every observation set and model', 'One observation set is tested to 0.1 %.',
 ['oneka/model.py'], [('weighted least squares', 'oneka/model.py:Model.construct_fit, compute_fit')])
prop('C21', 'Observation filtering keeps, drops and averages exactly as declared',
 """An observation is dropped exactly when it lies within the buffer of a well, and observations at the same location are replaced by their minimum-variance weighted average with the matching standard deviation.""",
 ['inputs'], 'every observation list and well field', 'Not tested.',
 ['oneka/utilities.py'], [('filtering and averaging', 'oneka/utilities.py:filter_obs')])
prop('C22', 'Rejected run arguments leave no trace; valid arguments run to completion',
 """In every sequence of runs, a run whose target, path count, duration, distributions, wells, observations, tolerances or buffer lie outside their declared ranges ends with an error having drawn no
 variate, evaluated no flow, written no file and displayed nothing, whatever runs came before it, and does not disturb the runs after it; a run whose arguments lie within them, defaults included,
 runs to its display.""",
 ['fault_sequences', 'inputs', 'configurations'],
 'every argument combination in every sequence of accepted and rejected runs',
 'Not tested; the combinations of several arguments and of earlier runs are unbounded.',
 ['oneka/oneka.py', 'oneka/stochastic.py', 'oneka/deterministic.py'],
 [('argument checks', 'oneka/oneka.py:oneka'), ('distribution check', 'oneka/stochastic.py:isdistribution')],
 (), ['exception raised', 'draws', 'files', 'displays'])
prop('C23', 'The summary table states the statistics of the retained observations',
 """The summary table's count, minimum, median, maximum, mean and standard deviation of each column are those of its non-missing values.""",
 ['inputs'], 'every table of values', 'Not tested.',
 ['oneka/utilities.py'], [('summary table', 'oneka/utilities.py:summary_statistics')])

prop('C24', 'A run fits exactly the retained observations, and its log states them truly',
 """In every run and every realization, whatever ran before it, observations within the buffer of any well take no part, and the observations within one metre of each other count as one
 minimum-variance weighted average, wherever they stand in the list; the regional flow is the weighted fit to exactly those. The log lists exactly those active observations, their summary statistics,
 every observation removed, and each realization's recharge, which is positive where water is added.""",
 ['schedules', 'fault_sequences', 'inputs'],
 'every observation list, well field and buffer, in every history of complete, interrupted and failing runs and every random outcome',
 'No test has repeated observations or ones near a second well, or runs twice.',
 ['oneka/utilities.py', 'oneka/stochastic.py', 'oneka/deterministic.py', 'oneka/model.py', 'oneka/oneka.py'],
 [('filtering and averaging', 'oneka/utilities.py:filter_obs'), ('fit per realization', 'oneka/model.py:Model.fit_regional_flow'), ('recharge line', 'oneka/stochastic.py, oneka/deterministic.py')],
 (), ['log records', 'coefficients of the models whose flow is traced'])

prop('C25', 'However a run ends, the process that called it goes on as it was',
 """Whatever way a run or the reading of an archive ends - complete, rejected, failing, interrupted inside the package, out of memory, unable to plot or to write - when control returns to the caller no file
 it opened is open and none of the caller's is closed, no handler of its own stays attached, the log handlers of the caller still record, and the settings of the process are what they were: working
 directory, environment, numpy error handling and print options, warning filters, plotting parameters, logging thresholds, signal handlers, threads. Open figures, the random state and the level the
 driver sets on its own logger are excepted.""",
 ['fault_sequences', 'crash_points', 'schedules'],
 'every way and every instant a run can end, in every sequence of runs in one host process',
 'Tests end their process after one call each; nothing looks at the process afterwards.',
 ['oneka/oneka.py', 'runme.py', 'oneka/archive.py', 'oneka/visualize.py', 'oneka/capturezone.py'],
 [('log handler', 'runme.py:main'), ('archive files', 'oneka/archive.py:dump_oneka, load_oneka'), ('plots', 'oneka/visualize.py')],
 (), ['open file descriptors', 'process settings', 'what the host logs'])

prop('C26', 'What is displayed is this run, on figures of its own',
 """In every sequence of runs in one process, also after runs that failed or were interrupted while drawing, the figures a run displays are new ones, whose map marks this run's wells, its target unlike
 the others, and each of its retained observations at their own places, and nothing else. Figures of the caller or of earlier runs are neither drawn on nor closed.""",
 ['histories', 'fault_sequences', 'crash_points'],
 'every sequence of runs and every failure or interrupt while drawing, with any figures of the host open',
 'No test draws anything.',
 ['oneka/visualize.py', 'oneka/oneka.py'], [('plots', 'oneka/visualize.py:create_probability_plot, create_deterministic_plot, create_impact_plot')],
 (), ['figures and their artists at the moment of display'])
prop('C27', 'An archive alone suffices to repeat a run and to go on with its field',
 """In any later process, running the arguments loaded from an archive gives the archived field and the same archived arguments again (a stochastic run: for the same random draws). A field loaded from an
 archive, whatever state it was archived in and however often it is archived and reloaded, reports and takes further tracks, realizations, growth and failing operations exactly as the archived one would.""",
 ['histories', 'crash_points', 'fault_sequences'],
 'every run, every crash once the results are displayed, every later history of operations, archivings and restarts',
 'No test archives anything or uses a field after loading it.',
 ['oneka/archive.py', 'oneka/probabilityfield.py', 'oneka/oneka.py'], [('archive', 'oneka/archive.py:dump_oneka, load_oneka'), ('field', 'oneka/probabilityfield.py:ProbabilityField')],
 (), ['loaded archives', 'field states', 'reports'])
prop('C28', 'The times a run reports are its own, whatever is done to the clock',
 """For a run started through the driver, the start time in its log and its archive is what the wall clock showed when it started, the elapsed time in its log and on the terminal is the time that passed,
 and its files are dated with times the clock showed during the run - also when the wall clock is set forward or back meanwhile, and in every run of a sequence.""",
 ['schedules', 'histories', 'fault_sequences'],
 'every passage of time and every adjustment of the wall clock, before and during each run of a sequence',
 'Tests do not run the driver and cannot set the clock.',
 ['runme.py', 'oneka/oneka.py', 'oneka/archive.py'], [('run times', 'runme.py:main'), ('archive name', 'oneka/archive.py:dump_oneka')],
 (), ['log', 'archive', 'terminal', 'file names'])

prop('C29', 'At every point a run evaluates, the flow is that of the realization\'s own model',
 """Whatever is drawn, wherever the particles go and whatever evaluation failed before, every potential, discharge, head and velocity that a model gives in a run - and afterwards, to whoever goes on querying
 it or fits it anew - is that of its own current parameters at that point: the discharge is minus the gradient of the potential of its regional flow and wells, the head inverts the potential on either side
 of the confined/unconfined transition, and the velocity is the discharge divided by porosity and saturated thickness (the full thickness where confined or assumed so). A dry point is reported as an error
 and never given a head or velocity.""",
 ['inputs', 'fault_sequences', 'histories'],
 'every draw, point, failure within an evaluation, and history of queries and fits of one model',
 'Tests evaluate two models at a few points; no test reaches the transition, a dry point, a failure within an evaluation or a refitted model.',
 ['oneka/model.py', 'oneka/stochastic.py', 'oneka/deterministic.py'], [('flow of a model', 'oneka/model.py:Model')],
 (), ['model queries'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
