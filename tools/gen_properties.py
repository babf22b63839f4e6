"""Writes /verif/properties.jsonl (kept as a generator so that the text is easy to review)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

D='cbx/dynamics/'; U='cbx/utils/'
prop('C01','Consensus point is the energy-weighted mean of the scheduled particles',
 'For every run, the consensus point equals the mean of the particles used in this step (all of them, or the current mini-batch) weighted by exp(-alpha * energy), normalised to one, with the energies of exactly those particles and the alpha of exactly that run. In particular it lies in the coordinate-wise range of those particles and does not change when all energies are shifted by a constant or the particles are permuted.',
 ['inputs','configurations'],'every ensemble, every energy assignment, every per-run alpha, with and without mini-batches, with any subset of runs still active',
 'Tests compare one random ensemble to a loop implementation with equal alpha for all runs and all runs active; batch/active-subset/alpha-per-run combinations are not reached.',
 [D+'pdyn.py',D+'cbo_memory.py',D+'pso.py',D+'hypersurfacecbo.py'],
 [('compute_consensus_default.__call__',D+'pdyn.py'),('CBXDynamic.compute_consensus',D+'pdyn.py'),('compute_consensus_rescale',D+'hypersurfacecbo.py')],
 [('consensus','per-run weighted mean','CBXDynamic'),('alpha','per-run heat parameter','CBXDynamic')],['dyn.consensus after step()','dyn.compute_consensus()'])
prop('C02','Consensus is finite and meaningful for every finite energy and alpha',
 'Computing the consensus never overflows, never divides by zero and never takes the logarithm of zero, whatever finite energies (of any magnitude or sign) and whatever non-negative alpha the runs have. The weights are always in [0,1] and sum to one.',
 ['inputs'],'every finite energy vector with |alpha*energy| representable, for the default, rescaled and polar consensus and for the effective-sample-size criterion',
 'Tests only use moderate energies of order one; extreme magnitudes where exp underflows for all particles are not sampled.',
 [D+'pdyn.py',D+'hypersurfacecbo.py',D+'polarcbo.py','cbx/scheduler.py'],
 [('log-sum-exp shift in compute_consensus_default',D+'pdyn.py'),('compute_polar_consensus',D+'polarcbo.py'),('eff_sample_size_gap',"cbx/scheduler.py")],
 observe=['dyn.consensus finite','scheduler values finite'])
prop('C03','One CBO step moves each scheduled particle by the CBO update and no other',
 'After one step every particle scheduled for the update has moved by exactly -lambda*dt*(x - consensus) + sigma*noise, where consensus is the one of its own run and noise is the configured noise for its drift, and the drift is first passed through the configured drift correction. Every particle that is not scheduled (outside a partial mini-batch, or in a finished run) keeps its position.',
 ['inputs','configurations','histories'],'every ensemble, step size, lambda, sigma, noise sample, mini-batch, active subset; full and partial batches; heaviside and regularised corrections',
 'Tests check shapes and convergence of single samples; they do not compare a step with the documented equation when batches, corrections or finished runs are involved.',
 [D+'cbo.py',D+'pdyn.py','cbx/correction.py'],
 [('cbo_update',D+'cbo.py'),('CBO.cbo_step',D+'cbo.py'),('heavi_side_correction','cbx/correction.py')],
 observe=['dyn.x before/after step()'])
prop('C04','Noise models scale the random sample as documented',
 'Isotropic noise is sqrt(dt) times the Euclidean norm of the particle drift times the sample, anisotropic noise is sqrt(dt) times drift times sample per component, constant noise is sqrt(dt) times the sample, and covariance noise multiplies the sample by a matrix whose square is the weighted covariance of the run, scaled by sqrt(2 dt/lambda). Isotropic, anisotropic and covariance noise therefore vanish for a run whose drift is zero, and the noise of a particle depends only on its own run.',
 ['inputs','configurations'],'every drift, sample, step size; vector- and multi-dimensional domains; every M, N, d in the bound',
 'Tests evaluate one random drift per noise model and only check some shapes for the covariance model.',
 ['cbx/noise.py',D+'pdyn.py'],[('noise.__call__/sample','cbx/noise.py'),('update_covariance, compute_mat_sqrt',D+'pdyn.py')],
 observe=['dyn.noise()'])
prop('C05','Runs are independent: an M-run equals M separate single runs',
 'A dynamic with M runs produces for each run exactly the particles, consensus, best energy, best particle and update size that the same dynamic would produce for that run alone with the same random samples. Nothing in one run (particles, energies, random samples, alpha, termination) influences another run.',
 ['inputs','configurations','histories'],'every ensemble and noise sample of two or more runs, for each dynamic class, over several steps, including steps where some runs have finished',
 'Tests run several runs at once but never compare them to separate runs; a leak across runs changes numbers but not shapes.',
 [D+f for f in ['pdyn.py','cbo.py','cbo_memory.py','adamcbo.py','pso.py','cbs.py','polarcbo.py','mirrorcbo.py','driftconstrainedcbo.py','hypersurfacecbo.py','regcombinationcbo.py']],
 [('array-level vectorisation over the leading axis',D+'pdyn.py'),('active_runs_idx / consensus_idx / particle_idx',D+'pdyn.py')],
 observe=['dyn.x, dyn.consensus, dyn.best_energy, dyn.best_particle after k steps'])
prop('C06','Best-so-far is monotone and belongs to an evaluated point',
 'The reported best energy never increases from step to step, equals the minimum of all energies the dynamic has used for its particles so far, and the reported best particle is a point whose objective value is exactly the reported best energy. The current best particle and current best energy are equally consistent with each other.',
 ['inputs','histories','configurations'],'every sequence of energies over several steps (ties, infinities and NaN included for the record itself), every dynamic class, with batches and finished runs',
 'Tests look at one step of plain CBO from a random start; a mismatch between point and energy shows only when later points are worse or batches leave stale energies.',
 [D+'pdyn.py',D+'cbo_memory.py',D+'pso.py'],
 [('update_best_cur_particle',D+'pdyn.py'),('update_best_particle',D+'pdyn.py')],
 [('best_energy','best energy so far per run','ParticleDynamic'),('best_particle','its point','ParticleDynamic')],
 ['dyn.best_energy','dyn.best_particle','return value of optimize()'])
prop('C07','Memory dynamics keep each particle\'s historical best',
 'In the memory-based dynamics the stored best position of each particle is the best of all positions at which that particle was evaluated, the stored energy is its objective value, and the stored energy never increases. A particle that is not scheduled, or whose run is finished, keeps its memory.',
 ['inputs','histories','configurations'],'every energy sequence, ensemble, batch and active subset over several steps',
 'Tests run the memory variant and PSO on a fixed problem and check shapes; the bookkeeping under batches or partly finished runs is never exercised.',
 [D+'cbo_memory.py',D+'pso.py'],[('CBOMemory.inner_step',D+'cbo_memory.py'),('PSO.inner_step',D+'pso.py')],
 [('y','historical best positions','CBOMemory, PSO'),('energy','energies of y','CBOMemory, PSO')],['dyn.y, dyn.energy after step()'])
prop('C08','A run stops exactly when one of its termination criteria holds',
 'After each check the active runs are exactly those for which no configured criterion holds, each criterion fires exactly under its documented condition (iterations, time, evaluations, energy, update size, energy stagnation) run by run, and the recorded reason of a stopped run lists exactly the criteria that held. Optimisation ends at the first check at which no run is active, and it returns the best particle.',
 ['inputs','histories','configurations'],'every state of the counters, energies, update sizes and thresholds; every combination of criteria; every number of active runs',
 'Tests check single criteria with constants on one or two runs; combinations and run-wise behaviour after some runs stopped are not reached.',
 [U+'termination.py',D+'pdyn.py'],[('term classes',U+'termination.py'),('select_active_runs, terminate, optimize',D+'pdyn.py')],
 [('active_runs_idx','indices of running runs','ParticleDynamic'),('term_reason','criteria that stopped a run','ParticleDynamic')],
 ['dyn.terminate()','dyn.active_runs_idx','dyn.term_reason','dyn.optimize()'])
prop('C09','A finished run is frozen while other runs continue',
 'While some runs have finished and others continue, a step leaves the particles, memory, energies, best values and evaluation count of every finished run unchanged, and treats the continuing runs as if the finished ones did not exist. This holds for every dynamic class and noise model.',
 ['inputs','configurations','histories'],'every ensemble, every non-empty proper subset of finished runs, every dynamic class, noise model and correction',
 'Tests terminate all runs together (max iterations); mixed termination is only touched for plain CBO with shapes.',
 [D+f for f in ['pdyn.py','cbo.py','cbo_memory.py','adamcbo.py','pso.py','cbs.py','polarcbo.py','mirrorcbo.py','driftconstrainedcbo.py','hypersurfacecbo.py','regcombinationcbo.py']],
 [('set_batch_idx_unbatched / active_runs_idx',D+'pdyn.py')],observe=['dyn.x etc. of finished runs around step()'])
prop('C10','The evaluation counter counts every objective evaluation of its run',
 'The per-run evaluation counter increases by exactly the number of particles (and consensus points) of that run at which the objective was evaluated, for every dynamic, batch size and active subset, and does not change for finished runs. Under an evaluation budget the count never exceeds the budget when each step costs one batch.',
 ['histories','configurations'],'every batch size, number of active runs, dynamic class, drift correction and budget; several steps',
 'Tests compare the counter of the default configuration after fixed iterations.',
 [D+'pdyn.py',D+'cbo_memory.py',D+'pso.py','cbx/correction.py',U+'termination.py',U+'resampling.py',U+'objective_handling.py'],
 [('eval_f',D+'pdyn.py'),('max_eval_term',U+'termination.py')],[('num_f_eval','evaluations per run','ParticleDynamic')],['dyn.num_f_eval'])
prop('C11','Mini-batches are valid, duplicate-free and cover every particle per epoch',
 'Every mini-batch of every run consists of the configured number of distinct particle indices in range, consecutive batches of one shuffle are disjoint, and a new shuffle is used only when fewer indices than a batch remain; in the concatenating mode left-over indices are used first so that no index is lost. Consensus and evaluation use the batch, and the update touches the batch only (partial mode) or all particles (full mode).',
 ['inputs','configurations','histories'],'every permutation the generator can return, every N, batch size, mode, number of steps and active subset within the bound',
 'Tests fix the generator seed and check some index sets.',
 [D+'pdyn.py'],[('init_batch_idx, set_batch_idx_batched, get_reshaped_run_idx',D+'pdyn.py')],
 [('indices','remaining shuffled indices','CBXDynamic')],['dyn.consensus_idx','dyn.particle_idx','dyn.batch_idx'])
prop('C12','After every step all particles are finite and bounded',
 'After each step every particle coordinate is a finite number with absolute value at most the configured threshold, whatever the inner step produced (NaN, +-infinity or huge values), coordinates already inside the bound are unchanged, and NaN is replaced by the threshold. This also holds for both settings of the copy flag.',
 ['inputs'],'every IEEE double bit pattern per coordinate and every positive finite threshold',
 'Tests inject one NaN; sign handling, infinities and the copy flag are not covered.',
 [D+'pdyn.py',D+'regcombinationcbo.py',U+'torch_utils.py'],[('post_process_default',D+'pdyn.py'),('post_process_default_torch',U+'torch_utils.py')],
 observe=['dyn.x after step()/post_process'])
prop('C13','History entries are faithful, immutable snapshots at the configured interval',
 'Each tracked quantity receives one entry per tracking interval whose value is the quantity at that step, the initial ensemble is recorded as it was before the first step, and no later step, reset or reuse of the configuration changes an entry already recorded. Resetting a dynamic restarts the history with the same tracking configuration.',
 ['inputs','histories','configurations'],'every ensemble, noise sample, tracking interval, set of tracked names and number of steps within the bound',
 'Tests compare the lengths of the history lists; contents after later in-place updates are not compared.',
 [U+'history.py',D+'pdyn.py'],[('track_* classes',U+'history.py'),('init_history, track, reset',D+'pdyn.py')],
 [('history','recorded entries','ParticleDynamic')],['dyn.history'])
prop('C14','Caller-owned arrays and argument objects are never modified',
 'Constructing and running a dynamic, scheduler, noise model or helper never changes arrays, lists or dictionaries the caller passed in (initial particles, alpha, tracking/batch/termination arguments, energies), so the same arguments can be used again and give the same result. The recorded best particle and the particles never share storage, so changing one does not change the other.',
 ['inputs','configurations','histories'],'every input array and argument dictionary in the bound, every dynamic class, several steps, repeated use of the same arguments',
 'Tests create fresh arguments each time; aliasing only shows when they are reused.',
 [D+'pdyn.py',U+'history.py','cbx/scheduler.py'],[('copy in init_x',D+'pdyn.py'),('init_history, init_alpha',D+'pdyn.py')],
 observe=['caller arrays before/after'])
prop('C15','Trajectories are determined by the inputs, the sampler and the batch seed alone',
 'Two dynamics built from the same objective, initial ensemble, parameters, sampler output and batch permutation go through identical states; no other source of randomness (global generator, hidden class-level or module-level state left by an earlier dynamic) influences a step. Creating or running one dynamic does not influence another one.',
 ['inputs','histories','configurations'],'every pair of executions that agree on the declared inputs and disagree arbitrarily on everything else (global generator output, previous dynamics in the process)',
 'This is a property of pairs of executions; tests check single executions with a globally seeded generator.',
 [D+'pdyn.py',D+'driftconstrainedcbo.py','cbx/noise.py'],[('set_array_backend_funs',D+'pdyn.py'),('seed handling',D+'pdyn.py')],
 observe=['dyn.x of paired executions'])
prop('C16','Schedulers update exactly their parameter and respect its limits',
 'The multiplicative scheduler sets the parameter of every run to min(maximum, factor*old) and nothing else; the effective-sample-size scheduler sets each run\'s alpha to a value inside [minimum, maximum] obtained by bisection on the run\'s own energies, such that whenever a root exists in the bracket the remaining bracket still contains it, and the result is within the bracket width or residual tolerance. Each run\'s value depends only on that run.',
 ['inputs','configurations','histories'],'every energy vector, factor, limit, number of bisection steps in the bound; any number of runs converging at different iterations',
 'Tests solve one random instance; interleavings in which some runs converge earlier than others are not enumerated.',
 ['cbx/scheduler.py'],[('multiply, param_update.ensure_max','cbx/scheduler.py'),('effective_sample_size, bisection_solve','cbx/scheduler.py')],
 observe=['parameter after scheduler.update(dyn)','bisection_solve result'])
prop('C17','Constraint derivatives and implicit solves satisfy their defining equations',
 'For every constraint the gradient and Hessian are the derivatives of its value, the squared-constraint gradient and Hessian are the derivatives of the square, sums over several constraints add up, and each implicit solve returns a vector that satisfies its linear equation; with no constraint the solves return the input vector.',
 ['inputs','configurations'],'every point, right-hand side, factor and constraint parameter (sphere, plane, quadric, none, several) for which the system is regular',
 'Tests compare a handful of random points for some constraints and never the no-constraint and multi-constraint paths.',
 ['cbx/constraints.py'],[('Constraint, sphereConstraint, planeConstraint, quadricConstraint, MultiConstraint','cbx/constraints.py')],
 observe=['constraint methods'])
prop('C18','Hypersurface dynamics keep particles on the surface',
 'After each step of the hypersurface dynamic every particle lies on the configured surface (unit sphere, plane, Stiefel manifold), the tangent-space projection returns a tangent vector and is idempotent, and the projection onto the surface leaves points of the surface unchanged. The step equals the documented projected Euler step.',
 ['inputs','configurations'],'every ensemble on the surface, consensus, noise sample, parameter values; both noise models',
 'Tests check the distance to the surface for one random step with a tolerance.',
 [D+'hypersurfacecbo.py'],[('sphereDistance, planeDistance, StiefelDistance',D+'hypersurfacecbo.py'),('HyperSurfaceCBO.inner_step',D+'hypersurfacecbo.py')],
 observe=['dyn.x after step()'])
prop('C19','Mirror maps are inverse to their conjugates and project onto their domain',
 'For every mirror map with an open domain the gradient of the conjugate inverts the gradient of the map on the domain; for every projection-type map the conjugate gradient returns the documented nearest point of the set (on the set, idempotent, points inside unchanged). A mirror dynamic updates its dual variable by the CBO step and its primal variable by the conjugate gradient, with no map it equals plain CBO.',
 ['inputs','configurations'],'every point (dual or primal), every radius/centre/normal/weight parameter',
 'Tests cover few maps with default parameters at random points.',
 [D+'mirrorcbo.py'],[('MirrorMap subclasses',D+'mirrorcbo.py'),('mirror_step',D+'mirrorcbo.py')],
 observe=['grad_conj(grad(x))','dyn.x, dyn.y after step()'])
prop('C20','Objective promotion evaluates the user function at exactly the given points',
 'A user function given for single points, for lists of points or for whole ensembles yields the same (M,N) energy array, whose entry (m,n) is the function value at particle (m,n) and at nothing else, for every ensemble shape including single runs, single particles and one-dimensional domains; the evaluation counter of the wrapper increases by the number of points.',
 ['inputs','configurations'],'every ensemble of every shape in the bound; every user function',
 'Tests use a few shapes and a symmetric function for which index permutations are invisible.',
 [U+'objective_handling.py'],[('_promote_objective, cbx_objective_f1D, cbx_objective_f2D',U+'objective_handling.py')],
 observe=['promoted objective values','num_eval'])
prop('C21','Benchmark objectives are pointwise, shape-correct and match their formulas',
 'Every benchmark objective returns one value per particle that depends only on that particle, has shape (M,N) for every ensemble shape, equals its documented formula, and attains its documented minimum value at each of its declared minimisers with no smaller value at other points where the formula allows this to be decided.',
 ['inputs','configurations'],'every point and every declared parameter; shapes with M=1, N=1',
 'Tests evaluate a few objectives at their minimisers and one batch shape.',
 ['cbx/objectives.py'],[('apply of each objective','cbx/objectives.py')],observe=['objective(x)'])
prop('C22','Polarised consensus is the kernel-weighted mean seen from each particle',
 'In the polarised dynamic every particle gets its own consensus point, the mean of the scheduled particles of its run weighted by kernel(x_i,x_j) to the documented power times exp(-alpha*energy_j), and with a constant kernel of infinite width it equals the common consensus. Each kernel is symmetric, has its maximum at distance zero, and its negative logarithm is consistent with its value.',
 ['inputs','configurations'],'every ensemble, energy, alpha, kernel width, kernel type; batches; finished runs; both noise families',
 'Tests compare Gaussian and two other kernels for one ensemble; the covariance, batch and active-subset paths are not compared.',
 [D+'polarcbo.py'],[('kernels, compute_polar_consensus, PolarCBO.compute_consensus',D+'polarcbo.py')],observe=['dyn.consensus','kernel values'])
prop('C23','The torch backend computes the same step as the numpy backend',
 'A dynamic converted to the torch backend produces, for the same ensemble, objective, samples and parameters, the same consensus, particles, energies and best values as the numpy dynamic, and its helper functions (norm, consensus, polar consensus, post-processing, samplers and initial ensembles, effective-sample-size scheduler) agree with the numpy ones. Flattening the parameters of networks and restoring them are inverse to each other, a network evaluated through its flat parameters gives the output of that network, and the accuracy helpers count exactly the correctly classified samples.',
 ['inputs','configurations'],'every ensemble, energy and sample in the bound for the consensus, polar consensus, norm, post-processing, samplers, scheduler and the steps of CBO, MirrorCBO, DriftConstrainedCBO, RegCombinationCBO and CBS with both backends side by side; every parameter vector of small networks',
 'Tests run both backends separately and check convergence; they never compare them step by step, and use one network.',
 [U+'torch_utils.py'],[('compute_consensus_torch, compute_polar_consensus_torch, post_process_default_torch, to_torch_dynamic, flatten_parameters, get_param_properties, eval_losses, eval_acc',U+'torch_utils.py')],
 observe=['states of both dynamics','helper outputs'])
prop('C24','Resampling perturbs exactly the runs whose trigger fired',
 'A resampling step adds the documented scaled noise to every particle of exactly the runs for which at least one trigger fired, leaves all other runs unchanged, and counts one resampling for each of those runs. The triggers fire exactly for runs whose update size is below the threshold, whose best energy has not improved for the configured number of steps, or whose consensus stagnated over the patience window.',
 ['inputs','histories','configurations'],'every update size, energy history, consensus history, subset of runs and several calls',
 'Tests fire each trigger once with all or fixed runs.',
 [U+'resampling.py'],[('resampling, apply_resampling_default, triggers',U+'resampling.py')],observe=['dyn.x around resampling(dyn)','num_resampling'])
prop('C25','Success evaluation counts exactly the runs that meet every criterion',
 'The success indices are exactly the runs whose best particle meets the distance criterion (norm of the difference to the true minimiser below tolerance) and/or whose objective value is below the threshold, combined criteria intersect, and number and rate agree with the indices. This holds for a single run, one-dimensional problems and multi-dimensional domains.',
 ['inputs','configurations'],'every best particle, minimiser, tolerance, threshold, p-norm in the bound',
 'Tests evaluate one deterministic situation.',
 [U+'success.py'],[('dist_to_min_success, value_success, evaluation',U+'success.py')],observe=['result dicts'])
prop('C26','Variant dynamics follow their documented update equations',
 'AdamCBO moves scheduled particles by bias-corrected first and second moment estimates of the drift, PSO follows the inertial velocity update towards consensus and historical best, the memory variant adds the memory drift towards the historical best, consensus-based sampling keeps its documented parametrisation, and the constrained variants perform their semi-implicit constraint steps. With the additional mechanism switched off each variant reduces to plain CBO.',
 ['inputs','configurations','histories'],'every ensemble, noise sample and parameter of each variant for one step from an arbitrary state and several steps from the start',
 'Tests only run the variants and check that nothing crashes or that one objective is minimised.',
 [D+'adamcbo.py',D+'pso.py',D+'cbo_memory.py',D+'cbs.py',D+'driftconstrainedcbo.py',D+'regcombinationcbo.py'],
 [('inner_step of each class',D)],observe=['dyn.x, dyn.v, dyn.m after step()'])
prop('C27','Regularised objectives add the penalty and schedule its weight per run',
 'The regularised objective equals the original objective plus weight times penalty to the power p at every point with the weight of that point\'s run, and the penalty scheduler changes weight and tolerance of exactly the runs for which its criterion holds, keeping the weights within their limits.',
 ['inputs','configurations','histories'],'every ensemble, weight, penalty function, threshold state; several runs with different weights',
 'Tests check a single regulariser and only that scheduling does not crash.',
 ['cbx/regularizers.py'],[('regularize_objective, regularization_paramter_scheduler','cbx/regularizers.py')],observe=['f(x)','f.lamda, theta'])
prop('C28','Plotting shows the recorded steps without altering them',
 'Plots of a dynamic draw, for the plotted run and dimensions, the particles a step started from, the consensus it used and arrows from the moved particles to that consensus, also for mini-batches and after other runs have finished; plots of a history draw the same for every recorded step, in any order. Objective plots show the objective at the grid points with the remaining coordinates zero. Plotting never changes the dynamic, its parameters or its history.',
 ['inputs','histories','configurations'],'every ensemble, objective, batch, schedule of finished runs, plotted run and pair of dimensions in the bound','Tests only call the plotting code with a dummy backend.',
 ['cbx/plotting.py'],[('plot_1D, contour_2D, PlotDynamic, PlotDynamicHistory','cbx/plotting.py'),('track_consensus',U+'history.py')],observe=['data handed to the matplotlib artists','dyn and dyn.history before and after'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as fh:
    for p in P: fh.write(json.dumps(p)+'\n')
print(len(P))
