# property -> how it is decided (specification/oracle, technique details, why beyond tests)
T = {
'C01': 'The consensus used in a real step (`dyn.consensus` after `step()`) is compared with sum_j w_j x_j / sum_j w_j, w_j = exp(-alpha E_j), over the particles of that step and with the alpha of that run, all as rational functions of exp atoms; shift and permutation invariance and the coordinate-wise range are separate obligations. Logsumexp, exp/sum after a shift, einsum or matmul give the same normal form.',
'C02': 'The consensus rules, kernels, covariance, effective sample size, penalty mean and simplex map are executed under the floating point range model; the assertion is finiteness, weights in [0,1] and sum one (made visible by one-hot particles) for arbitrary magnitudes of energy and alpha.',
'C03': 'One step of every batch mode from an arbitrary ensemble; expected positions written with the dynamic\'s own recorded consensus and an arbitrary (uninterpreted) noise callable or the documented noise; unscheduled rows must be unchanged. Corrections are stated by their documented formulas. Whole-number (integer typed) ensembles included.',
'C04': 'Noise value against the documented scaling of the sample for arbitrary drift; the covariance noise by its defining property: (matrix)^2 = weighted covariance * 2dt/lambda, with eigh by its specification (arbitrary orthogonal factors).',
'C05': 'Product construction: an M-run and M single runs are executed symbolically on the same unknowns (draws and permutations named by run) and all observables compared per run, first from construction, then from an arbitrary state with some runs finished; schedulers and termination included.',
'C06': 'Ghost variable: the minimum of all values the objective returned for the particles used (uninterpreted objective); after every step best energy = that minimum, non-increasing, f(best particle) = best energy.',
'C07': 'Induction: arbitrary state satisfying the invariant "energy = f(y), y best so far", one step; plus initial states, several steps, non-finite moves, objectives whose first values are whole numbers.',
'C08': 'One termination check from an arbitrary state; expected active set and reasons by the documented conditions; the loop of `optimize()` with criteria that answer arbitrarily.',
'C09': 'Arbitrary state with a proper subset of active runs, one step; finished rows of every attribute unchanged, continuing runs equal to the same dynamic holding only them.',
'C10': 'The uninterpreted objective records the number of points at which it is evaluated per run; the counter must increase by exactly that. Budgets with the evaluation criterion by running the loop.',
'C11': 'Permutations are integer unknowns (all different); pigeon-hole style obligations (distinct, disjoint, covering) over the index terms of up to six consecutive batches; then that the step uses exactly these indices.',
'C12': 'Post-processing on arbitrary IEEE doubles decided in the floating-point theory of z3; steps of every class with an inner step that writes arbitrary doubles; and with real inner steps.',
'C13': 'The history arrays after several steps compared with copies taken at each step; aliasing between history and state is real Python aliasing, so a missing copy is a wrong term; reset and reuse of tracking configuration.',
'C14': 'All arguments are compared (entry by entry, type and keys) with copies taken before; in-place operations of the code act on the same symbolic storage.',
'C15': 'Two dynamics on the same unknowns, one interleaved with unrelated dynamics and uses of the global generator (each draw of the global generator is a fresh unknown): states must be identical terms or provably equal.',
'C16': 'Multiply by its formula; bisection against an uninterpreted monotone function: loop invariant "a root stays in the bracket", width, residual, independence of runs; effective sample size against its definition.',
'C17': 'Gradients and Hessians against the derivatives of the constraint\'s own value: obtained from five values along a line (exact for polynomials of degree <= 4), so the oracle is the code\'s value function plus its documented formula; implicit solves by substitution into the linear equation.',
'C18': 'g(x)=0 after the step, idempotence and tangency as polynomial identities modulo norm facts; documented projected Euler step as formula; svd by its specification.',
'C19': 'grad conj(grad phi(x)) = x symbolically; nearest point by the variational inequality / comparison with an arbitrary point of the set; mirror step against CBO in the dual variable.',
'C20': 'User function uninterpreted; the (m,n) entry must be f of particle (m,n), the recorded evaluation points exactly the given ones. Functions with whole-number values included.',
'C21': 'Values against the documented formula (transcendental functions as uninterpreted functions with facts; constants numerically), dependence on other particles, minimisers, lower bounds where decidable.',
'C22': 'As C01 with kernels; uninterpreted kernel as well as the five real ones; symmetry, maximum, consistency of value and negative logarithm.',
'C23': 'The torch path is executed on a torch stand-in (exact tensors with torch\'s broadcasting, in-place and no_grad semantics) next to the numpy path on the same unknowns; replays use real torch.',
'C24': 'Triggers with arbitrary answers: perturbed rows exactly those; triggers themselves over arbitrary histories.',
'C25': 'Distance and value criteria against their definition, including norms with p=1,2,inf; combinations as intersections.',
'C26': 'Update equations written from the documentation/cited papers, checked for one step from an arbitrary state with an arbitrary noise callable; reductions to plain CBO with a product of two dynamics.',
'C27': 'Penalty values and weights by formula with uninterpreted objective and penalty; scheduler updates by their documented rule per run.',
'C28': 'matplotlib axes are replaced by recorders; the recorded data (offsets, arrows, lines, contour grids) is compared with the tracked symbolic state; dynamic and history compared before/after plotting.',
}
