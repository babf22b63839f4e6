dict(
fixed=[
 ('ee0633b', ['C05', 'C22'], 'the Taz kernel normalised all runs by the largest distance over all runs'),
 ('4e6ee6a', ['C22'], 'polar kernels only summed over the last axis of multi-dimensional domains'),
 ('2eb8c3e', ['C22'], 'constant kernel was zero at distance exactly kappa although its negative logarithm was zero'),
 ('12f731c', ['C11'], 'mini-batches of the concatenating mode could contain an index twice'),
 ('8ecb39e', ['C12'], 'copy_nan_to_num=True left NaN and infinite coordinates in the particles'),
 ('4a7fb01', ['C14', 'C16', 'C05'], 'bisection moved roots of runs that were already finished and overwrote the bracket arrays of the caller'),
 ('7fce998', ['C15'], 'the seed did not determine the initial ensemble'),
 ('10cd3d9', ['C17', 'C26'], 'implicit squared-constraint step without constraints did not return its input'),
 ('84680de', ['C17'], 'gradient and Hessian of quadric constraints were wrong for a non-symmetric matrix'),
 ('6aa542a', ['C18'], 'hypersurface drift on the plane pointed away from the consensus and lamda was ignored'),
 ('7188937', ['C18'], 'curvature correction of anisotropic noise on the sphere was wrong'),
 ('b2bd309', ['C19'], 'projection onto the boundary of a square only worked for side length one'),
 ('6b6e44e', ['C19'], 'default normal vector of the hyperplane mirror map failed in several dimensions'),
 ('c674456', ['C19'], 'gradient of the conjugate log barrier was not finite at zero'),
 ('ded0389', ['C19'], 'entropic mirror map overflowed for large dual variables'),
 ('d77375d', ['C19'], 'the ball mirror map tested its domain around the origin, not its center'),
 ('e48d33d', ['C19'], 'Hessian of the L2 mirror map and value of the nonsmooth barrier mixed particles'),
 ('a480973', ['C19'], 'weighted L2 mirror map failed for ensembles and its conjugate was not inverse'),
 ('e20a644', ['C21'], 'array-valued parameters of the multimodal objectives crashed'),
 ('d08d273', ['C21'], 'objectives dropped axes of length one (accelerated_sinus, nd_sinus, p_4th_order, Multimodal)'),
 ('4209ac1', ['C21'], 'declared minima of scaled and shifted Himmelblau and Holder_table ignored factor and shift'),
 ('1257cbc', ['C21'], 'Bukin6 declared its minimum at (0,0) instead of (-10,1)'),
 ('b37c4fd', ['C21'], 'Ackley.minima was a scalar, not a list of points'),
 ('171eca8', ['C21'], 'documented formulas and minima of drop_wave, cross_in_tray, Rastrigin, McCormick did not match the code'),
 ('a33e591', ['C25'], 'distance to the known minimiser was wrong for domains with an axis of length one'),
 ('7d3ab48', ['C25'], 'the success evaluation printed regardless of its verbosity'),
 ('0d3fad1', ['C24', 'C09'], 'resampling callbacks disturbed runs that were already finished'),
 ('31b6cc4', ['C24'], 'the stored best consensus of a resampled run was indexed wrongly once a run had finished'),
 ('800759a', ['C27'], 'the weighted mean of the penalty update was 0/0 for large energies'),
 ('fa93788', ['C27'], 'theta_max was applied to the shrinking branch of the tolerance update instead of the growing one'),
 ('4784f2f', ['C02', 'C01', 'C22', 'C23'], 'consensus weights did not sum to one for large alpha*energy (log-sum lost to rounding)'),
 ('ab835ee', ['C02', 'C16'], 'the effective sample size was rounded away for large energies'),
 ('d3826b3', ['C28'], 'contour plots ignored y_min or y_max equal to zero'),
 ('3ffd166', ['C28'], 'drift plots of mini-batches without some particles failed or showed the arrows at the wrong particles'),
 ('2a81570', ['C28'], 'plots of a run showed the consensus and drift of another run, or failed, once runs had finished'),
 ('54714d6', ['C20'], 'single-point objectives whose first value is an integer truncated all other values'),
 ('faddd96', ['C07'], 'memory dynamics stored truncated energies if the initial ones were integers'),
 ('14849d1', ['C03', 'C26'], 'integer initial ensembles failed or were truncated in every step'),
],
known=[])
