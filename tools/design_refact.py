REFACT = '''Two large sets of edits that keep the behaviour were written from the code alone (about 80 edits over every module of `cbx`: helpers
extracted, statements reordered, loops instead of array expressions and back, `einsum`/`matmul`/`add.reduce` instead of broadcast-and-sum, masks
instead of `np.where`, `np.take_along_axis` and lists instead of fancy indexing, `softmax` instead of `logsumexp`, algebraically equal formulas,
dispatch dictionaries, early returns, generators). Each set was applied as a whole to a scratch copy on which the 321 tests pass, and all 28 checks
were run on it: no alarm, no check without an answer, one scenario undecided in all. What it took to get there, so that the judgement is
about what the code does and not how it is written:

* assignments and element-wise arithmetic under an undecided boolean mask (`y[improved] = x[improved]`, `wait[idx] = 0`, `theta[~t] /= c`) are kept as
  one choice per element (`MaskSel` in `symval.py`) and fork only where the code really needs the selected elements;
* `np.take_along_axis` and lists of symbolic positions index lazily, like fancy indexing;
* the sign of an expression is read off its collected linear form, so that `v + (1-b)*(d**2 - v)` is as non-negative as `b*v + (1-b)*d**2`;
* integer arithmetic (`%`, `//`) acts on choices among constants; normalisation stops at its own time limit (it did not inside a reduction).

One edit of the first set raised an alarm rightly: `np.minimum(energy_new, energy)` in `CBOMemory` lets a NaN of the objective into the memory, which
the comparison in the code does not (C07, scenario `nonfinite`).'''
