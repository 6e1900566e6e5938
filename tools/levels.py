DV = 'contract-based deductive verification (symbolic execution of the real source, obligations to normaliser + z3)'
ALL = 'all inputs and dimensions; every obligation is regenerated from the current source; floats as reals; numpy/scipy/sklearn operations by contract (listed in the evidence)'
LEVELS = {
 'P01': ('proof', DV, 'all inputs, list lengths and n_boots; every obligation is generated from the current source; floats as reals'),
 'P02': ('proof', DV, ALL),
 'P07': ('proof', DV, ALL + '; complete fits compared with pre-standardised ones are bounded (n<=30, d<=4)'),
 'P08': ('proof', DV, ALL),
 'P10': ('proof', DV, ALL + '; behaviour for large arguments (overflow) is bounded'),
 'P11': ('proof', DV, ALL + '; whole fits are bounded'),
 'P21': ('proof', DV, ALL + '; whole fits are bounded'),
 'P12': ('proof', DV, ALL + '; sweeps over more than two active coordinates are bounded (n<=8, d<=5)'),
 'P13': ('proof', DV, ALL + '; numbers of l1 ratios (1-3) and classes (2-3) are unrolled; that the real solvers return an empty model exactly above the strongest value is bounded (n<=40, d<=5)'),
 'P14': ('proof', DV, ALL + '; numbers of bootstraps (1-3) and ranks (1-2) of a fit are unrolled; the truncated SVD and the resampling are external and enter as recording stand-ins; that rng.rand is uniform is the contract of NumPy'),
 'P15': ('proof', DV, ALL + '; numbers of bootstraps (1-3), ranks (1-2, each 1-2) and clusters (1-2) of a fit are unrolled; factorisation, clustering and regression are external and enter as recording stand-ins with arbitrary results; complete fits with the real solvers are bounded (n<=12, d<=5)'),
 'P20': ('proof', DV, ALL + '; numbers of classes (2-4) are unrolled; random draws enter as arbitrary values of their distribution (positive for uniform and gamma draws, nonzero normal coefficients: probability one)'),
 'P03': ('proof', DV, ALL + '; numbers of estimation bootstraps and supports are unrolled (1-3 each, every combination up to 4 tasks); everything else symbolic'),
 'P04': ('proof', DV, ALL + '; the numbers of selection (1-3) and estimation (1-2) bootstraps are unrolled, everything else symbolic'),
 'P05': ('proof', DV, ALL + '; ranks (1-4), bootstraps, regularisations and supports (1-3 each) are unrolled over stated combinations; the data, resamples, base models and scores are symbolic; complete fits are bounded'),
 'P06': ('proof', DV, ALL + '; ranks (1-4), roots and numbers of dimensions (0-3) are unrolled, row counts and dimensions are symbolic; narrow dtypes are checked concretely (bounded)'),
 'P16': ('proof', DV, ALL + '; numbers of bootstraps (1-3), ranks (1-2) and classes (2-3) are unrolled; draws are uninterpreted functions of (seed, position, arguments); consumers of a stream (resampling, factorisation, truncated SVD) enter as stand-ins that draw from the state they are handed; whole runs with the real solvers are bounded'),
 'P17': ('proof', DV, ALL + '; bootstraps (2 + 1) and supports (1) are unrolled, option combinations of the logistic fit are six that cover every pair; solvers enter as a stand-in whose solution depends on its previous one; whole refits with the real solvers (decompositions and base solvers included) are bounded'),
 'P22': ('proof', DV, ALL + '; memory layout is abstracted: a view aliases in the proof whenever NumPy can alias; numbers of classes (1-3), ranks of a communicator (2-3) and bootstraps are unrolled; minimisers and solvers enter as stand-ins (the estimation solver overwrites its data); C code and real solvers, dtypes and layouts are bounded'),
 'P09': ('proof', DV, ALL + '; numbers of rows of coef_ (1-3) are unrolled; the two minimisers enter as stand-ins that return any point of the space they are given (trusted: an OWL-QN coordinate starting at zero with zero gradient stays zero); whole fits with the real minimisers are bounded (optimality within 2%)'),
 'P23': ('proof', DV, ALL + '; numbers of classes (2-3) and bootstraps are unrolled; labels in the proof are any increasing numbers (text labels bounded); weights per class given as a dict are bounded; solvers and resampling enter as stand-ins that see only what they are given; whole fits with the real solvers are bounded'),
 'P18': ('proof', DV + '; _lowlevel.pyx by mechanical line translation on every run', 'all sizes, starting points, option values and statuses the header lists; starts are vectors, matrices, integer vectors, lists and numbers; the library enters as a stand-in that calls back once, leaves any point and returns any listed status (lbfgs() itself: P19); C doubles as reals, machine ints as mathematical; an exception raised inside a callback is outside the proof (the extension prints it and goes on); runs of the built extension are bounded'),
 'P19': ('proof', DV + '; lbfgs.c and arithmetic_ansi.h by mechanical translation on every run', 'all n, vectors, index ranges, weights and parameters; trials of a line search (1-2), memory (1-3) and iterations (1-3) are unrolled; inside lbfgs() the line search and the vector kernels enter by their contracts, in the More-Thuente search the interpolation is a stand-in with any result (update_trial_interval itself is bounded); doubles as reals, divisors nonzero; translation against the compiled library and whole minimisations are bounded'),
}
