"""Single source for properties.jsonl and MANIFEST.json (see mkmanifest.py)."""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, tech, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over,
                      text=text, why=why, files=files, mech=mech, tech=tech,
                      note=note))


P('P01', 'Proximal operators, projections and norms are exact',
  'Every proximal operator returns the minimiser of (1/2)||x-v||^2 + alpha*f(x), '
  'every projection returns the nearest point of its set, and every norm '
  'function returns the norm, in each group defined by the axis argument. This '
  'holds for real and complex data where supported, any shape, axis choice, '
  'parameter value including zero, and data containing zeros and ties, without '
  'modifying the arguments.',
  ['inputs'], 'all arrays (shape, dtype, layout, values with zeros/ties), all '
  'axis specifications, all non-negative parameters',
  'The tests evaluate each operator on one or two fixed random arrays, mostly '
  'with the default axis; they never test optimality, complex zeros, ties or '
  'parameters at the boundary of the set.',
  ['sporco/prox/_lp.py', 'sporco/prox/_l1proj.py', 'sporco/prox/_l21.py',
   'sporco/prox/_nuclear.py', 'sporco/prox/_util.py', 'sporco/prox/__init__.py'],
  [('closed-form shrinkage', 'sporco/prox/_lp.py'),
   ('sort/Newton projection onto the l1 ball', 'sporco/prox/_lp.py')],
  'runtime monitors: optimality-certificate oracle on generated calls',
  'Optimality conditions (subdifferential / KKT / brute-force competitor '
  'points) are checked on each observed call; exploration only.')

P('P02', 'Structured and factored linear solvers solve their systems',
  'Each linear solver - per-frequency rank-one, multi-rank, diagonal, '
  'iterated Sherman-Morrison, conjugate gradient, cached LU and Cholesky '
  'forms, and the Sylvester solver - returns a vector that satisfies the '
  'documented linear system, for either aspect ratio of the matrix and any '
  'broadcasting pattern of its arguments. A cached factor or precomputed '
  'component gives the same solution as no cache, and the relative residual '
  'function reports the true relative residual.',
  ['inputs', 'configurations'], 'all right hand sides, dictionaries, rho > 0, '
  'real/complex, single/double precision, broadcast patterns, tall and wide '
  'matrices, with and without accelerated expression evaluation',
  'Tests solve one fixed random system per solver (mostly 2-d, double '
  'precision, rho = 0.5-ish) and check the residual only.',
  ['sporco/linalg.py'],
  [('Sherman-Morrison formulas', 'sporco/linalg.py'),
   ('lu/cholesky factor caches for both aspect ratios', 'sporco/linalg.py')],
  'runtime monitors: dense reference solve per frequency on generated systems',
  'Reference solution assembled densely and solved in double precision; the '
  'error limit is scaled by the condition number.')

P('P03', 'Inner products, Kronecker, circulant and PCA tools match definitions',
  'The axis-wise inner product and product functions, block-circulant '
  'construction, nearest Kronecker product and Kronecker SVD, principal '
  'component analysis, and the adjointness test all agree with their '
  'mathematical definitions for every admissible shape and axis. Kronecker '
  'approximations are optimal in the Frobenius norm, and the adjointness test '
  'accepts exactly those pairs of operators that are adjoint.',
  ['inputs'], 'all shapes (including broadcasting and singleton axes), axes, '
  'dtypes, ranks',
  'Tests use one shape per function and compare against the same expression.',
  ['sporco/linalg.py'], [('einsum/numexpr inner product', 'sporco/linalg.py'),
                         ('rearrangement SVD', 'sporco/linalg.py')],
  'runtime monitors: definitional reference oracle on generated calls',
  'Reference values from explicit loops / dense SVD.')

P('P04', 'Fourier and cosine transform layer is exact and invertible',
  'Forward and inverse transforms of every kind match the mathematical '
  'definition on the selected axes and sizes, invert each other, keep '
  'precision and never modify their input; the half-spectrum norm obeys '
  'Parseval, and frequency-domain convolution equals direct circular (or '
  'cropped linear) convolution with the documented origin. Results do not '
  'depend on whether the accelerated transform library is present.',
  ['inputs', 'configurations'], 'all shapes (odd/even/1), axes incl. negative, '
  'padding/cropping sizes, real/complex, single/double, contiguous or strided '
  'or read-only arrays, both transform back ends',
  'Tests check one or two even/odd sizes on fixed axes, and only one back end.',
  ['sporco/fft.py'], [('pyfftw/scipy wrappers', 'sporco/fft.py'),
                      ('Parseval weights for half spectra', 'sporco/fft.py')],
  'runtime monitors: definitional DFT oracle, round-trip and Parseval monitors',
  'Reference is numpy/scipy in double precision plus explicit sums on small '
  'cases.')

P('P05', 'Block, window, padding and split operations move data correctly',
  'Block extraction, rolling windows, subsampling, padding, splitting and '
  'related array utilities return exactly the documented elements of the '
  'input, reading nothing outside it, for every memory layout. Reassembling '
  'extracted blocks by averaging or by any reduction reproduces the signal '
  'wherever it is covered and marks uncovered samples as unknown; invalid '
  'step sizes are rejected.',
  ['inputs'], 'all shapes, block/step/window/shift sizes, pad modes, dtypes, '
  'strided and reversed layouts embedded in poisoned memory',
  'Tests use a handful of contiguous arrays and divisible sizes.',
  ['sporco/array.py'], [('as_strided views', 'sporco/array.py'),
                        ('overlap accumulation', 'sporco/array.py')],
  'runtime monitors: poisoned-redzone inputs with explicit-index oracle',
  'Inputs live inside NaN/sentinel-poisoned buffers, so an out-of-range read '
  'through a strided view is observed as a wrong value.')

P('P06', 'Convolutional geometry, weights and dictionary constraint projection',
  'For every admissible combination of dictionary and signal shapes, axes are '
  'assigned as documented (spatial, channel, signal, filter), weight and mask '
  'arrays are mapped to internal shapes that broadcast against the intended '
  'axes, and inconsistent channel counts are rejected. The dictionary '
  'constraint projection returns the nearest dictionary whose filters have '
  'the specified (possibly per-filter, per-channel) support, unit norm and, '
  'on request, zero mean; it is idempotent, and its variants agree. The same '
  'holds for the columns of dense dictionaries.',
  ['inputs', 'configurations'], '1-3 spatial axes, single/multi-channel, '
  'single/multi-signal, inferred or explicit multi-signal axis, single-scale, '
  'multi-scale and per-channel size specifications, cropped or padded output',
  'Tests check a few 2-d shapes and all-ones inputs.',
  ['sporco/cnvrep.py', 'sporco/admm/cmod.py', 'sporco/pgm/cmod.py'],
  [('CSC/CDU_ConvRepIndexing', 'sporco/cnvrep.py'),
   ('getPcn, zeromean, normalise (dense)', 'sporco/admm/cmod.py'),
   ('Pcn/getPcn, bcrop, zpad, zeromean, normalise', 'sporco/cnvrep.py'),
   ('l1Wshape, mskWshape', 'sporco/cnvrep.py')],
  'runtime monitors: reference geometry model and feasibility/nearest-point oracle',
  'Reference projection computed from an explicit support mask.')

P('P07', 'Options objects validate keys, keep defaults and are isolated',
  'Every options object starts from its documented defaults, a plain-dict or '
  'key-path assignment changes exactly the addressed option (and options '
  'documented as derived from it), and unknown keys or non-dict values for '
  'nested options are rejected at any depth, leaving the object unchanged. '
  'Operations on one options object never change another object, the class '
  'defaults, or the dict it was built from.',
  ['histories', 'inputs'], 'all sequences of get/set/update/path/copy/pickle '
  'operations, valid or not, on arbitrary default trees and on every options '
  'class of the package',
  'Tests perform a few assignments on two fixed trees and do not look at '
  'isolation between objects.',
  ['sporco/cdict.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py'],
  [('ConstrainedDict.__setitem__/update/check', 'sporco/cdict.py')],
  'runtime monitors: model-based history checker over options objects',
  'Each operation is replayed on a reference model and the full content '
  'compared; all option classes found by introspection are driven.')

P('P08', 'ADMM iteration protocol of the base classes',
  'For any problem expressed by subclassing an ADMM base class (general, '
  'equality-constrained, two-block, consensus, weighted consensus), every '
  'iteration performs the x, relaxed y and scaled-dual updates of the ADMM '
  'algorithm, and the reported residuals, tolerances, objective values and '
  'penalty changes equal their definitions. Solving stops exactly when the '
  'residuals meet the tolerances, the callback asks, or the iteration limit '
  'is reached. Splitting a run into several solve calls, disabling '
  'statistics or enabling status display does not change the iterates.',
  ['inputs', 'histories', 'configurations'], 'all problems, option '
  'combinations, initial values, and sequences of solve calls',
  'Tests run a fixed problem and inspect final values or that nothing raises.',
  ['sporco/admm/admm.py', 'sporco/common.py'],
  [('ADMM.solve, relax_AX, ustep, compute_residuals, update_rho',
    'sporco/admm/admm.py')],
  'runtime monitors: online trace checker via solver callbacks against a dense '
  'reference model',
  'Each recorded iteration is replayed on a dense model of the same problem.')

P('P09', 'Sparse coding with a dense dictionary solves the stated problem',
  'The dense-dictionary sparse coding solvers (basis pursuit denoising, its '
  'joint, elastic-net and l1-ball variants, and l1 minimisation in an l2 '
  'ball) perform exact ADMM updates for the documented problem, so converged '
  'coefficients satisfy its optimality conditions. Reported objective terms '
  'and constraint violations are the true values, weights, non-negativity, '
  'initial values, data type and default parameters take effect as '
  'documented, and replacing the dictionary mid-run is equivalent to having '
  'used it from then on.',
  ['inputs', 'configurations', 'histories'], 'all dictionaries, signals, '
  'parameters (including zero), option sets, initial values and solve / '
  'setdict sequences',
  'Tests solve one or two fixed instances and check the final relative error.',
  ['sporco/admm/bpdn.py', 'sporco/admm/admm.py'],
  [('GenericBPDN.xstep/setdict/rhochange cached Cholesky', 'sporco/admm/bpdn.py'),
   ('ystep of each class', 'sporco/admm/bpdn.py')],
  'runtime monitors: online trace checker via solver callbacks, KKT oracle',
  'Every recorded iteration is replayed on a dense model of the documented '
  'problem; converged runs are judged by KKT residuals.')

P('P10', 'Convolutional sparse coding solvers solve the stated problem',
  'The convolutional sparse coding solvers (basic, joint, elastic net, '
  'gradient-regularised, l1-ball, l2-ball, mask-decoupled, l1-l1, additive '
  'mask simulation, multiple dictionaries) perform exact ADMM updates for '
  'the documented problem for every geometry of spatial, channel and signal '
  'axes. Reported statistics are the true values, weights, masks, '
  'non-negativity, boundary and memory options take effect as documented, '
  'replacing the dictionary takes full effect, and reconstruction equals the '
  'sum of filter-map convolutions.',
  ['inputs', 'configurations', 'histories'], '1-3 spatial axes, '
  'single/multi-channel and -signal data and dictionaries, real (and complex '
  'for the basic problem) single/double precision, all option combinations, '
  'solve / setdict sequences',
  'Tests solve a few fixed 2-d instances with default options; most only '
  'check that nothing raises or that the error decreases.',
  ['sporco/admm/cbpdn.py', 'sporco/admm/admm.py', 'sporco/cnvrep.py',
   'sporco/linalg.py'],
  [('frequency-domain x steps and cached factors', 'sporco/admm/cbpdn.py'),
   ('AddMaskSim / MultiDictConvBPDN wrappers', 'sporco/admm/cbpdn.py')],
  'runtime monitors: online trace checker via solver callbacks, KKT oracle',
  'Every recorded iteration is replayed on an independent spatial-domain / '
  'numpy-FFT model.')
P('P11', 'TV, spline and robust PCA solvers solve the stated problem',
  'The total variation denoising and deconvolution solvers (l2 and l1 data '
  'fidelity), the l1 spline solver and robust PCA perform the ADMM updates '
  'of their documented problem along the requested axes of an array of any '
  'dimension, so converged results satisfy its optimality conditions. The '
  'iterative inner solver of the denoising problems reports its true '
  'residual, honours its tolerance and iteration limit, and never increases '
  'the error. Reported statistics are the true values, and weights, channel '
  'coupling, initial values, data types and default parameters take effect '
  'as documented.',
  ['inputs', 'configurations', 'histories'], 'real and complex arrays with '
  'one to three axes, all subsets of regularised axes, weights, option sets, '
  'initial values and repeated solves',
  'Tests solve one fixed image per class and compare with a stored final '
  'value.',
  ['sporco/admm/tvl1.py', 'sporco/admm/tvl2.py', 'sporco/admm/spline.py',
   'sporco/admm/rpca.py', 'sporco/signal.py'],
  [('xstep/GaussSeidelStep/LaplaceCentreWeight', 'sporco/admm/tvl2.py'),
   ('xstep in DFT domain, cnst_A, cnst_AT', 'sporco/admm/tvl1.py'),
   ('Gamma/rhochange', 'sporco/admm/spline.py')],
  'runtime monitors: online trace checker via solver callbacks, KKT oracle',
  'Every recorded iteration is replayed on a model built from finite '
  'differences, explicit shifts and SVD.')

P('P12', 'Product-dictionary, TV and inhibition CSC solvers solve the stated problem',
  'The variants of convolutional sparse coding with a product of '
  'convolutional and channel dictionaries, with total variation of the '
  'coefficient maps (scalar or vector) or of the reconstruction, and with '
  'lateral/self inhibition perform exact ADMM updates for the documented '
  'problem for every geometry. Reported statistics are the true values, '
  'weights, masks and initial values take effect as documented, replacing '
  'either dictionary takes full effect, and reconstruction applies both '
  'dictionaries.',
  ['inputs', 'configurations', 'histories'], '1-3 spatial axes, channel and '
  'signal axes, square, tall, wide and rank-deficient channel dictionaries, '
  'all option combinations, solve / setdict sequences',
  'Tests run a few fixed 2-d instances and mostly check that nothing raises.',
  ['sporco/admm/pdcsc.py', 'sporco/admm/cbpdntv.py',
   'sporco/admm/cbpdnin.py'],
  [('eigendecomposition x steps, setdict', 'sporco/admm/pdcsc.py'),
   ('block_sep/block_cat, x and y steps', 'sporco/admm/cbpdntv.py'),
   ('inhibition weight recursion in ystep', 'sporco/admm/cbpdnin.py')],
  'runtime monitors: online trace checker via solver callbacks, KKT oracle',
  'Every recorded iteration is replayed on an independent spatial-domain '
  'model.')


P('P13', 'Proximal gradient iterations follow the documented algorithm',
  'Every proximal gradient solver (dense, weighted, convolutional and masked '
  'sparse coding, constrained dictionary updates, user-defined subclasses) '
  'performs exactly the documented sequence of steps: momentum '
  'extrapolation, gradient step, proximal map, step size rule, standard or '
  'robust backtracking with its acceptance test, and the monotone variant. '
  'Reported statistics are true values, stopping occurs exactly when the '
  'documented tolerance is met or the iteration limit is reached, constraint '
  'sets are respected, and splitting or silencing a run does not change it.',
  ['inputs', 'configurations', 'histories'], 'problem data, option sets '
  '(momentum, step size policy, backtracking, monotone, stopping), one or '
  'two consecutive solve() calls',
  'Tests run each class on a few fixed instances with default momentum and '
  'check only the final error.',
  ['sporco/pgm/pgm.py', 'sporco/pgm/momentum.py', 'sporco/pgm/stepsize.py',
   'sporco/pgm/backtrack.py', 'sporco/pgm/bpdn.py', 'sporco/pgm/cbpdn.py',
   'sporco/pgm/cmod.py', 'sporco/pgm/ccmod.py'],
  [('solve/xstep/ystep/compute_residuals', 'sporco/pgm/pgm.py'),
   ('BacktrackStandard/BacktrackRobust.update', 'sporco/pgm/backtrack.py'),
   ('gradient, proximal map and functional of each class',
    'sporco/pgm/cbpdn.py')],
  'runtime monitors: online trace checker via solver callbacks',
  'Every recorded iteration is replayed on an independent model of the '
  'problem and of the step rules.')

P('P14', 'Proximal gradient solvers converge at the promised rate and agree',
  'For a sparse coding problem (dense, weighted, convolutional or masked) '
  'the proximal gradient solvers decrease the functional at the accelerated '
  'rate guaranteed for the momentum and step size scheme in use, converge to '
  'a minimiser, leave a minimiser fixed, and find the same minimum as the '
  'ADMM solver of the same problem.',
  ['inputs', 'configurations'], 'problem data, weights, masks and '
  'constraints; fixed step size, standard and robust backtracking',
  'Tests compare a single final value with a loose tolerance and never '
  'observe the rate or certify optimality.',
  ['sporco/pgm/pgm.py', 'sporco/pgm/backtrack.py', 'sporco/pgm/bpdn.py',
   'sporco/pgm/cbpdn.py', 'sporco/admm/bpdn.py', 'sporco/admm/cbpdn.py'],
  [('accelerated iteration', 'sporco/pgm/pgm.py'),
   ('backtracking', 'sporco/pgm/backtrack.py')],
  'runtime monitors: rate-bound and duality-gap certificates on iterates',
  'Each iterate is compared with the FISTA bound at a point whose '
  'optimality is certified by a dual feasible point.')

P('P15', 'ADMM dictionary updates solve the constrained problem exactly',
  'The ADMM dictionary update solvers (dense, iterated Sherman-Morrison, '
  'conjugate gradient and consensus, with and without a spatial mask) '
  'perform exact ADMM updates for the documented least squares problem with '
  'unit-norm, support and zero-mean constraints for every geometry. The '
  'returned dictionary satisfies the constraints, statistics and stopping '
  'tolerances are the true values, dual variables are rescaled whenever the '
  'penalty parameter changes, replacing the coefficients takes full effect '
  'and all methods agree on the same problem.',
  ['inputs', 'configurations', 'histories'], '1-3 spatial axes, '
  'single/multi-channel and -signal data, filters of several sizes, masks, '
  'real and complex data, solve / setcoef sequences',
  'Tests solve one or two fixed instances per class and check the size of '
  'the residual.',
  ['sporco/admm/cmod.py', 'sporco/admm/ccmod.py', 'sporco/admm/ccmodmd.py'],
  [('x, y and dual steps of each solver', 'sporco/admm/ccmod.py'),
   ('consensus and masked variants', 'sporco/admm/ccmodmd.py')],
  'runtime monitors: online trace checker via solver callbacks',
  'Every recorded iteration is replayed on an independent model and the '
  'returned dictionary is tested for membership of the constraint set.')

P('P16', 'Batch dictionary learning alternates its two solvers correctly',
  'Dictionary learning, for every combination of sparse coding and '
  'dictionary update methods, performs one sparse coding step and one '
  'dictionary step per outer iteration, handing the current coefficients '
  'and dictionary over between them, so that its history equals explicit '
  'alternation of the two solvers. Each dictionary returned is normalised, '
  'supported on its filter domain and zero-mean if requested; the '
  'statistics are the true values of the functional (with or without '
  'accurate evaluation) and of the mapped solver statistics; callbacks can '
  'stop the run, and splitting or silencing a run does not change it.',
  ['inputs', 'configurations', 'histories'], 'dense, weighted, convolutional '
  'and masked problems, all method pairs, dictionary size specifications, '
  'option sets, sequences of solve() calls',
  'Tests run each method pair a few iterations and mostly only check that '
  'nothing raises.',
  ['sporco/dictlrn/dictlrn.py', 'sporco/dictlrn/bpdndl.py',
   'sporco/dictlrn/wbpdndl.py', 'sporco/dictlrn/cbpdndl.py',
   'sporco/dictlrn/cbpdndlmd.py'],
  [('solve/post_xstep/post_dstep', 'sporco/dictlrn/dictlrn.py'),
   ('evaluate and IterStatsConfig', 'sporco/dictlrn/cbpdndl.py')],
  'runtime monitors: differential trace checker against manual alternation',
  'Histories are compared with explicit alternation of independent solver '
  'objects; functional values are recomputed independently.')

P('P17', 'Online dictionary learning performs exact projected gradient steps',
  'For any stream of training signals of changing spatial size, batch size '
  'and mask, each step of online dictionary learning codes the new signal '
  'with the current dictionary and moves the dictionary by a projected '
  'gradient step, with the documented step size schedule, for the data '
  'fidelity of that signal only. The dictionary always satisfies its '
  'constraints, statistics are true values, and verbosity or the order '
  'within a batch do not matter.',
  ['inputs', 'histories'], 'sequences of solve() calls with signals of '
  'changing size; single/multi-channel signals and dictionaries; masks',
  'Tests run a fixed sequence of equal-sized signals and check only that '
  'nothing raises.',
  ['sporco/dictlrn/onlinecdl.py'],
  [('xstep / dstep of OnlineConvBPDNDictLearn', 'sporco/dictlrn/onlinecdl.py'),
   ('masked variant', 'sporco/dictlrn/onlinecdl.py')],
  'runtime monitors: online trace checker over streams of training signals',
  'Every call of a stream is replayed on an independent model of the sparse '
  'coding result, gradient, projection and statistics.')

P('P18', 'Parallel solvers give the serial result for every worker schedule',
  'The multiprocess convolutional sparse coding and consensus dictionary '
  'learning solvers and the parallel grid search give the same result as '
  'sequential execution, for any number of workers and any order in which '
  'their tasks complete, with every task executed exactly once. Their '
  'iterates, statistics, tolerances and stopping decisions are those of the '
  'documented algorithm, runs terminate, and several solver objects can be '
  'constructed and used in any order without affecting each other.',
  ['inputs', 'schedules', 'histories'], 'worker counts, group counts, task '
  'completion orders, geometries, masks and weights, sequences of solvers',
  'Tests run one process schedule per class on one problem and mostly only '
  'check that nothing raises.',
  ['sporco/admm/parcbpdn.py', 'sporco/dictlrn/prlcnscdl.py',
   'sporco/util.py'],
  [('parallel step groups', 'sporco/admm/parcbpdn.py'),
   ('step / solve', 'sporco/dictlrn/prlcnscdl.py'),
   ('grid_search', 'sporco/util.py')],
  'runtime monitors: schedule perturbation, task log and serial reference',
  'Task delays and submission orders are randomised and logged; exactly-once '
  'execution and equality with serial references are checked.')

P('P19', 'Solvers and functions are pure, isolated, deterministic and reusable',
  'Solving or calling a library function leaves the arrays and option '
  'objects passed in unchanged, accepts read-only and strided inputs, never '
  'depends on uninitialised memory, and gives the same result when repeated, '
  'whatever other solver objects were constructed, configured or run '
  'before, in between, or in concurrent threads, and whether or not option '
  'objects or problem arrays are shared. Results returned by library '
  'functions are not changed by later calls.',
  ['inputs', 'histories', 'schedules'], 'all solver classes and numeric '
  'library functions; interleavings of construction and solving; threads',
  'Tests use one solver object at a time with private, writable, contiguous '
  'arrays and do not check inputs afterwards.',
  ['sporco/admm', 'sporco/pgm', 'sporco/dictlrn', 'sporco/common.py',
   'sporco/cdict.py', 'sporco/linalg.py', 'sporco/signal.py',
   'sporco/fft.py', 'sporco/prox'],
  [('_IterSolver_Meta / class-level state', 'sporco/common.py'),
   ('ConstrainedDict defaults', 'sporco/cdict.py'),
   ('ADMM / PGM state initialisation', 'sporco/admm/admm.py')],
  'runtime monitors: interleaving and thread stress, memory poisoning, '
  'read-only inputs, snapshot comparison',
  'Traces of states and statistics of each solver are compared with the '
  'trace of the same solver used alone.')

P('P20', 'Signal, image quality metric and interpolation tools match definitions',
  'Gradient operators and their adjoints, frequency-domain gradient filters, '
  'Tikhonov lowpass filtering, local contrast normalisation, Gaussian '
  'sampling, greyscale conversion, random masks and noise, error and image '
  'quality metrics, least absolute and least maximum deviation fits, Lanczos '
  'filters and demosaicing all agree with their documented definitions, for '
  'every shape, axis, data type (including integer images) and parameter '
  'value, without modifying their arguments.',
  ['inputs'], 'random arrays of 1-5 dims, real/complex/integer types, layouts, '
  'axes, parameters including limiting values',
  'Tests evaluate each function on one or two arrays of floating point type.',
  ['sporco/signal.py', 'sporco/metric.py', 'sporco/interp.py'],
  [('signal processing functions', 'sporco/signal.py'),
   ('metrics', 'sporco/metric.py'), ('interpolation', 'sporco/interp.py')],
  'runtime monitors: definitional oracles by independent evaluation',
  'References are explicit sums, dense matrices and exhaustive enumeration.')

P('P21', 'Timers, tiling, example images and downloads behave as documented',
  'A timer reports, for every history of start, stop, reset and context '
  'operations on any labels, exactly the time during which each label was '
  'running; dictionary tiling places every filter, scaled, in its own cell; '
  'example images are found and returned with the requested scaling, type, '
  'cropping, zoom and greyscale conversion; a download returns exactly the '
  'served bytes, retries timeouts up to the limit and otherwise reports '
  'failure.',
  ['inputs', 'histories', 'faults'], 'operation histories of timers; '
  'dictionary sizes and size specifications; image trees and access options; '
  'stalled, broken and refused connections',
  'Tests use one fixed history per class and no network faults.',
  ['sporco/util.py'],
  [('Timer and ContextTimer', 'sporco/util.py'),
   ('tiledict, ExampleImages, netgetdata', 'sporco/util.py')],
  'runtime monitors: interval model of time, reference layout, fault '
  'injecting loopback server',
  'Histories are checked online against bounds from bracketing clock '
  'readings.')

P('P22', 'Plug and play priors solvers iterate exactly on the supplied functions',
  'Plug and play priors solvers (ADMM, weighted ADMM consensus and proximal '
  'gradient), used either through functions or through a derived class, '
  'perform exactly the documented iteration on the data term proximal '
  'operators or gradients and the denoiser supplied by the user, evaluate '
  'each of them once per iteration with the current penalty or step '
  'parameter, keep the requested data type, converge to the documented '
  'equilibrium when the supplied functions are proximal operators, and do '
  'not modify their arguments.',
  ['inputs', 'histories'], 'data terms, denoisers that are and are not '
  'proximal operators, block weights, option sets, real and complex types, '
  'solve histories',
  'Tests run each class once and look at the final error only.',
  ['sporco/admm/ppp.py', 'sporco/pgm/ppp.py', 'sporco/admm/admm.py'],
  [('GenericPPP, PPP', 'sporco/admm/ppp.py'),
   ('GenericPPPConsensus, PPPConsensus', 'sporco/admm/ppp.py'),
   ('GenericPPP, PPP', 'sporco/pgm/ppp.py'),
   ('WeightedADMMConsensus', 'sporco/admm/admm.py')],
  'runtime monitors: trace replay with logged user functions',
  'The user functions log their arguments; every iteration is replayed from '
  'the recorded state; equilibria are compared with direct solutions.')

P('P23', 'CuPy variants of the solvers behave as the standard solvers',
  'The solvers and functions of sporco.cupy, whether arrays live on the '
  'device or CuPy is absent and the NumPy fallback is in use, compute the '
  'same iterates, statistics and results as the standard ones on the same '
  'problem without ever mixing host and device arrays; transfer, wrapper and '
  'device selection functions behave as documented; and importing '
  'sporco.cupy before or after the standard modules leaves the standard '
  'modules and their results unchanged.',
  ['inputs', 'histories', 'import order'],
  'random solvers with random problems and option sets, functions, import '
  'orders, presence of the device library and of the monitoring library',
  'The CuPy tests are not run without a GPU, and the fallback is not tested.',
  ['sporco/cupy/__init__.py', 'sporco/admm/admm.py', 'sporco/pgm/pgm.py',
   'sporco/linalg.py', 'sporco/prox/_lp.py'],
  [('import of module variants, fallback, wrappers',
    'sporco/cupy/__init__.py'),
   ('functions patched for CuPy', 'sporco/cupy/_cp_util.py'),
   ('shared solver code', 'sporco/admm/cbpdn.py')],
  'runtime monitors: differential traces on a strict device stand-in',
  'The stand-in for cupy refuses every mixture of host and device arrays; '
  'each trace is compared with the standard solver in the same process.')

P('P24', 'Progress display and timing statistics report the truth',
  'For every solver class the status display printed while solving has the '
  'documented structure (header, one row per iteration printed during that '
  'iteration, separators), its rows contain the values of the iteration '
  'statistics, and nothing is printed when display is off; the recorded time '
  'of each iteration is the time of the selected timer, never decreases, '
  'includes the work of the iteration and excludes time between solve calls '
  'and excluded evaluations; timers are stopped when solve returns; and '
  'transposed statistics agree with the records.',
  ['inputs', 'histories', 'time'], 'solver classes, random problems, display '
  'and timer options, injected delays, histories of solve calls',
  'Tests set Verbose off and never look at Time.',
  ['sporco/common.py', 'sporco/util.py', 'sporco/admm/admm.py',
   'sporco/pgm/pgm.py', 'sporco/dictlrn'],
  [('IterStatsConfig, display and iteration', 'sporco/common.py'),
   ('ADMM.solve, display_start, display_status', 'sporco/admm/admm.py'),
   ('PGM.solve, display_start', 'sporco/pgm/pgm.py'),
   ('DictLearn.solve, IterStatsConfig', 'sporco/dictlrn/dictlrn.py'),
   ('OnlineConvBPDNDictLearn.solve', 'sporco/dictlrn/onlinecdl.py'),
   ('ConvBPDNDictLearn_Consensus.solve', 'sporco/dictlrn/prlcnscdl.py')],
  'runtime monitors: parsed output and injected delays',
  'Output is captured with the time of writing and compared with the '
  'statistics; times are bounded from both sides with known delays.')

P('P25', 'Suspending, resuming and copying solvers does not alter their path',
  'For every solver class, dividing a run over several solve calls, ended by '
  'the iteration limit or by a callback and with calls of accessor methods '
  'in between, gives exactly the iterates and statistics of the '
  'uninterrupted run; a deep copy of a solver taken at any point, and a '
  'solver pickled before its first iteration, continues exactly as the '
  'original would, in any interleaving, and neither affects the other.',
  ['inputs', 'histories'], 'solver classes, random problems and options, '
  'partitions of runs, copy points, interleavings, pickle protocols, fresh '
  'processes',
  'Tests call solve once per object and never copy solvers.',
  ['sporco/admm/admm.py', 'sporco/pgm/pgm.py', 'sporco/dictlrn',
   'sporco/cdict.py', 'sporco/common.py'],
  [('ADMM.solve, iteration counter and AutoRho', 'sporco/admm/admm.py'),
   ('PGM.solve, momentum and step size state', 'sporco/pgm/pgm.py'),
   ('backtrack, momentum and stepsize objects', 'sporco/pgm'),
   ('DictLearn.solve', 'sporco/dictlrn/dictlrn.py'),
   ('class construction with dynamic bases', 'sporco/common.py')],
  'runtime monitors: metamorphic trace comparison',
  'Traces of divided, copied and pickled runs are compared with the trace of '
  'an uninterrupted run of an independent object.')

P('P26', 'Plots show the data supplied and respond to events as documented',
  'Each plotting function draws exactly the data, coordinates, scales, '
  'levels, colour range, labels and line properties supplied, in the figure '
  'and axes requested and nowhere else, shows only figures that it created, '
  'and does not modify its arguments; images are scaled as documented and '
  'report original pixel values at the pointer. Scroll wheel zoom applies '
  'only to the axes under the pointer, keeps the point there fixed and stays '
  'within the original view for either axis direction; keys resize or close '
  'only their own figure; notebook configuration takes effect only within a '
  'notebook.',
  ['inputs', 'histories', 'configurations'], 'data, coordinates, display '
  'options, arrangements of figures and axes, sequences of events',
  'Tests only call each function once, inspect nothing and send no events.',
  ['sporco/plot.py'],
  [('plot, surf, contour, imview', 'sporco/plot.py'),
   ('attach_zoom, attach_keypress', 'sporco/plot.py'),
   ('notebook configuration', 'sporco/plot.py')],
  'runtime monitors: artists and event traces against a model',
  'Artists held by the figures are compared with the data; scroll and key '
  'events are sent to the canvas and the limits, sizes and open figures '
  'compared with a model. Rendering by matplotlib is trusted.')
