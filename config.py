"""Properties -> harness units, options, bounds.  tools/gen.py turns this into MANIFEST.json."""


def unit(name, harness=None, **kw):
    d = {'name': name, 'harness': harness or name + '.cpp'}
    d.update(kw)
    return d


REAL = 'exact real arithmetic (IEEE rounding is outside the encoding; replay tolerances 1e-9 absolute, 1e-8 relative)'
FP = 'IEEE doubles (NaN and infinities included); *,/ and +,- are first abstracted by sound axioms, exact FP theory decides what remains'
PROPS = {}


def claim(pid, units, bounds, note, assumptions=()):
    PROPS[pid] = dict(units=units, bounds=bounds, note=note, assumptions=list(assumptions))


_V = 'NLCGLIB_DISABLE_NEWTON_EFERMI'
_OCC = dict(max_decisions=120, max_forks=7, decision_cut=True, lazy_feas=True, opaque=True)
MPI_A = 'MPI is a model: ranks run as deterministic coroutines, collectives have their MPI semantics on derived datatypes (extent, displacement), mismatched collectives and deadlocks are errors'
LA_A = 'BLAS/LAPACK are models of their documented contracts (engine/la_model.cpp); the real libraries are used when a counterexample is replayed'
TR_A = 'exp, erf, sqrt are constrained by axioms that are true of the real functions (signs, bounds, monotonicity, functional equations, Taylor bounds)'

claim('C01', [unit('c01f'), unit('c01', cfg=_OCC, thorough_cfg=dict(max_forks=10), envs=[{}, {_V: '1'}], budget=dict(quick=400, thorough=3000))],
      '2 k-points with 1-2 bands, 1-3 ranks incl. empty ones, |e| <= 1, weights in [0.2,1], kT 0.01 and 1, both settings of the Newton switch; search paths with at most 7 (10) two-sided decisions of the solver; searches and fallback after a failed Newton search: up to 6 (8) free occupation values in [-0.5,2.5], then one of 3 patterns; ' + REAL,
      'Every spectrum and weight set in the bounds; search paths that need more than 7 (10) branch decisions open in both directions are cut (counted in the evidence).', [MPI_A, TR_A])
claim('C02', [unit('c02', mode='fp', cfg=dict(goal_timeout=6000), budget=dict(quick=500, thorough=3000))],
      'bracketing: the first 4 (thorough 7) function values are arbitrary doubles incl. NaN/inf, the following ones one of 7 patterns (constant, sign-alternating, NaN, inf, root); Newton: up to 2 (3) steps with arbitrary values, derivatives and second derivatives; ' + FP,
      'All value histories within the stated number of free function values; all start points and tolerances of the listed configurations.', [])
claim('C03', [unit('c03')], '|x| <= 60, 0.25 <= mo <= 4; ' + REAL, 'All inputs within the bounds; IEEE rounding is outside the encoding.', [TR_A])
claim('C04', [unit('c04')], '|x| <= 60, 0.25 <= mo <= 4; ' + REAL, 'All inputs within the bounds; the derivative is formed symbolically from the executed expression.', [TR_A])
claim('C05', [unit('c05'), unit('c05s')], '|x| <= 60, 0.25 <= mo <= 4; total entropy: up to 3 ranks, 3 k-points, all distributions; ' + REAL,
      'All inputs within the bounds; IEEE rounding is outside the encoding.', [TR_A, MPI_A])
claim('C06', [unit('c06')], '2 (thorough 3) k-points, up to 2x2 coefficients, padded and unpadded host buffers, 1-2 ranks, five smearing types; ' + REAL,
      'All coefficients, occupations, energies, weights and host energies within the bounds, against a recording host.', [MPI_A, TR_A])
claim('C07', [unit('c07', mode='fp', cfg=dict(goal_timeout=6000, exact_feas=False, wit_timeout=1500), budget=dict(quick=500, thorough=3000))],
      'all free energies and slopes as IEEE doubles, 7 pairs of trial step and backtracking factor with up to 9 (14) backtracking steps; ' + FP,
      'All histories of energies for the listed (tau, trial step) pairs.', [])
claim('C08', [unit('c08', driver=True, cfg=dict(native_witness=True), budget=dict(quick=420, thorough=3600))],
      'the driver with one band of two components, overlap diag(0,1), preconditioner +-1, kappa = 0 (spectrum fixed), Fermi-Dirac; 1-4 (6) iterations, restart intervals 1-3 (4), the energies in [-4,4] and gradients (0.1 <= |h| <= 2) of 3-5 (8) consecutive new states free, the others fixed patterns; tolerance in [1e-3,3]; finite energies, non-zero curvature; ' + REAL,
      'All energies, gradients and tolerances within the bounds: every feasible path of the driver and line search; the directions themselves are C10/C18, the step C09, the line search on NaN/inf C07.', [MPI_A, LA_A])
_DIR = 'one band with symbolic overlap action and preconditioner (up to 2 components, 2 k-points) and two bands of three components with 2 (thorough 4) given overlap actions and preconditioners; 1-2 ranks, all distributions; degenerate pairs and pairs at least 1e-3 apart; |e|,|mu| <= 1, kT about 1; '
claim('C09', [unit('c09', cfg=dict(opaque_first=True))],
      'one band of 1-2 components and two bands of three components, 1-2 k-points, step lengths 0 and 0.01 <= |t| <= 2; the eigen-decompositions of the two Hermitian matrices are parametrised (rational unitary matrices, eigenvalues in [0.25,4] and [-2,2], arbitrary eigenvector phases); ' + REAL,
      'All coefficients, directions, eta and overlap actions within the bounds.', [LA_A])
claim('C10', [unit('c10', cfg=dict(opaque_first=True))], _DIR + 'Fermi-Dirac, Gauss and cold (thorough also Methfessel-Paxton) smearing; ' + REAL,
      'All coefficients, Hamiltonian actions, occupations, energies and weights within the bounds.', [MPI_A, LA_A, TR_A])
claim('C11', [unit('c11')],
      'one k-point with up to 2 (3) bands in three storage forms, degenerate pairs and pairs at least 1e-9 apart, |e|,|mu| <= 1, kT about 1; helper sums: 2 k-points, 1-2 (3) ranks, all distributions; |sum of delta| >= 1e-6 or exactly 0; ' + REAL,
      'All energies, occupations, Hermitian H, weights and chemical potentials within the bounds.', [MPI_A, TR_A])
claim('C12', [unit('c12')], 'rows/columns/inner dimension 1-3 in 7 (9) combinations, four storage forms (owned/external, padded/unpadded), complex scalars, eigenproblems n <= 2 (3), solves n <= 2 with 1-3 right-hand sides; ' + REAL,
      'All entries and scalars for the listed shapes and layouts.', [LA_A])
claim('C13', [unit('c13')], '1-3 ranks, up to 3 k-points, all distributions incl. empty ranks, element types double/complex/pair/vector; ' + REAL,
      'All values and distributions within the bounds; one deterministic schedule (collectives only, so the result does not depend on the schedule).', [MPI_A])
claim('C14', [unit('c14')], 'up to 4 keys from three key sets (small, second index up to 5, large), all subsets and two insertion orders, all values; ' + REAL, 'All key sets of up to four k-points.', [LA_A, 'threads of eval_threaded are executed one at a time (functions do not share mutable state)'])
claim('C15', [unit('c15')], 'up to 3x3 buffers, 3 paddings, row strides 1 and 2, memory types host/device/none; ' + REAL, 'All contents for the listed shapes and layouts.', [])
claim('C16', [unit('c16')], 'kinetic energies in [0,100], 2 k-points, up to 3x3 matrices, strided kinetic energies, padded/external matrices; ' + REAL,
      'All kinetic energies and entries within the bounds.', [])
claim('C17', [unit('c17'), unit('c17d', driver=True)], 'status codes {1,2,3,7,-1,-4,-1010}, matrices up to 2x2, temperatures in [-1e6,1e6], all entry points; ' + REAL,
      'All arguments within the bounds; the status codes are a list.', [LA_A])
claim('C18', [unit('c18', cfg=dict(opaque_first=True))], _DIR + 'gradient norms at least 1e-6 in magnitude, Fermi-Dirac and cold (thorough also Gauss and Methfessel-Paxton) smearing; ' + REAL,
      'All states, previous directions, rotations and gradient norms within the bounds.', [MPI_A, LA_A, TR_A])
claim('C19', [unit('c19', thorough_cfg=dict(max_forks=9), cfg=dict(max_decisions=200, max_forks=6, decision_cut=True, lazy_feas=True, opaque=True), budget=dict(quick=130, thorough=900),
                   envs=[{}, {_V: '0'}, {_V: '1'}, {_V: ''}, {_V: 'true'}, {_V: '00'}])],
      'six settings of the variable, five smearing types, 2 k-points, |e| <= 1, two temperatures; search paths with at most 6 (9) two-sided decisions; ' + REAL,
      'All spectra and weights within the bounds; longer search paths are cut (counted).', [TR_A])

claim('C20', [unit('c20', mode='fp', budget=dict(quick=400, thorough=1500)), unit('c20d', cfg=dict(const_atoms=12))],
      'one record: 1-2 (3) ranks, 1-3 k-points with 1-2 bands, three key sets, all distributions, steps 0, 7, 10 (30, 101), 0-2 energy components, finite doubles plus one group of up to three values at a time that may be NaN or infinite, with or without an earlier record; whole runs: 1, 2 and 12 iterations on 1-2 ranks with free energies and components, with or without a stale file; ' + FP,
      'All values for the listed layouts. Turning a double into decimal digits is outside (a stand-in writes a reference, the real formatting runs in replays); JSON structure, quoting, file handling, parsing back are executed.', [MPI_A])
claim('C23', [unit('c23', driver=True, cfg=dict(const_atoms=12), budget=dict(quick=400, thorough=3000))],
      'two k-points with free energies (three evaluations) or free gradients (two evaluations), or three k-points with a moving pseudo-Hamiltonian; all distributions over 2 (3; also quick for three k-points) ranks incl. empty ranks, reversed order of the k-points on one rank; 1-2 iterations, restart intervals 1-2, Fermi-Dirac and Gauss (three k-points and thorough: all five); one band (x,1) per k-point; ' + REAL,
      'All energies in [-4,4] and gradients in [-2,2] at the free evaluations.', [MPI_A, LA_A, TR_A])
claim('C22', [unit('c22', driver=True, cfg=dict(const_atoms=12))],
      'one band (x,1) per k-point, overlap diag(0,1), preconditioner 1; two k-points at -d,+d or one at 0; T in [3e3,3e5] K (symmetric types; one T for cold smearing), kappa in [0.01,2], tau in [0.02,0.9], tol in [1e-3,3], iteration limits 0-3 (5), restart intervals 1-3, five smearing types, both CPU entry points; ' + REAL,
      'All arguments within the bounds for the host described.', [LA_A, TR_A])

NA = {'C%02d' % i: 'check under construction' for i in range(1, 24)}
NA['C21'] = 'No CUDA or ROCm compiler or headers here: the GPU code can neither be compiled to IR nor encoded.'
