# source of properties.jsonl (python3 tools/gen.py)
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)


prop('C01', 'Occupation solve conserves the number of electrons',
     'Whenever the occupation solve returns for given band energies, k-point weights, temperature, smearing and electron count, the weighted sum of the returned occupations over all k-points of all ranks equals the electron count (to 1e-11; to 1e-2 when the Newton search for Methfessel-Paxton or cold smearing was accepted), every rank returns the same chemical potential, and the occupation of each band is the smearing function at (mu - energy)/kT. Otherwise it raises an error; it never returns occupations with a wrong electron count.',
     ['inputs', 'configurations'], 'all band energies, weights, electron counts, occupancies, smearing types, distributions of k-points over ranks (also ranks without k-points)',
     'test_smearing checks a few energy lists on one distribution; the electron count must hold for every spectrum, weight set and distribution.',
     ['src/smearing.hpp', 'src/dft/newton_minimization_smearing.hpp', 'src/la/mvector.hpp'],
     [('bracketing search with acceptance test', 'find_chemical_potential'), ('Newton search with charge test and fallback', 'newton_minimization_chemical_potential'),
      ('gather of energies and weights over ranks', 'occupation_from_mvector, mvector::allgather')], ['Smearing::fn'])
prop('C02', 'Chemical-potential root finders never return a non-root',
     'For any function, including one that returns NaN or infinities, is not monotone or has no root, the bracketing search returns only a point where the function was evaluated to be below the tolerance, and the Newton search returns only a point where the charge error is at most 1e-2; in every other case they raise an error after a bounded number of evaluations. The bracketing search always moves towards the side indicated by the sign of the function, enlarging the step while the sign repeats and shrinking it when the sign flips.',
     ['inputs', 'histories'], 'all sequences of function values (IEEE doubles incl. NaN/inf) seen by the searches',
     'tests use well-behaved monotone functions; flat, discontinuous or NaN-valued functions and the iteration cap are never reached.',
     ['src/smearing.hpp', 'src/dft/newton_minimization_smearing.hpp'],
     [('final acceptance test and throw', 'find_chemical_potential'), ('failed_to_converge on flat second derivative / max steps / charge mismatch', 'newton_minimization_chemical_potential')],
     ['return value / exception of the two search functions'])
prop('C03', 'Occupation functions are the named distributions',
     'For every argument and maximal occupancy, the Fermi-Dirac, Gaussian-spline, Gauss, Methfessel-Paxton and cold occupation functions equal their defining formula to 1e-11, cutoffs included: proportional to the maximal occupancy, full far below and empty far above the Fermi level, within [0, mo] and non-increasing in energy for the monotone types, and particle-hole symmetric for all but cold smearing.',
     ['inputs'], 'all x (|x| <= 60), all maximal occupancies in [0.25, 4], all five smearing types',
     'test_smearing samples a handful of points; a wrong cutoff, branch or factor shows only in narrow ranges.',
     ['src/smearing.hpp'], [('fn of the five smearing structs', 'fermi_dirac, gaussian_spline, cold_smearing, methfessel_paxton_smearing, gauss_smearing')])
prop('C04', 'Smearing derivatives are the exact derivatives',
     'For every smearing type, the broadened delta function is the derivative of the occupation function and its derivative routine is the derivative of delta, for every argument and maximal occupancy (to 1e-10 beyond the cutoffs); delta is non-negative for the monotone types.',
     ['inputs'], 'all x (|x| <= 60) and maximal occupancies in [0.25, 4]',
     'no test compares derivatives; a wrong factor in dxdelta only degrades Newton convergence or the gradient, it never fails a test.',
     ['src/smearing.hpp'], [('delta / dxdelta of the five smearing structs', 'src/smearing.hpp')])
prop('C05', 'Entropy is consistent with the occupations',
     'For every smearing type the entropy function satisfies ds/dx = -x delta(x), equals its defining formula to 1e-10, is proportional to the maximal occupancy, vanishes far from the Fermi level and is non-negative for the monotone types; the total entropy is minus the k-weighted sum of it over all bands of all k-points on all ranks, whatever the distribution.',
     ['inputs', 'configurations'], 'all x, maximal occupancies, band energies, weights, and distributions over ranks',
     'tests never evaluate the entropy; a missing factor makes the free energy non-variational without failing anything.',
     ['src/smearing.hpp', 'src/la/mvector.hpp'], [('entropy of the five smearing structs, Smearing::entropy', 'src/smearing.hpp'), ('reduction over ranks', 'sum(mvector)')])
prop('C06', 'Free energy is that of the state handed to the host',
     'Each free-energy evaluation first copies the given coefficients into the host buffers, then passes the given occupations keyed by their k-points, then triggers the host computation, reports the chemical potential, and only then reads the total energy; the free energy it stores is that total energy plus kb*T times the (signed) total entropy for the same energies and chemical potential, for every layout of the host buffers and every distribution of k-points.',
     ['inputs', 'histories', 'configurations'], 'all coefficients, occupations, energies, k-point sets and strides of the host buffers',
     'no test drives a host energy object; ordering and key pairing errors need a stateful host to show.',
     ['src/free_energy.hpp', 'src/la/mvector.hpp', 'include/interface.hpp'], [('FreeEnergy::compute', 'src/free_energy.hpp')], ['calls received by EnergyBase', 'get_F', 'get_entropy'])
prop('C07', 'Line search never accepts an energy increase',
     'For any energies the host returns (including NaN and infinities) and any slope, the line search returns only with a step whose free energy is not above the starting one, or with the state reset to the starting point and a restart requested; a second failure in a row raises the no-descent error and a positive slope raises the slope error before anything is evaluated. The returned state is always the one evaluated last, so host and optimiser agree, and the number of evaluations is bounded.',
     ['inputs', 'histories'], 'all sequences of energies returned by the host, all slopes, both values of the restart flag, trial step and backtracking parameter',
     'no test exercises the line search; failures need particular energy sequences (NaN, negative curvature, all trial points higher).',
     ['src/linesearch/linesearch.hpp'], [('quadratic search with acceptance test', 'line_search::qline'), ('backtracking', 'line_search::bt_search')], ['result, exceptions and the restart flag of line_search::operator()'])
prop('C08', 'Driver reports truthfully and never climbs',
     'For any energies and gradients the host returns, the optimiser reports convergence exactly when, before the iteration limit, the slope of the search direction is below the tolerance in magnitude, and then the reported free energy, entropy, residual (the slope) and iteration count are those of the state left in the host. From one iteration to the next the free energy never increases; without convergence it stops only at the iteration limit, after two failed searches in a row (or one after a forced restart) or at an uphill steepest-descent slope, with converged=false, or raises an error. Directions are steepest descent after iterations 0, r, 2r, ... of a restart interval r, after a failed search and when the conjugate direction points uphill, and conjugate otherwise.',
     ['histories', 'inputs', 'configurations'], 'all energies and gradients returned by the host (a function of the state) over up to four (thorough six) iterations, tolerances, restart intervals, iteration limits',
     'no test runs the optimiser end to end; reporting errors need specific energy sequences.',
     ['src/nlcglib.cpp', 'src/linesearch/linesearch.hpp', 'src/mvp2/descent_direction.hpp'], [('main loop', 'nlcg_us'), ('reporting', 'print_info')], ['nlcg_info returned by nlcg_us_cpu', 'calls received by the host'])
prop('C09', 'Geodesic steps keep orbitals orthonormal and diagonalise eta',
     'For every step length, coefficients, search direction, pseudo-Hamiltonian and positive-definite overlap operator, the new coefficients satisfy X^H S X = 1, the returned energies are the ascending eigenvalues of eta + t*z_eta, the returned rotation is unitary and diagonalises it, and the new coefficients are the S-orthonormalised X + t*z_X rotated by it; a step of length zero returns the orbitals rotated by the eigenvectors of eta. Inputs are not modified and k-points are processed independently.',
     ['inputs', 'configurations'], 'all coefficients, directions, hermitian eta and z_eta, overlap operators and t, for small matrix sizes and several k-points',
     'tests multiply small random matrices; orthonormality must hold for every input and step.',
     ['src/geodesic.hpp', 'src/la/lapack.hpp', 'src/la/lapack_cpu.hpp'], [('Loewdin orthonormalisation', 'loewdin'), ('eigen-decomposition and transform', 'geodesic, eigvals_and_vectors, transform_alloc')])
prop('C10', 'Search directions are tangent descent directions',
     'For every state, hermitian Hamiltonian action, overlap and positive-definite preconditioner, the steepest-descent direction for the orbitals is minus the preconditioned projected gradient and tangent (X^H S z_X = 0), the one for the pseudo-Hamiltonian is kappa*(H - diag(e)); the reported slope is twice the real inner product of orbital gradient and direction plus the real inner product of pseudo-Hamiltonian gradient and direction, k-point weights included, summed over all ranks and equal on every rank; its orbital part is never positive, and neither is the rest for monotone smearing.',
     ['inputs', 'configurations'], 'all coefficients, occupations, Hamiltonian actions, weights, small sizes, several k-points and ranks',
     'no test evaluates descent directions.',
     ['src/mvp2/descent_direction.hpp', 'src/mvp2/descent_direction_impl.hpp'], [('Lagrange multipliers, gradient, slope', 'descent_direction_impl')])
prop('C11', 'Pseudo-Hamiltonian gradient is the derivative of the free energy',
     'For every spectrum, Hamiltonian matrix, temperature and smearing type the gradient with respect to eta is the derivative of the free energy at fixed electron number: off-diagonal entries are (f_j-f_i)/(e_j-e_i) H_ij (the derivative of the occupation for degenerate pairs), the diagonal carries the occupation derivative and the chemical-potential response, and a uniform shift of eta leaves the energy unchanged (zero trace after weighting over all k-points). The helper sums for dF/dmu and the normalisation run over all ranks.',
     ['inputs', 'configurations'], 'all energies, hermitian H, mu, T, weights, smearing types; degenerate and nearly degenerate pairs; distributions over ranks',
     'no test evaluates the gradient; a wrong sign or argument only slows convergence.',
     ['src/pseudo_hamiltonian/grad_eta.hpp', 'src/mvp2/descent_direction_impl.hpp'], [('GradEta::g_eta, GradEtaHelper', 'src/pseudo_hamiltonian/grad_eta.hpp')])
prop('C12', 'Dense linear-algebra wrappers compute the operation they name',
     'For all shapes, scalars and memory layouts, inner products, outer products, transforms, scaled additions, row/column scalings, norms, traces, Hermitian eigenvalue decompositions and positive-definite solves return exactly the mathematical result, including for padded (strided) storage; an output scaled by zero does not depend on the previous content of the output, and inputs are not modified.',
     ['inputs', 'configurations'], 'all matrix entries and scalars; rows and columns up to 3; leading dimension equal to or larger than the number of rows',
     'unit tests use square or fixed-size matrices with unit strides and one pair of scalars.',
     ['src/la/lapack.hpp', 'src/la/lapack_cpu.hpp', 'src/la/cblas.hpp', 'src/la/utils.hpp', 'src/la/dvector.hpp'], [('BLAS/LAPACK wrappers', 'src/la/lapack_cpu.hpp, src/la/cblas.hpp')])
prop('C13', 'Distributed reductions and gathers do not depend on the distribution',
     'For every distribution of entries over ranks, including ranks that hold nothing, sums over a distributed quantity equal the sum over all entries on every rank, gathered collections contain every rank\'s entries with their keys exactly once and with unchanged values on every rank, and no rank ends up waiting for a call the others do not make.',
     ['configurations', 'inputs', 'schedules'], 'all values, up to 3 ranks, all distributions of a few k-points incl. empty ranks, element types used by the library',
     'MPI tests run with 1 and 2 ranks and equal shares.',
     ['src/mpi/communicator.hpp', 'src/mpi/mpi_type.hpp', 'src/la/mvector.hpp'], [('allreduce/allgather wrappers and struct datatypes', 'src/mpi'), ('mvector::allgather, sum', 'src/la/mvector.hpp')])
prop('C14', 'Per-k-point operations pair entries by k-point key',
     'Operations over several k-point collections combine exactly the entries that carry the same k-point key, evaluate the function once per key with the arguments in the given order, keep the keys in the result (lazy results and products also the communicator), and splitting a collection of tuples keeps every component with its key; lazily and concurrently evaluated versions give the same values.',
     ['inputs', 'configurations', 'schedules'], 'all key sets of a few k-points, all values, all insertion orders',
     'test_utils uses one small map; key mix-ups need several k-points with particular keys.',
     ['src/la/mvector.hpp', 'src/traits.hpp', 'src/operator.hpp'], [('tapply / tapply_async / unzip / eval_threaded / operator*', 'src/la/mvector.hpp')])
prop('C15', 'Host buffers are viewed with their real layout, in place',
     'Matrices, vectors and scalars obtained from the host are views of the host memory with the host\'s sizes, strides and k-point keys: reading an element reads the host\'s element, writing writes it, padding bytes are never touched, and copies are independent of the host memory; a buffer in the wrong memory type or with an unsupported stride is refused with an error rather than misread.',
     ['inputs', 'configurations'], 'all buffer sizes up to 3x3, all leading dimensions >= rows, all contents, memory types',
     'test_buffer/test_stride use one size each.',
     ['src/la/mvector.hpp', 'src/la/dvector.hpp', 'src/la/layout.hpp', 'src/la/map.hpp', 'include/interface.hpp'], [('make_mmatrix, make_mmvector, make_mmscalar, KokkosDVector', 'src/la')])
prop('C16', 'Preconditioner is the documented positive diagonal scaling',
     'The kinetic preconditioner multiplies each plane-wave row by (27+18y+12y^2+8y^3)/(27+18y+12y^2+8y^3+16y^4) of its kinetic energy: a factor in (0, 1] that is 1 at zero energy and decreases monotonically; every column and k-point is scaled by its own kinetic energies and applying it allocates a new result without touching the input.',
     ['inputs', 'configurations'], 'all kinetic energies >= 0 and matrix entries, small sizes, several k-points',
     'no test covers the preconditioner.',
     ['src/preconditioner.hpp'], [('PreconditionerTeter', 'src/preconditioner.hpp')])
prop('C17', 'Failures are reported, never silently ignored',
     'Entry points that are not available in this build raise an error instead of returning a result, an unknown smearing type or a temperature that is not positive is refused, and a failing eigenvalue or Cholesky routine (non-zero status, matrix not positive definite) surfaces as an error to the caller instead of a result.',
     ['inputs', 'fault_sequences', 'configurations'], 'all status codes of the LAPACK calls, all arguments of the entry points, all temperatures <= 0',
     'tests never make a library call fail.',
     ['src/nlcglib.cpp', 'src/smearing.hpp', 'src/la/lapack_cpu.hpp', 'src/la/lapack.hpp'], [('status checks and throws', 'eigh, solve_sym, Smearing::Smearing, nlcg_mvp2_*')])
prop('C18', 'Conjugate directions follow the Fletcher-Reeves update',
     'For every state and previous direction, the conjugate direction is the new steepest-descent direction plus gamma times the previous direction transported to the new basis, with gamma the ratio of the new to the old gradient norm (non-zero); the reported slope is the inner product of that combined direction with the gradient summed over all ranks, and the orbital part remains tangent.',
     ['inputs', 'histories', 'configurations'], 'all previous directions, rotations, states, ratios, small sizes, several k-points',
     'no test evaluates conjugate directions.',
     ['src/mvp2/descent_direction.hpp', 'src/mvp2/descent_direction_impl.hpp'], [('conjugated()', 'src/mvp2/descent_direction.hpp')])
prop('C19', 'Newton search is disabled exactly when the user asks',
     'Setting NLCGLIB_DISABLE_NEWTON_EFERMI to anything but "0" makes every occupation solve use the bracketing search, unset or "0" makes Methfessel-Paxton and cold smearing use Newton from the Gauss solution and fall back to the bracketing search when Newton fails; the monotone smearing types never use Newton.',
     ['configurations', 'inputs'], 'all settings of the variable, all smearing types, all energies',
     'tests run with one environment and cannot see which search produced the result.',
     ['src/utils/env.hpp', 'src/smearing.hpp'], [('get_skip_newton_efermi', 'src/utils/env.hpp'), ('occupation_from_mvector1', 'src/smearing.hpp')])
prop('C20', 'Step log is well-formed and complete',
     'The step log nlcg.json is a sequence of valid JSON objects, one for each iteration the current run reports: a file of an earlier run is removed, later records are appended, and only the first rank writes. A record holds the step number, the free energy, KS energy, entropy, slope, Fermi energy and the energy components of the state reported, and every tenth record the energies and occupations of every k-point of all ranks under its index; NaN and infinite values become null.',
     ['inputs', 'histories'], 'all values incl. non-finite, all iteration counts',
     'no test reads the log.',
     ['src/utils/step_logger.hpp', 'src/nlcglib.cpp'], [('StepLogger', 'src/utils/step_logger.hpp')])
prop('C21', 'GPU back ends agree with the CPU back end',
     'With CUDA or ROCm every linear-algebra wrapper and the optimiser return the same results as on the CPU.',
     ['inputs', 'configurations'], 'all inputs on GPU builds', 'the sandbox has no GPU tool chain and the tests run on the CPU only.',
     ['src/la/cuda.hpp', 'src/la/rocm.hpp', 'src/la/lapack_cuda.hpp', 'src/la/lapack_rocm.hpp'], [('GPU wrappers', 'src/la')])
prop('C22', 'Entry points honour their arguments',
     'The CPU entry points nlcg_us_cpu and nlcg_us_device_cpu run the same optimisation with exactly the arguments given: the requested smearing distribution and temperature decide occupations, entropy, free energy and slope, kappa scales the step of the pseudo-Hamiltonian, tau is the backtracking factor of the line search, and tolerance, iteration limit and restart interval end and restart the iteration as requested, for all five smearing types.',
     ['inputs', 'configurations'], 'all temperatures, kappa, tau, tolerances, iteration limits, restart intervals, smearing types and CPU entry points',
     'no test runs the optimiser.',
     ['src/nlcglib.cpp', 'include/nlcglib.hpp', 'src/linesearch/linesearch.hpp', 'src/free_energy.hpp'], [('nlcg_us_cpu, nlcg_us_device_cpu, nlcg_us', 'src/nlcglib.cpp')])
prop('C23', 'A distributed run is the run on one rank',
     'Distributing the k-points over the ranks of the communicator in any way (empty ranks included), or handing them over in another order, does not change the optimisation: every rank evaluates the same number of states with the same coefficients, occupations and chemical potential for its k-points, reports the same iterations, and returns the same convergence flag, iteration, free energy, entropy and residual as the run on a single rank.',
     ['configurations', 'inputs', 'histories'], 'all distributions of the k-points over ranks, all host energies and gradients',
     'no test runs the optimiser, and the distributed tests check single collectives on one fixed layout.',
     ['src/nlcglib.cpp', 'src/free_energy.hpp', 'src/mvp2/descent_direction.hpp', 'src/la/mvector.hpp', 'src/smearing.hpp'], [('nlcg_us', 'src/nlcglib.cpp'), ('sum, innerh_reduce, l2norm', 'src/la/mvector.hpp')])
