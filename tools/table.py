ENUM = ('Exact: every random draw of the call is enumerated through a branching generator, so the '
        'compared law has no sampling error; models are small (ground sets of 1..6 items, a few '
        'of 10..26 items with low rank), integer-valued, so that TLC computes the expected law exactly. ')
FD = 'dppy/finite_dpps.py'
EX = 'dppy/exact_sampling.py'
IM = 'dppy/intermediate_sampling.py'
MC = 'dppy/mcmc_sampling.py'

prop('F01', 'Exact finite DPP samplers draw from the determinantal law',
     'Whatever representation a finite DPP is given in (likelihood or correlation kernel, its '
     'eigendecomposition, a feature factor, a likelihood function with data, a projection kernel) '
     'and whichever exact sampling mode valid for it is chosen, a returned sample is a list of '
     'distinct items of the ground set and equals a given subset with exactly the probability the '
     'determinantal law assigns to it. Subsets of zero probability are never returned and no '
     'subset of positive probability is missing, including for rank-deficient kernels, identical '
     'or impossible items and eigenvalues equal to 0 or 1.',
     ['inputs', 'configurations'],
     'All positive semi-definite kernels, all their representations, all exact sampling modes.',
     'The existing sampler tests compare empirical frequencies of a few thousand draws on one '
     'fixed random kernel per mode and are not among the stable tests; a few percent of bias, a '
     'mishandled degenerate kernel or representation passes.',
     [FD, EX],
     [('mode and representation dispatch', FD + ':sample_exact'),
      ('eigenvector selection and chain rule', EX + ':dpp_eig_vecs_selector, proj_dpp_sampler_*'),
      ('generic kernel sampler', EX + ':dpp_sampler_generic_kernel')],
     ['FiniteDPP.sample_exact'], ENUM)

prop('F02', 'k-DPP samplers return exactly k items with the k-DPP law',
     'A k-DPP call returns exactly k distinct items, and a subset of k items is returned with '
     'probability proportional to the determinant of the likelihood kernel restricted to it, for '
     'every representation and every mode valid for it. Asking a projection DPP for another '
     'number of items than its law allows, or any DPP for more items than there are, raises an '
     'error.',
     ['inputs', 'configurations'],
     'All kernels and representations, all k from 1 to the rank, all modes; sizes beyond.',
     'Tests check the cardinality and singleton frequencies of a few fixed kernels with loose '
     'statistical tolerance.',
     [FD, EX],
     [('k-DPP dispatch', FD + ':sample_exact_k_dpp'),
      ('eigenvector selection by elementary symmetric polynomials', EX + ':k_dpp_eig_vecs_selector'),
      ('size checks', EX + ':proj_dpp_sampler_kernel, proj_dpp_sampler_eig')],
     ['FiniteDPP.sample_exact_k_dpp'], ENUM)

prop('F03', 'Rejection samplers (vfx, alpha) are exact, whatever their tuning',
     'The two rejection sampling modes return samples from the exact DPP law (from the exact '
     'k-DPP law when a size is requested), on the first call as well as on later calls of the '
     'same kind that reuse the precomputed approximation. This holds for every dictionary the '
     'preprocessing may draw and every value of the documented tuning parameters, which only '
     'change the running time; a request for a smaller expected size leaves the law conditional '
     'on the size unchanged.',
     ['inputs', 'configurations', 'histories'],
     'All data sets and likelihood functions, all oversampling factors and intensity functions, '
     'all precomputed dictionaries, first and later calls.',
     'The tests draw a thousand samples of one kernel; the accepted law depends on a rejection '
     'step whose bias is invisible at that size.',
     [IM, EX, FD],
     [('acceptance probability and intermediate sample size', IM + ':vfx_sampling_do_sampling_loop, alpha_dpp_sampling_do_sampling_loop'),
      ('precomputation', IM + ':vfx_sampling_precompute_constants, alpha_dpp_sampling_precompute_constants'),
      ('size rejection', EX + ':k_dpp_vfx_sampler, alpha_k_dpp_sampler')],
     ['FiniteDPP.sample_exact', 'FiniteDPP.sample_exact_k_dpp'],
     ENUM + 'The law of one rejection round given acceptance is enumerated (rounds are '
     'independent); Poisson draws are truncated and the truncated mass is added to the tolerance '
     '(0.001% to a few percent).')

prop('F04', 'MCMC samplers leave the target law invariant and can reach all of it',
     'Each finite MCMC sampler (add-delete, basis exchange, add-exchange-delete) is a Markov '
     'chain for which the target DPP law (the k-DPP law for basis exchange) is stationary. It '
     'never leaves the support of that law, can reach every subset of the support from every '
     'other, and what it does next depends on its past only through the current subset, so its '
     'bookkeeping of the current state never drifts.',
     ['inputs', 'configurations', 'histories'],
     'All kernels and representations, all current subsets (empty and full included), all runs.',
     'No test looks at the transition probabilities; the tests run a chain once and compare '
     'marginals loosely.',
     [MC, FD],
     [('acceptance ratios and state updates', MC + ':add_exchange_delete_sampler, add_delete_sampler, basis_exchange_sampler'),
      ('kernel used per mode', FD + ':sample_mcmc, sample_mcmc_k_dpp')],
     ['FiniteDPP.sample_mcmc', 'FiniteDPP.sample_mcmc_k_dpp'],
     ENUM + 'The whole one-step transition matrix is enumerated from every subset of the support '
     '(up to 5 items) and TLC checks invariance, irreducibility and, on paths of 2 further steps, '
     'the Markov property. The zonotope chain needs the cvxopt package, absent here.')

prop('F05', 'MCMC trajectories are well formed and respect their parameters',
     'The recorded trajectory of a finite MCMC call starts at the given initial sample (or at one '
     'the sampler found in the support of the target), has nb_iter states when no time budget '
     'runs out, and each recorded state is a set of distinct items of positive probability one '
     'legal move (add, delete, exchange or stay, as the mode allows) away from the previous one. '
     'The call returns the last recorded state, records the trajectory once and leaves the given '
     'initial sample alone. A time budget only truncates the trajectory: it never changes it, '
     'and it does stop the run.',
     ['histories', 'inputs', 'configurations'],
     'All kernels, modes, seeds, initial samples, numbers of iterations and time budgets.',
     'Invariant of every step of every run; the tests only look at samples pooled over one run.',
     [MC, FD],
     [('chains', MC + ':add_exchange_delete_sampler, add_delete_sampler, basis_exchange_sampler'),
      ('initialisation', MC + ':initialize_AED_sampler, initialize_AD_and_E_sampler')],
     ['FiniteDPP.sample_mcmc', 'FiniteDPP.list_of_samples'],
     'Recorded trajectories of seeded runs (hundreds per check) are replayed as behaviours of a '
     'TLA+ trace specification. Sampled runs, not all runs.')

prop('F06', 'A call on a FiniteDPP object does not depend on the calls made before it',
     'For every history of calls on one finite DPP object (exact and k-DPP samplings in any modes '
     'and sizes, MCMC runs, rejection samplings, kernel computations, flushes, refused calls), the '
     'law of the next call, or the kernel it computes, or the error it raises, is the same as on a '
     'freshly built object: cached kernels, eigendecompositions, polynomials and precomputations '
     'never leak from one request into another.',
     ['histories', 'configurations'],
     'All sequences of calls on one object, for every representation.',
     'The tests use a fresh object per sampler and mode; leaks through the caches show only for '
     'particular sequences of calls.',
     [FD, EX],
     [('cached eigendecompositions and polynomials', FD + ':sample_exact, sample_exact_k_dpp'),
      ('cached precomputations', FD + ':intermediate_sample_info'),
      ('kernel conversions', FD + ':compute_K, compute_L')],
     ['FiniteDPP.sample_exact', 'FiniteDPP.sample_exact_k_dpp', 'FiniteDPP.sample_mcmc',
      'FiniteDPP.compute_K', 'FiniteDPP.compute_L'],
     'All histories of length 2 over 24 calls and 12 representations (length 3 over a core of 12 '
     'calls in the thorough tier) are generated by TLC; the law of the last call is enumerated.')

prop('F07', 'The record of samples grows by exactly what each call returns',
     'After every call on a finite DPP object, list_of_samples holds exactly one entry per '
     'successful sampling call since the last flush, in order: an exact or k-DPP call appends the '
     'very sample it returns, an MCMC call its whole trajectory ending with the returned state; a '
     'refused or failed call, a kernel computation or a display leaves it as it was; earlier '
     'entries never change; flush empties it and info reports its length. Invalid modes and sizes '
     'raise ValueError.',
     ['histories'],
     'All sequences of calls, valid or not, on one object.',
     'The tests never look at the record after mixed, failing or flushed calls.',
     [FD],
     [('record', FD + ':list_of_samples, flush_samples, __str__'),
      ('mode checks', FD + ':sample_exact, sample_exact_k_dpp, sample_mcmc')],
     ['FiniteDPP.list_of_samples', 'FiniteDPP.flush_samples', 'FiniteDPP.info'],
     'Random histories of 8 calls drawn by TLC from the specification (400 quick, 4000 thorough) '
     'are replayed on real objects and checked step by step against the state machine.')

prop('F08', 'The correlation and likelihood kernels of an object agree',
     'compute_K and compute_L produce, from whatever representation a finite DPP was given in and '
     'whatever was computed or sampled on the object before, the one correlation kernel '
     'K = L (I + L)^-1 and the one likelihood kernel L = K (I - K)^-1 of its law; for a zonotope '
     'representation K projects on the row space of A. A kernel, once computed, is not changed by '
     'later calls. When K has an eigenvalue equal to 1, compute_L raises an error.',
     ['inputs', 'histories'],
     'All kernels, representations and prefixes of calls.',
     'The tests compare the two kernels of one random object built fresh, per representation.',
     [FD],
     [('kernel conversions', FD + ':compute_K, compute_L'), ('dual factor', FD + ':__compute_eig_dec_from_L_dual')],
     ['FiniteDPP.compute_K', 'FiniteDPP.compute_L'],
     'Integer models with every representation and 10 prefixes of calls; TLC checks the defining linear '
     'equations K (I + L) = L, L (I - K) = K on the scaled matrices exactly up to their rounding.')

prop('F09', 'Invalid descriptions and impossible requests are refused, for good',
     'FiniteDPP accepts a description exactly when its kernel type and projection flag are of the '
     'documented kind and the parameters given are those of that type: a symmetric kernel, '
     'eigenvalues in the documented range with orthonormal vectors, a full row rank factor, a '
     'callable with a non empty data matrix; anything else raises ValueError at once, and a '
     'symmetric matrix that is no kernel when it is first sampled from or converted, however often it is asked. '
     'A mode unknown or unavailable for the representation, a size a projection cannot have, or a '
     'bad seed raise ValueError, leave the record as it was and do not disturb later valid calls.',
     ['inputs', 'configurations', 'histories'],
     'All descriptions (types, flags, parameters, combinations) and all refused calls after any history.',
     'The tests construct a handful of invalid objects; whether the refusal is complete, of the '
     'documented class and repeatable is not looked at.',
     [FD, 'dppy/utils.py'],
     [('constructor checks', FD + ':__init__, __check_args_coherence'),
      ('matrix predicates', 'dppy/utils.py:is_symmetric, is_projection, is_orthonormal_columns, is_in_01, is_geq_0, is_equal_to_O_or_1, is_full_row_rank'),
      ('call checks', FD + ':sample_exact, sample_exact_k_dpp, sample_mcmc')],
     ['FiniteDPP', 'FiniteDPP.sample_exact', 'FiniteDPP.sample_mcmc'],
     'About 950 descriptions and 1000 refused calls after four prefixes, each decided by the '
     'specification (DescOK, KernelOK) from the integer data. Descriptions between the cheap test '
     'documented for projections and a true projection are not claimed.')

prop('F10', 'The zonotope chain moves between tiles so as to target the projection DPP',
     'The states of the zonotope chain are the bases of the tiles of the zonotope, for the linear '
     'objective of the run, in which its points lie, the first one being that of the starting point. '
     'A move goes to a point drawn uniformly on the chord of the zonotope through the current point in '
     'the direction drawn, and is accepted with the ratio of the volumes of the tiles, so that the '
     'stationary law of the tile is that of the projection DPP. The whole chain is recorded and its '
     'last state returned.',
     ['inputs', 'histories'], 'All feature matrices, objectives, starting points and streams.',
     'The existing tests of this sampler need cvxopt and compare frequencies loosely; nothing checks the tile of a point.',
     ['dppy/mcmc_sampling.py'], [('chain', 'dppy/mcmc_sampling.py:zonotope_sampler'),
                                 ('tile', 'dppy/mcmc_sampling.py:extract_basis')],
     ['FiniteDPP.sample_mcmc', 'zonotope_sampler', 'extract_basis'],
     'Tilings and one-step laws exact in TLA+ (integer matrices, Cramer determinants), 22 (60) matrices with r <= 3, N <= 5, '
     'one move after 0 or 1 scripted moves, position on the chord by a grid of 128 (256) points; cvxopt, which is not '
     'installed, is replaced by a stand-in with the same interface over the linear programming of scipy.')

prop('F11', 'Samplers given a kernel directly are exact, even not real symmetric',
     'The generic kernel sampler returns a sample with the determinantal law of any correlation '
     'kernel, non symmetric ones included, together with the LU factors of K minus the indicator '
     'of the items left out. The Cholesky sampler of projection kernels draws from the law of a '
     'complex Hermitian projection and returns the Cholesky factor of the kernel restricted to '
     'the sample, in the order drawn.',
     ['inputs'],
     'All admissible kernels, real or complex, symmetric or not.',
     'Not tested for non symmetric or complex kernels; the returned factors are never looked at.',
     [EX],
     [('generic sampler', EX + ':dpp_sampler_generic_kernel'), ('Cholesky sampler', EX + ':proj_dpp_sampler_kernel_Chol')],
     ['dpp_sampler_generic_kernel', 'proj_dpp_sampler_kernel'], ENUM)

prop('E01', 'Symmetric polynomials and eigenvector selections follow their definitions',
     'elementary_symmetric_polynomials returns e_k of the first n eigenvalues at [k, n] for all '
     'k up to size and all n. The k-DPP selector returns exactly k distinct given eigenvectors, a '
     'set of them with probability proportional to the product of their eigenvalues, whatever '
     'larger table it is handed, and refuses k above the number of non zero eigenvalues; the DPP '
     'selector keeps each eigenvector independently with its own probability. Minors (det_ST) and '
     'inner products (inner1d) used throughout equal their definitions.',
     ['inputs'],
     'All non negative spectra, all sizes, tables of any larger order, rectangular eigenvector arrays.',
     'The tests check cardinality and one frequency comparison for a fixed spectrum.',
     [EX, 'dppy/utils.py'],
     [('polynomials', EX + ':elementary_symmetric_polynomials'),
      ('selection', EX + ':k_dpp_eig_vecs_selector, dpp_eig_vecs_selector'),
      ('minors', 'dppy/utils.py:det_ST, inner1d')],
     ['elementary_symmetric_polynomials', 'k_dpp_eig_vecs_selector', 'dpp_eig_vecs_selector'],
     ENUM + 'Integer spectra of up to 7 values in the quick tier; tables that overflow a double are outside the bounds.')

XD = 'dppy/exotic_dpps.py'
XC = 'dppy/exotic_dpps_core.py'

prop('P01', 'Random permutations are uniform',
     'The permutation generator behind the descent and Plancherel processes returns an '
     'arrangement of 0..N-1 in which every item appears once, each of the N! arrangements having '
     'the same probability, for every N including 0 and 1.',
     ['inputs'], 'All sizes N, all random streams.',
     'Tests look at aggregated counts over one seed; a permutation that is never produced or is '
     'produced twice as often does not move them.',
     [XC], [('Fisher-Yates shuffle', XC + ':uniform_permutation')], ['uniform_permutation'],
     ENUM + 'N <= 5 (6 in the thorough tier); larger sizes are only checked to be permutations.')

prop('P02', 'RSK returns the insertion and recording tableaux of any sequence',
     'For every finite sequence of reals, repeated values included, RSK returns two tableaux of '
     'the same shape: the insertion tableau holding the values of the sequence (rows weakly, '
     'columns strictly increasing) and the standard recording tableau holding the order in which '
     'cells appeared, exactly those of row insertion; its first row and first column have the '
     'lengths of the longest weakly increasing and strictly decreasing subsequences; exchanging a '
     'permutation for its inverse exchanges the two tableaux. The sequence given is unchanged.',
     ['inputs'], 'All sequences of reals, in any container.',
     'One worked example is tested.',
     [XC], [('row insertion', XC + ':RSK')], ['RSK'],
     'TLC explores the insertion machine over all permutations of 5 and all words of length 4 and '
     'checks the theorems; the code is compared with it on all permutations up to 5 (6 thorough), '
     'all words up to length 4 (5) and random words of length 8, 12 and 20.')

prop('P03', 'Poissonized Plancherel samples have the Plancherel law',
     'A Poissonized Plancherel sample of parameter theta records a partition lambda with '
     'probability exp(-theta) theta^n (f_lambda / n!)^2, where n is its size and f_lambda its '
     'number of standard tableaux, together with the half-integer points lambda_i - i + 1/2 of '
     'that same partition, one entry in each of the two records per call. The boundary lines '
     'drawn for a diagram are those of that partition.',
     ['inputs', 'histories'], 'All intensities theta, all streams, all partitions.',
     'Tests draw a few samples at one theta and look at an average.',
     [XD, XC], [('sampling', XD + ':PoissonizedPlancherel.sample'),
                ('diagram lines', XC + ':xy_young_ru')],
     ['PoissonizedPlancherel.list_of_samples', 'PoissonizedPlancherel.list_of_young_diag'],
     ENUM + 'theta in 1/4..3/2 (2 in the thorough tier), Poisson tail cut below 0.1%; diagrams of '
     'all partitions of size <= 8 (10).')

prop('D01', 'Carries, descent and virtual descent processes have their exact laws',
     'For every size the descent process returns the descent set of a uniform permutation, the '
     'carries process the positions of the carries in the running sum of uniform digits of the '
     'base, and the virtual descent process the descents of a permutation in which each point is '
     'fixed with probability x_0; positions are returned increasing, each call appends exactly '
     'its sample and earlier entries are kept, a flush empties the record. The documented '
     'intensity of each process is its exact inclusion probability, and x_0 outside [0, 1] is '
     'refused.',
     ['inputs', 'histories'], 'All sizes, bases, values of x_0, sequences of calls.',
     'Tests compare the mean number of points with its expectation at one parameter value: any '
     'law with the same mean passes.',
     [XD], [('processes', XD + ':CarriesProcess, DescentProcess, VirtualDescentProcess'),
            ('record', XD + ':Descent.flush_samples')],
     ['CarriesProcess.sample', 'DescentProcess.sample', 'VirtualDescentProcess.sample'],
     ENUM + 'Sizes up to 5 (6), bases 2..10, seven values of x_0.')

prop('U01', 'Spanning tree samplers draw uniformly among all spanning trees',
     'For every connected graph with nodes 0..n-1, n at least 2, every sampling mode and every root, '
     'the sample is a spanning tree made of edges of the graph (self-loops being never used) and '
     'every spanning tree has the same probability. The two random-walk samplers and the five determinantal ones have the same law.',
     ['inputs', 'configurations'], 'All connected graphs, modes, roots and streams.',
     'The repository has no test of the law of spanning tree samples.',
     [XC, XD], [('loop-erased walks', XC + ':ust_sampler_wilson'),
                ('first-entrance tree', XC + ':ust_sampler_aldous_broder'),
                ('determinantal modes', XD + ':UST.sample')],
     ['UST.sample', 'UST.list_of_samples'],
     'The random-walk samplers are modelled on every connected graph with 4 nodes. The '
     'determinantal modes are enumerated exactly on 14 graphs; the walks of the random-walk modes '
     'are enumerated down to a small probability on the smallest graphs and sampled (20000 draws, '
     '200000 thorough, 7 sigma tolerance) on the others.')

prop('U02', 'A spanning tree object has the right kernel, record and refusals',
     'The correlation kernel of a spanning tree object is the transfer current matrix of its '
     'graph, whatever was called before computing it. Each successful call appends one spanning '
     'tree, the same as a fresh object would draw from the same stream; flush empties the record; '
     'an unknown mode raises ValueError and leaves the record alone; a graph that is not '
     'connected is refused.',
     ['histories', 'inputs'], 'All connected graphs, all sequences of calls.',
     'The existing tests only check the kernel-free samplers on one graph.',
     [XD], [('kernel and eigenvectors', XD + ':UST.compute_kernel, compute_kernel_eig_vecs'),
            ('dispatch', XD + ':UST.sample')],
     ['UST.kernel', 'UST.list_of_samples'],
     'Kernels of 14 graphs after 8 prefixes of calls compared to exact integer determinants; all '
     'histories of length 2 (3) over 12 calls, random ones of length 6.')

BE = 'dppy/beta_ensembles.py'
prop('B01', 'Hermite, Laguerre, Jacobi ensembles follow their joint law in both models',
     'For every admissible beta, size and reference measure, a sample of the Hermite, Laguerre or '
     'Jacobi ensemble has N points in the support and follows the joint density documented for the '
     'ensemble: Vandermonde determinant to the power beta times the reference measure. This holds '
     'for the full matrix model (beta in 0, 1, 2, 4, with the documented default measure) and for '
     'the banded model (every beta >= 0, given measure or the one equivalent to the given '
     'dimensions).',
     ['inputs', 'configurations'], 'All beta, sizes, reference measures and matrix dimensions.',
     'The tests compare histograms to the limiting densities by eye or with loose p-values for one '
     'size; none of them is among the stable tests.',
     ['dppy/beta_ensembles.py', 'dppy/random_matrices.py'],
     [('matrix models', 'dppy/random_matrices.py:hermite_sampler_full, laguerre_sampler_full, jacobi_sampler_full, mu_ref_*_sampler_tridiag'),
      ('parameters', BE + ':HermiteEnsemble, LaguerreEnsemble, JacobiEnsemble')],
     ['sample_full_model', 'sample_banded_model'],
     'Every product of power sums up to total degree 4 is compared to the value TLC derives from '
     'the loop (Schwinger-Dyson) equations of the ensemble in exact arithmetic. The expectation '
     'over the draws is exact (Gauss quadrature of every draw) for N up to 4 in the banded models and 1 to 3 '
     'in the full ones, and sampled with a 7 sigma tolerance where the number of draws is too large.')

prop('B02', 'Circular and Ginibre ensembles follow their joint law',
     'A sample of the circular ensemble has its points on the unit circle and follows the '
     'circular beta law in the banded model (every integer beta) and the law of the eigenvalues of a Haar '
     'distributed matrix of the classical group of its beta in the full model, in each Haar mode. '
     'A sample of the Ginibre ensemble follows the law of the eigenvalues of a matrix with '
     'independent standard complex Gaussian entries.',
     ['inputs', 'configurations'], 'All beta, sizes and Haar modes.',
     'The tests plot histograms; the angular density is uniform for wrong laws too.',
     ['dppy/beta_ensembles.py', 'dppy/random_matrices.py'],
     [('matrix models', 'dppy/random_matrices.py:circular_sampler_full, mu_ref_unif_unit_circle_sampler_quindiag, ginibre_sampler_full')],
     ['sample_full_model', 'sample_banded_model'],
     'Nine moments (first and second power sums, their moduli and a rotation-invariance cross '
     'moment) for N up to 4 (6) are compared to closed forms in TLA+; 16000 (200000) draws, 7 sigma '
     'tolerance, so only biases above that are seen.', level='exploration')

prop('B03', 'A beta-ensemble object records, parametrises and refuses as documented',
     'Each successful call appends exactly the returned points to the record, whatever was called '
     'before, flush empties it, and normalisation neither changes the record nor the given points '
     'and scales by the parameters of the last call. The reported parameters describe the sample, '
     'dimensions and reference measure being related as documented. Inadmissible beta, sizes, dimensions and modes '
     'raise the documented error and leave the record alone.',
     ['histories', 'inputs'], 'All sequences of calls and all parameters.',
     'The tests call each sampler once or twice with valid arguments.',
     ['dppy/beta_ensembles.py'],
     [('record and parameters', BE + ':AbstractBetaEnsemble and subclasses'),
      ('normalisation', BE + ':normalize_points')],
     ['BetaEnsemble.list_of_samples', 'BetaEnsemble.params', 'normalize_points'],
     'All histories of length 2 (3) over the calls of 13 objects, random ones of length 6; '
     'parameter and normalisation formulas in exact arithmetic on a grid.')

ALL = ['dppy/finite_dpps.py', 'dppy/exact_sampling.py', 'dppy/intermediate_sampling.py', 'dppy/bless.py',
       'dppy/mcmc_sampling.py', 'dppy/exotic_dpps.py', 'dppy/exotic_dpps_core.py', 'dppy/beta_ensembles.py',
       'dppy/random_matrices.py', 'dppy/beta_ensemble_polynomial_potential.py',
       'dppy/multivariate_jacobi_ope.py', 'dppy/utils.py']
prop('R01', 'Every sampling call reads the random stream it is given and no other',
     'Every public sampling call draws only from the stream its random_state argument names: the '
     'global numpy generator for None or numpy.random, a stream seeded afresh for an integer, the '
     'RandomState object itself when one is given, and it advances that one only. Its result is a '
     'function of its arguments and of the state of that stream, whatever was called before. '
     'Anything else given as a stream raises ValueError and moves no stream.',
     ['histories', 'configurations'], 'All sampling calls, all ways of naming a stream, all sequences of calls.',
     'Tests fix one seed and compare nothing across calls; a sampler that also draws from the '
     'global generator passes them all.',
     ALL, [('naming of streams', 'dppy/utils.py:check_random_state'),
           ('passing the stream down', 'dppy/*.py:random_state arguments of every sampler')],
     ['return value of every call with a random_state argument', 'numpy.random.get_state', 'RandomState.get_state'],
     '202 public calls (every sampler, mode and representation on a small input). Each follows one '
     'fixed history of 14 calls through all kinds of streams and 3 (60) random histories of 7 (12) '
     'calls drawn by TLC from the model, interleaved with another call; recorded traces judged by TLC.')

prop('R02', 'Calls leave alone the arrays and functions they are given',
     'No public call changes the kernels, eigenvectors, data, parameters, graphs, polynomials or '
     'initial states it was given, nor the matrices handed out by a likelihood function, nor '
     'numpy\'s error handling. A call that takes no random stream (kernels, conversions, plots, '
     'densities, combinatorial maps) draws from none and returns the same result each time, '
     'whatever was called before.',
     ['histories', 'inputs'], 'All public calls and all sequences of them.',
     'Tests build fresh inputs for each call and never look at them again.',
     ALL, [('copies', 'dppy/exact_sampling.py:proj_dpp_sampler_kernel_*'),
           ('in-place updates', 'dppy/intermediate_sampling.py:estimate_rls_from_weighted_dict_eigendecomp')],
     ['arguments after the call', 'figures', 'return values'],
     'The 202 sampling calls of R01 along histories drawn by TLC and 147 calls that draw nothing '
     '(conversions, kernels, plots with all the points, lines, bars and images they show), each '
     'repeated four times among sampling calls.')

OP = 'dppy/multivariate_jacobi_ope.py'
PP = 'dppy/beta_ensemble_polynomial_potential.py'
PC = 'dppy/beta_ensemble_polynomial_potential_core.py'
prop('B04', 'Limiting densities and their distribution functions are the right ones',
     'The limiting densities offered (semi-circle, Marcenko-Pastur, Wachter, equilibrium measures of '
     'monomial, quartic with one or two cuts and higher order edge potentials) are nonnegative, have '
     'mass one on the stated support and solve the equilibrium equations of their potential; the '
     'distribution functions are their integrals everywhere on the line. The rescaling of the '
     'largest eigenvalue uses the edge and the scale of that density, and the Tracy-Widom '
     'distribution function is that of the beta = 2 law whatever was evaluated before.',
     ['inputs', 'configurations'], 'All parameters of the densities, all points.',
     'Tests tabulate one distribution function; nothing compares densities with their potential.',
     [PC, 'dppy/random_matrices.py', PP],
     [('equilibrium measures', PC + ':equilibrium_x2m'), ('quartic', PC + ':equilibrium_x2_x4'),
      ('Marcenko-Pastur', 'dppy/random_matrices.py:marcenko_pastur_law'), ('Tracy-Widom', PC + ':TracyWidom.cdf'),
      ('edge', PP + ':BetaEnsemblePolynomialPotential.rescale_largest_eig_val')],
     ['equilibrium_x2m', 'equilibrium_x2_x4', 'semi_circle_law', 'marcenko_pastur_law', 'wachter_law'],
     'Moments by quadrature of the real functions, judged by the large N loop equations in TLA+ (a rational recursion); '
     'about 100 parameter values; accuracy 10^-3.')
prop('B05', 'The Gibbs sampler for polynomial potentials targets the right law',
     'A pass of the Gibbs sampler visits every Jacobi coefficient once, in order, and updates it by an '
     'exact draw from, or Metropolis steps reversible for, its law given the current values of the '
     'others under the joint law prod b_i^(beta/2 (N-i) - 1) exp(-beta/2 N trace V(T)). It returns the '
     'eigenvalues of the current matrix, or their chain over the passes, or the largest of them. '
     'Potentials and exactness requests outside the documented class raise ValueError, and a constant '
     'in the potential changes nothing.',
     ['inputs', 'histories', 'configurations'], 'All supported potentials, N, beta, passes and streams.',
     'There is no test of this sampler; a chain with a wrong conditional still returns plausible points.',
     [PP, PC], [('Gibbs sweep', PP + ':BetaEnsemblePolynomialPotential.sample_mcmc'),
                ('conditional energies', PC + ':polynomial_in_negative_log_conditional_a_coef'),
                ('exact draws', PC + ':sampler_exact_convex_quartic'), ('Langevin steps', PC + ':sampler_mala')],
     ['BetaEnsemblePolynomialPotential.sample_mcmc'],
     'Conditional energies exactly, as differences of traces of powers of integer tridiagonal matrices; sweeps '
     'replayed as behaviours of the specification (N up to 4, 3 passes); draws by low-discrepancy streams against '
     'integration-by-parts identities; detailed balance at pairs of points.')
prop('J01', 'The multivariate Jacobi kernel is built from the right orthonormal polynomials',
     'For every number of points, dimension and admissible Jacobi parameters, the multi-indices are '
     'the first N in the documented ordering, the functions evaluated are the orthonormal Jacobi '
     'polynomials of these multi-degrees for the documented weight, whose values and mass are as '
     'stated, and the kernel is their Gram matrix in each of its calling forms. Each rejection '
     'constant is finite and bounds the ratio of its component to the proposal density. Parameters '
     'outside the documented range raise ValueError.',
     ['inputs'], 'All N, d, Jacobi parameters (d >= 2: in [-1/2, 1/2]; d = 1: > -1), all points.',
     'Tests check the ordering of 12 indices and orthonormality for a few random parameters.',
     [OP], [('ordering', OP + ':compute_ordering'), ('polynomials', OP + ':MultivariateJacobiOPE.eval_multiD_polynomials, compute_norms_1D_polynomials'),
            ('kernel', OP + ':MultivariateJacobiOPE.K'), ('bounds', OP + ':compute_rejection_bounds')],
     ['MultivariateJacobiOPE.K', 'MultivariateJacobiOPE.ordering', 'rejection_bounds'],
     'Orderings up to 70 indices and d = 5 (and 32768 indices in d = 1); 21 families of parameters with N up to '
     '9 (20): integrals of products and of multiplication by each coordinate by exact quadrature, '
     'compared with the recurrence coefficients computed in TLA+ (10^-4); bounds on a grid of 3001 points.')

prop('J02', 'Multivariate Jacobi ensemble samples have the law of the projection DPP',
     'A sample of the multivariate Jacobi ensemble has N points of the cube whose law is that of '
     'the projection DPP with its kernel and weight, by the tridiagonal model in dimension 1 and by '
     'the chain rule in every dimension for parameters in [-1/2, 1/2]. The proposal of the chain '
     'rule has density K(x,x) w(x) / N.',
     ['inputs', 'configurations'], 'All N, d, Jacobi parameters, streams.',
     'Tests look at one point per sample and compare with loose p-values; correlations between points are never tested.',
     [OP], [('proposal', OP + ':MultivariateJacobiOPE.sample_chain_rule_proposal'),
            ('chain rule', OP + ':MultivariateJacobiOPE.sample')],
     ['MultivariateJacobiOPE.sample'],
     'Proposal: moments up to degree 4 given each multi-index, by quadrature of the draws. Samples: '
     'first and second moments of linear statistics (pair correlations) of 6000 (60000) samples, N up to 5, d up to 3, '
     '6.5 sigma; targets computed in TLA+ from recurrence coefficients.')

prop('G01', 'Figures show the last recorded sample and the law it converges to',
     'A figure shows the last sample recorded by its object, each point once at its own place or, '
     'when normalisation is asked, rescaled by the parameters of the call that drew it; a histogram '
     'is that of those points, as a density. The curve drawn beside them is the density of the law '
     'they converge to (the reference law when beta = 0, the limit shape of the diagram), descents are '
     'compared with independent Bernoulli variables of their exact intensity, and a kernel, a graph '
     'and its tree are drawn as they are, items and edges in order and under their labels. Drawing '
     'without a sample raises an error and no figure changes the record.',
     ['inputs', 'histories'], 'All objects, parameters, histories of calls ended by a drawing call.',
     'The tests draw nothing: no figure is ever looked at.',
     [BE, XD, FD, OP, PP],
     [('beta-ensembles', BE + ':BetaEnsemble.plot, BetaEnsemble.hist, *.normalize_points'),
      ('exotic DPPs', XD + ':Descent.plot, PoissonizedPlancherel.plot_diagram, UST.plot, UST.plot_kernel'),
      ('kernels', FD + ':FiniteDPP.plot_kernel'), ('multivariate Jacobi', OP + ':MultivariateJacobiOPE.plot')],
     ['BetaEnsemble.plot', 'BetaEnsemble.hist', 'Descent.plot', 'PoissonizedPlancherel.plot_diagram', 'UST.plot', 'FiniteDPP.plot_kernel'],
     'Artists found in the axes after histories of up to 3 calls, coordinates out of 10^4, against limits '
     'computed in TLA+; Bernoulli comparisons by enumeration of the draws.')

BL = 'dppy/bless.py'
prop('L01', 'BLESS keeps each item independently with the leverage score it records',
     'A dictionary built by bless, bless_size or one reduction lists distinct items in order with their own '
     'rows of data, the regularisation asked, the oversampling factor and, for each, the probability with which '
     'it was kept: the oversampling factor times the ridge leverage score estimated from the previous '
     'dictionary, capped by its upper bound and by one, items being kept independently. A run starts from the '
     'upper bounds, the first item always kept, and reduces the regularisation geometrically down to the one '
     'asked, each reduction using the dictionary made just before; bless_size stops at the first dictionary '
     'twice the size asked and returns the bracket of regularisations it met; the rejection '
     'samplers build theirs with the tuning parameters they are given.',
     ['inputs', 'configurations', 'histories'],
     'All data, likelihood functions, dictionaries, regularisations and oversampling factors, all draws.',
     'No test looks at a dictionary: the samplers stay exact with any, only slower or failing more often.',
     [BL, IM],
     [('one reduction', BL + ':reduce_lambda, estimate_rls_bless'), ('runs', BL + ':bless, bless_size'),
      ('use', IM + ':vfx_sampling_precompute_constants, alpha_dpp_sampling_precompute_constants')],
     ['bless', 'bless_size', 'FiniteDPP.sample_exact'],
     ENUM + 'Up to 4 items in reductions (8 in first dictionaries), estimates as quotients of integer '
     'determinants; runs on 6 to 10 items are recorded by seed and checked as traces.')
