import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
M='doatools/model/'; E='doatools/estimation/'
p('P01','Array designs place every element where their definition says',
  'Every array design reports exactly the element positions, grid indices, spacings, bases and dimensions its definition prescribes: ULA, nested, co-prime (both modes), minimum-redundancy (1 to 20 elements, every difference up to the aperture present), circular and rectangular arrays, custom grids on arbitrary bases and custom locations, in the documented element order. Parameters outside the definition (non-coprime pairs, MRLA sizes outside 1..20, unknown modes, malformed locations, mismatching bases) are rejected with a ValueError, and name, element and perturbation options are honoured by every design.',
  ['inputs','configurations'],'all design families, all admissible sizes and parameters, all spacings and bases, every combination of the optional arguments',
  'The tests check one or two instances of each family; they never compare whole families with their definition, and never build 20-element MRLAs or pass options to every design.',
  [M+'arrays.py',M+'array_elements.py'],[('index generation of each design',M+'arrays.py'),('grid indices times bases',M+'arrays.py GridBasedArrayDesign')],
  ['element_locations, element_indices, d0, bases, size, output_size, ndim, name and the design-specific attributes'])
p('P02','Array designs are values: copies, perturbations and reads never interfere',
  'Along every sequence of creating arrays and taking perturbed or perturbation-free copies, each array keeps for ever the name, locations, and set of perturbations (type, parameters, known flag) it was created with: a perturbed copy has exactly the original perturbations with those of the same type replaced, a perturbation-free copy has none, and the originals are unaffected. Inapplicable, malformed or duplicate perturbations are rejected and leave all arrays unchanged; writing to returned location matrices never changes an array. Dictionary and list forms, ndarray and list parameters are equivalent.',
  ['histories','inputs'],'every finite history of create / perturbed copy / perturbation-free copy / read operations over several live arrays and all four perturbation types, and user-defined perturbations',
  'Tests make a single copy once with one perturbation set; aliasing between originals and copies, replacement by type and rejected updates only show along longer histories.',
  [M+'arrays.py',M+'perturbations.py'],[('shallow copy with a fresh perturbation table',M+'arrays.py get_perturbed_copy'),('applicability checks',M+'perturbations.py')],
  ['perturbations, has_perturbation, is_perturbation_known, get_perturbation_params, element_locations, actual_element_locations, is_perturbed, actual_ndim'],
  [('perturbation table','type -> perturbation object',M+'arrays.py ArrayDesign')])
p('P03','Difference coarray, weight function and selection matrix are exact',
  'For every 1D grid-based array the difference coarray is the exact multiset of pairwise index differences, whatever the integer type of the indices: the weight of d is the number of ordered element pairs at difference d, the differences are listed once in ascending order, the index lists point precisely at those pairs in the column-major vectorised covariance, and the central ULA is the longest hole-free run around zero. The coarray selection matrix averages redundant entries exactly, in full and non-negative form. Queries never change later answers, and arrays that are not 1D grids are rejected.',
  ['inputs','histories','configurations'],'all 1D grid arrays (every design family and arbitrary integer index sets, unsorted, repeated, negative, with holes), all query sequences',
  'Two fixed arrays are tested; holes, single-element arrays, repeated queries with either flag, and mutation of returned lists are not.',
  [M+'coarray.py'],[('index map built from all pairwise differences',M+'coarray.py WeightFunction1D'),('cached central ULA size',M+'coarray.py get_central_ula_size')],
  ['WeightFunction1D public methods, compute_location_differences, compute_unique_location_differences'],
  [('index map','difference -> positions in vec(R)',M+'coarray.py'),('_mv','cached one-sided central ULA size',M+'coarray.py')])
p('P04','Steering matrices follow the physical forward model',
  'For every array, source placement and wavelength the steering matrix equals C(F*exp(j phase)), where the phases are those of plane waves (1D/2D far field, all units, 1D/2D/3D arrays) or of spherical waves referenced to the first sensor (near field), evaluated at the perturbed element locations, F is the response of the element (isotropic, directional, vector) towards each source, and C applies gain, phase and coupling perturbations in order. The perturbation option selects exactly all, only the known, or no perturbations, and vector-sensor responses stack sensor outputs as documented, flattened or not. Neither array nor sources are modified.',
  ['inputs','configurations'],'all combinations of array dimension, source type and unit, element response, perturbation set with known flags, and perturbation option',
  'Tests check a few arrays, mostly unperturbed and one unit at a time; the cross product of geometry, units, perturbation filtering and element responses is not sampled.',
  [M+'arrays.py',M+'sources.py',M+'perturbations.py',M+'array_elements.py'],[('steering_matrix',M+'arrays.py'),('phase_delay_matrix of each source type',M+'sources.py'),('perturb_steering_matrix',M+'perturbations.py')],
  ['ArrayDesign.steering_matrix, SourcePlacement.phase_delay_matrix'])
p('P05','Steering derivatives are the derivatives of the steering matrix',
  'When derivatives are requested for 1D far-field sources, the k-th column of the derivative matrix is the derivative of the k-th steering column with respect to that source location in the unit of the placement, for 1D, 2D and 3D arrays and under every perturbation, and the steering matrix returned with it is the one returned without it. Where derivatives are unavailable (2D or near-field sources, non-isotropic or vector elements) the request fails instead of returning a wrong matrix.',
  ['inputs','configurations'],'all 1D placements in every unit, all array dimensions, all perturbation subsets and filters',
  'Tests compare derivatives only at a few angles for unperturbed arrays; unit scaling and the effect of perturbations on derivatives are not covered.',
  [M+'sources.py',M+'arrays.py',M+'perturbations.py'],[('derivative branches of the phase delay matrix',M+'sources.py'),('perturbation of derivative matrices',M+'perturbations.py')],
  ['steering_matrix(compute_derivatives=True)'])
p('P06','Source placements validate, index, convert and locate sources faithfully',
  'Source placements accept exactly the locations inside the documented ranges of their unit and reject everything else with a ValueError; indexing, slicing, index and boolean-mask selection return the selected sources as independent placements of the same type and unit. Conversion between units preserves every direction and round-trips, spherical coordinates agree with the geometry for every reference point, and placements recovered from complex roots of visible directions are sorted and have exactly those spatial frequencies; roots of no direction never turn into a wrong one.',
  ['inputs','histories'],'all units, all locations including range boundaries, all index forms, all reference points in 1 to 3 dimensions',
  'Tests check a handful of values per unit; boundaries, mask selection, aliasing of selections and mixed conversions are not exhausted.',
  [M+'sources.py','doatools/utils/conversion.py'],[('range checks, slicing, unit conversion',M+'sources.py'),('convert_angles, cart2spherical','doatools/utils/conversion.py')],
  ['locations, units, valid_ranges, size, __getitem__, as_unit, calc_spherical_coords, from_z'])
p('P07','Search grids enumerate and refine exactly the documented points',
  'Every search grid lists the Cartesian product of its axes with the first axis slowest, uniform axes contain the start but not the stop point, several segments are concatenated in order, and size, shape, units, axis names and source placement agree. A grid refined around a coordinate covers exactly the span of neighbouring intervals clipped to the grid, with density new intervals per old one, keeping the original points, unit and type; grids refined at many coordinates equal those refined one by one. Invalid densities, spans and coordinates are rejected.',
  ['inputs','configurations'],'all grid types, units, sizes, segment lists, axes, coordinates (edges and corners included), densities and spans, and repeated refinement',
  'Tests refine a couple of interior points; edges, chained refinement, near-field grids and multi-segment grids were never built (two of them were broken).',
  [E+'grid.py','doatools/utils/math.py'],[('axis construction and refinement',E+'grid.py'),('cartesian','doatools/utils/math.py')],
  ['axes, shape, size, units, axis_names, source_placement, create_refined_axes_at, create_refined_grid_at, create_refined_grids_at'])
p('P08','Peak selection: resolved exactly when k peaks exist, the k highest in grid order',
  'A spectrum-based estimator reports success exactly when its peak finder yields at least k peaks of the spectrum; the estimates are then the grid locations of the k highest peaks, listed in grid order, in the type and unit of the grid, and independent of the grid; otherwise the estimates are None. The returned spectrum has the shape of the grid and holds the spectrum values, in every dimension, for the default peak rule (strict local maxima or plateau middles in 1D, 3x3-neighbourhood maxima in 2D) and for custom peak finders.',
  ['inputs','configurations'],'all spectra (ties, plateaus, boundary maxima, monotone, constant), all k, all 1D and 2D grid shapes and peak finders',
  'Estimator tests use clean spectra with well-separated peaks; ties, plateaus, edge maxima and k at and around the number of peaks are not reached.',
  [E+'core.py'],[('peak finding and selection of the largest peaks',E+'core.py')],['estimate(...) of spectrum-based estimators, find_peaks_simple'])
p('P09','Estimators are pure functions of their inputs',
  'The result of every estimator call depends only on the construction parameters and the arguments of that call: any history of earlier calls (other covariances, other source numbers, refinement, failed calls), with and without caching, in any interleaving over estimators sharing arrays and grids, gives the same answer as a fresh estimator. No call modifies the covariance or snapshot matrix, the array, the grid or earlier results handed to the caller.',
  ['histories'],'all call sequences on shared estimators of every kind, caching on or off, all interleavings with other estimators on the same objects',
  'Each test builds a fresh estimator and calls it once or a few times with consistent inputs; stale caches, in-place updates of shared grids or inputs need particular call histories.',
  [E+'core.py',E+'beamforming.py',E+'music.py',E+'min_norm.py',E+'esprit.py',E+'coarray.py',E+'ml.py',E+'sparse.py'],[('atom matrix cache',E+'core.py'),('lazy source placement of grids',E+'grid.py'),('in-place refinement and ML iterations',E+'core.py, '+E+'ml.py')],
  ['estimate(...) of all estimators, CoarrayACMBuilder1D'],[('atom matrix cache','steering matrix of the main grid',E+'core.py'),('estimates under optimisation','reused in place',E+'ml.py')])
p('P10','Spatial spectra equal their defining formulas',
  'On every grid point the returned spectrum equals the definition of the method evaluated with the steering vectors under the known perturbations: a^H R a for Bartlett, 1/(a^H R^-1 a) for MVDR, the inverse squared noise-subspace projection for MUSIC, and the inverse squared response of the minimum-norm noise vector for Min-Norm. Wrongly shaped covariances and source numbers the method cannot resolve are rejected with a ValueError.',
  ['inputs','configurations'],'all arrays, sources, wavelengths, Hermitian covariances (MVDR: invertible ones), source numbers and grids',
  'The tests only check where the peaks are, to grid accuracy; a spectrum that is wrong but peaks nearby passes.',
  [E+'beamforming.py',E+'music.py',E+'min_norm.py',E+'core.py'],[('f_bartlett, f_mvdr, f_music, Min-Norm spectrum',E+'beamforming.py, music.py, min_norm.py'),('noise subspace',E+'core.py')],
  ['estimate(..., return_spectrum=True), f_bartlett, f_mvdr, f_music'])
p('P11','Subspace estimators recover the sources exactly from ideal covariances',
  'Given the exact covariance of k uncorrelated sources in white noise on a uniform linear array, root-MUSIC and ESPRIT (both formulations, any admissible displacement and any positive row weighting) return the true directions in the requested unit and in ascending order, for any spacing for which the directions are unambiguous; on sample covariances root-MUSIC returns the k roots of its polynomial nearest the unit circle from inside. MUSIC and Min-Norm find sources lying on the grid, and inadmissible source numbers, displacements, weights or formulations are rejected.',
  ['inputs','configurations'],'all source sets up to the maximum number, powers, noise levels, spacings, wavelengths, displacements, weightings, units',
  'The ESPRIT test accepts 1 percent error and weights that are all equal, which hid that unequal row weights biased every estimate; root-MUSIC is tested on two cases.',
  [E+'esprit.py',E+'music.py',E+'min_norm.py',M+'sources.py'],[('rotational invariance of the signal subspace',E+'esprit.py'),('polynomial rooting',E+'music.py'),('from_z',M+'sources.py')],
  ['Esprit1D.estimate, RootMUSIC1D.estimate, MUSIC.estimate, MinNorm.estimate'])
p('P12','Grid refinement stays local and never gets worse',
  'With refinement enabled, every estimate stays within the neighbouring grid intervals of the grid peak it came from, is the best point of each successive refined grid, and has a spectrum value at least as high as the unrefined peak; more iterations never lower it. Refinement changes neither the resolved flag, nor the number, order and type of the estimates, nor the returned coarse spectrum, and leaves the search grid untouched.',
  ['inputs','histories'],'all spectra and estimators, densities, iteration counts, grids in one and two dimensions, peaks next to edges',
  'Tests refine once with default settings on a smooth spectrum and compare with the truth.',
  [E+'core.py',E+'grid.py'],[('iterative subgrid search',E+'core.py _refine_estimates')],['estimate(..., refine_estimates=True, refinement_density, refinement_iters)'])
p('P13','Coarray covariance augmentation is exact redundancy averaging',
  'For every 1D grid array and every covariance matrix the augmented covariance is built from the virtual measurements that average exactly the entries of R with the same difference: direct augmentation yields the Toeplitz matrix with those entries, spatial smoothing the average of the outer products of all overlapping segments. For ideal covariances the direct-augmentation result is the covariance of the same sources on the virtual ULA and the spatially smoothed one is its scaled square; sizes and the virtual ULA (size, spacing, name) match, wrong shapes and methods are rejected, and R is never modified.',
  ['inputs','configurations'],'all 1D grid arrays with and without holes, all Hermitian and non-Hermitian covariances',
  'One co-prime array and the resulting MUSIC peaks are tested.',
  [E+'coarray.py',M+'coarray.py'],[('redundancy averaging and augmentation',E+'coarray.py')],['CoarrayACMBuilder1D'])
p('P14','Spatial smoothing and l1-SVD implement their linear-algebra definitions',
  'Spatial smoothing returns the mean of the l overlapping diagonal blocks of size m-l+1, and with forward-backward averaging additionally the mean with its conjugated flip, for real, integer (of any width) and complex matrices, never modifying the input; l outside 1..m is rejected. The l1-SVD reduction of Y to k columns satisfies Y_k Y_k^H equal to the best rank-k approximation of Y Y^H.',
  ['inputs'],'all sizes, numbers of subarrays, data types and ranks',
  'Tests use one or two fixed sizes.',[E+'preprocessing.py'],[('spatial_smooth, l1_svd',E+'preprocessing.py')],['spatial_smooth, l1_svd'])
p('P15','Source enumeration minimises the published criteria',
  'AIC and MDL return the smallest minimiser over 0..m-1 of N(m-k) log(arithmetic/geometric mean of the m-k smallest eigenvalues) plus k(2m-k) or (k(2m-k)+1)/2 log N, and SORTE the minimiser of its gap-variance ratio over 1..n-3. The answer is the same for a covariance matrix and for its ascending eigenvalues, does not depend on the scale of the data, and inputs are not modified; SORTE rejects fewer than four eigenvalues.',
  ['inputs'],'all positive eigenvalue sets and Hermitian positive definite matrices at every scale, all snapshot counts',
  'Tests use 20 sensors at a single scale with clearly separated sources; small scales used to underflow.',[E+'source_number.py'],[('ld_stat, aic, mdl, sorte',E+'source_number.py')],['aic, mdl, sorte'])
p('P16','Signals and snapshots follow the narrowband data model',
  'Snapshots equal A S + N where A is the steering matrix under all perturbations and S, N are the matrices the generators emit for exactly the requested number of snapshots, each asked once per call, and the covariance returned with them is Y Y^H / n. Complex stochastic signals are zero-mean circular with exactly the requested covariance in scalar, vector and matrix form; random-phase signals have exactly the requested amplitudes and uniformly distributed independent phases; sizes that do not fit are rejected.',
  ['inputs','configurations'],'all arrays, sources, generator kinds, dimensions, covariances and snapshot numbers',
  'Tests only check covariance by one Monte-Carlo run; snapshots are used but never compared with the model, and scalar amplitudes crashed.',
  [M+'signals.py',M+'snapshots.py','doatools/utils/math.py'],[('generators',M+'signals.py'),('get_narrowband_snapshots',M+'snapshots.py')],['emit, get_narrowband_snapshots'])
p('P17','Cramer-Rao bounds equal the inverse Fisher information',
  'The stochastic, deterministic and uncorrelated-stochastic bounds equal the source block of the inverse Fisher information of their model, for every array, perturbation set, unit, source covariance and noise power. They are symmetric positive definite, scale as 1/snapshots, satisfy the order known between them, accept scalar, vector and matrix powers equivalently, and reduce to the diagonal or its mean on request; wrong source types and shapes are rejected.',
  ['inputs','configurations'],'all 1D far-field scenarios with an identifiable model, all power forms, return modes and snapshot numbers',
  'Tests compare with stored numbers for one configuration per bound.',
  ['doatools/performance/crb.py','doatools/performance/utils.py'],[('closed-form bounds','doatools/performance/crb.py'),('unify_p_*, reduce_output_matrix','doatools/performance/utils.py')],['crb_sto_farfield_1d, crb_det_farfield_1d, crb_stouc_farfield_1d'])
p('P18','Asymptotic MUSIC error covariances follow the published theory',
  'The asymptotic error covariances of MUSIC and of coarray MUSIC equal the published expressions for every array, spacing, unit, source power and noise level, including the perturbation option, are symmetric with positive diagonal, scale as 1/snapshots, approach the Cramer-Rao bound from above for MUSIC, and support every power form and return mode. Perturbed arrays (coarray MUSIC), too many sources and wrong source types are rejected.',
  ['inputs','configurations'],'all identifiable 1D far-field scenarios, all grid spacings and power forms',
  'Tests compare stored numbers for half-wavelength arrays only, which hid that other spacings were ignored.',
  ['doatools/performance/mse.py','doatools/performance/utils.py'],[('closed-form covariances','doatools/performance/mse.py')],['ecov_music_1d, ecov_coarray_music_1d'])
p('P19','Maximum-likelihood estimators minimise their criterion without side effects',
  'Each ML estimator (AML, CML, WSF) returns estimates of the type, unit and number of the initial guess, inside the valid ranges, whose published criterion, evaluated with the known perturbations, is never above that of the initial guess and is stationary up to the optimiser tolerance; for ideal covariances started near the truth they return the truth. The initial guess and the covariance are unmodified, get_last_estimates returns independent copies of the most recent estimates and fails before the first estimation, and an estimator can be reused for any sequence of problems with different source numbers, types and covariances. The stochastic likelihood function has the value of its definition.',
  ['inputs','histories'],'all covariances, initial guesses, source types and units, and all sequences of estimate / get_last_estimates calls',
  'There is no test for this module at all.',[E+'ml.py'],[('criteria, L-BFGS-B with bounds, in-place working estimates',E+'ml.py')],['AMLEstimator, CMLEstimator, WSFEstimator'],[('_estimates','working estimates',E+'ml.py')])
p('P20','Sparse estimators solve their optimisation problems',
  'The reusable l1 and l2,1 problems return optimal solutions of the documented formulations (penalised, l1-constrained, l2-constrained; with or without the non-negativity constraint; real and complex), for every sequence of problem data given to one problem object, and signal infeasibility by a zero solution. Sparse covariance matching and group-sparse estimation build exactly the documented dictionary and data (known or unknown noise), report the solution as spectrum on the grid, leave inputs unmodified, and reject wrong shapes, missing noise variance and refinement requests.',
  ['inputs','histories'],'all dictionaries, data, regularisation parameters, formulations and reuse sequences',
  'There is no test for this module at all.',[E+'sparse.py','doatools/optim/l1lsq.py'],[('cvxpy problems with parameters','doatools/optim/l1lsq.py'),('dictionary construction',E+'sparse.py')],['SparseCovarianceMatching, GroupSparseEstimator, L1RegularizedLeastSquaresProblem, L21RegularizedLeastSquaresProblem'])
p('P21','Matrix and angle utilities satisfy their algebraic definitions',
  'vec, Khatri-Rao product, projector, squared modulus, Cartesian product, unique rows (greedy, within tolerance, optionally sorted and with indices), unit conversion, azimuth-elevation to broadside and Cartesian to spherical conversion equal their mathematical definitions for all shapes and data types (integers of any width included) and never modify their inputs; shape mismatches are rejected.',
  ['inputs'],'all shapes (including empty and single), real and complex data, tolerances and angle ranges',
  'Tests use one or two small examples per function.',['doatools/utils/math.py','doatools/utils/conversion.py'],[('utility functions','doatools/utils/math.py, doatools/utils/conversion.py')],['functions of doatools.utils'])
p('P22','Plots show exactly the data they are given',
  'Array, coarray and spectrum plots draw, on the axes they are given, exactly the element or coarray positions (nominal and, on request, actual), the spectra over the grid axes (curves normalised by their maximum; images with every cell in its place along the axes), and the estimates and true locations, with labels naming the axes and units, all of it in view, and return the documented handles. Spectra or source sets that do not match the grid are rejected, neither data nor other axes are touched, and a figure is only shown by the call that created it.',
  ['inputs','configurations'],'all arrays, grids (1D and 2D), spectrum collections and options',
  'There is no test for this module; the given axes were ignored and location errors were never shown.',
  ['doatools/plotting/plot_array.py','doatools/plotting/plot_spectrum.py'],[('matplotlib drawing','doatools/plotting')],['artists on the matplotlib axes'])
with open('/verif/properties.jsonl','w') as f:
    for d in P:
        assert len(d['title'])<=80,d['title']
        f.write(json.dumps(d)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); print(d['id'],d['statement'].count('. ')+1)
