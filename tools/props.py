def m(*pairs): return [{"name":a,"where":b} for a,b in pairs]
p("C01","Caller-owned arrays, containers and objects are never modified",
"No function or method of the package modifies an array, list, mapping, radial window or other object that the caller passed in, whether in this call or in an earlier one whose argument was kept. Only random generators advance, and only a stateful object's own private state changes. This holds for every combination of optional arguments, also when an input already has the target type or shape so that a conversion would not copy it.",
["inputs","configurations","histories"],"all public functions, all combinations of optional arguments, all array layouts and types, all call histories of stateful objects",
"Tests compare returned values and hardly ever look at an argument after the call; whether a conversion copies depends on type, layout and library, so a sample of inputs cannot rule out writing through a view.",
["glass/points.py","glass/galaxies.py","glass/shapes.py","glass/lensing.py","glass/fields.py","glass/shells.py","glass/observations.py","glass/algorithm.py","glass/arraytools.py","glass/harmonics.py","glass/healpix.py","glass/grf","glass/user.py"],
m(("explicit copies before in-place arithmetic","glass/points.py:_compute_density_contrast, glass/lensing.py:multi_plane_matrix"),("in-place arithmetic only on freshly created arrays","all modules")),
[{"name":"retained matter plane","meaning":"array of the previous lens plane kept between calls","where":"glass/lensing.py:MultiPlaneConvergence.delta3"}],
["the arguments after the call"])
p("C02","Every random number comes from the caller's generator",
"When the caller passes a random generator, every random number that influences a result is drawn from that generator, in every batch, population, rejection round and helper involved. When none is passed, all random numbers of one call come from one newly created generator with the fixed default seed.",
["inputs","configurations"],"all sampling functions, with and without a generator, all batch sizes, population shapes and numbers of rejection rounds",
"A sample drawn from a wrong or restarted stream looks statistically fine; tests check shapes and bounds, or one seed, and cannot observe which stream every number came from.",
["glass/rng.py","glass/points.py","glass/galaxies.py","glass/shapes.py","glass/shells.py","glass/fields.py","glass/healpix.py"],
m(("generator wrapper that forwards to the given generator","glass/rng.py:Generator"),("generators handed on to helpers","glass/points.py:positions_from_delta, glass/galaxies.py:redshifts_from_nz, glass/shapes.py:ellipticity_ryden04")),
None,["draw calls on generators"])
p("C03","Results depend only on the arguments and the generator state",
"No result depends on hidden state: not on earlier calls, clocks, process-wide random state, environment variables, object identity or hash order (the place from which HEALPix data files are loaded excepted), and no call leaves state behind in the package. Repeating a call with equal arguments and an equally seeded generator gives equal results.",
["histories","inputs"],"all histories of calls in a process and all public functions",
"A test sees one short history in one process; leaks through caches, default arguments, module variables or set order need particular earlier calls to show.",
["glass"],
m(("no module-level mutable state; defaults are immutable","glass/*.py"),("fixed default seed","glass/rng.py:SEED")),None,["return values"])
p("C04","The JAX-backed generator never uses a key twice",
"Every random key of the JAX-backed generator is consumed at most once: each draw, split or child generator receives a key derived for it alone, and the generator's own key is replaced by a fresh one every time. This holds under any interleaving of threads that share the generator.",
["schedules","histories"],"all sequences of operations on one generator and all interleavings of threads sharing it",
"Tests use one thread and look at a handful of draws; key reuse or a lost update shows only as correlated numbers or in particular interleavings.",
["glass/jax.py"],m(("key replaced under a lock before its child is handed out","glass/jax.py:Generator.__key, split, spawn")),
[{"name":"key","meaning":"current PRNG key","where":"glass/jax.py:Generator.key"},{"name":"lock","meaning":"guards the key","where":"glass/jax.py:Generator.lock"}],["jax.random calls"])
p("C05","Optional dependencies stay optional",
"Importing the package, or calling any function with arrays of a library that is installed, never requires a dependency that the call does not need: the JAX backend, the FITS library, the cosmology interface and packages used only for type annotations are imported only inside the feature that needs them. No name that exists only during type checking is used at run time.",
["configurations","inputs"],"all sets of installed optional packages and all public functions",
"The test environment has every optional package installed, so an unwanted import always succeeds there.",
["glass"],m(("type-checking guards","if TYPE_CHECKING blocks of all modules"),("local imports","glass/rng.py, glass/user.py:write_catalog, glass/_array_api_utils.py")),None,["import statements reachable at run time"])
p("C06","Array code works with every supported array library",
"On arrays of the caller's library the package uses only operations of the array API standard: no functions or methods that only some libraries have, no element assignment into arrays that may be immutable, and no types of a foreign library. What is computed with NumPy is converted back to the caller's library before it is returned.",
["configurations","inputs"],"all supported array libraries, all public functions but those for files and the deprecated shear_from_convergence, all paths through them",
"Tests run few paths with the strict library, and some tests need downloads; a call to a library-specific operation on a rarely taken path is never executed.",
["glass/points.py","glass/galaxies.py","glass/shapes.py","glass/lensing.py","glass/fields.py","glass/shells.py","glass/observations.py","glass/algorithm.py","glass/arraytools.py","glass/harmonics.py","glass/healpix.py","glass/_array_api_utils.py"],
m(("namespace taken from the inputs","array_namespace calls"),("fallback conversions","glass/_array_api_utils.py:xp_additions, numpy_fallback")),None,["attributes looked up on namespaces and arrays"])
p("C07","Angles keep their units through every function",
"Longitudes and latitudes enter and leave every function in degrees and deflections, displacements and random orientations are in radians: no trigonometric function receives degrees, no sum mixes units, results are in the documented unit, and pixel lookups are told the unit they get, with any array library. Positions drawn on the sphere or in pixels, displaced and deflected positions, displacements, and galaxy shears looked up at positions all follow this. Visibility maps are zero in the requested strips of colatitude and one elsewhere, and each strip is handed to HEALPix in radians and blocked in the coordinates of the plane it is given for.",
["inputs"],"all positions on the sphere and all displacement vectors, all functions that take or return positions",
"A unit slip on one axis or branch is invisible for the poles, the meridian or small angles that tests use.",
["glass/points.py","glass/lensing.py","glass/galaxies.py","glass/healpix.py","glass/_array_api_utils.py","glass/observations.py"],
m(("strips of visibility maps","glass/observations.py:vmap_galactic_ecliptic; glass/healpix.py:query_strip, Rotator"),("degree to radian conversions","glass/points.py:displace, displacement, uniform_positions; glass/lensing.py:deflect"),("lonlat flags","glass/points.py:_sample_galaxies_per_pixel, glass/galaxies.py:galaxy_shear")),None,["returned longitudes and latitudes"])
p("C08","Quantities defined up to normalisation are normalised away",
"Results that depend only on the shape of a distribution do not change when it is multiplied by a positive constant: redshifts sampled from a distribution or window, assignments of redshifts to shells, equal-density bin edges, normalised densities in position and lensing weights, the effective bias and mean redshift of a window, the lensing weight of a window, sums of normalised windows and partitions by least squares among them. Distances enter convergence and volume and density weights only as ratios to the Hubble distance, so that their unit does not matter.",
["inputs"],"all distributions, windows, densities and positive constants; all units of distance",
"Tests use distributions that already are normalised or one fixed constant; the claim is about every constant.",
["glass/galaxies.py","glass/points.py","glass/lensing.py","glass/shells.py","glass/observations.py"],
m(("division by integral or sum","glass/galaxies.py:_draw_nz; glass/points.py:effective_bias, position_weights; glass/lensing.py:multi_plane_weights; glass/shells.py:combine, distribute; glass/observations.py:equal_dens_zbins")),None,["return values"])
p("C09","Linear transformations are exactly linear in their fields",
"The output for a linear combination of fields, of any sign, is the same combination of the outputs for each of them, and nothing is added: convergence in the matter planes, lensing maps in the convergence, galaxy shears that are not reduced in ellipticities and shear maps, discretised and effective spectra in the spectra, effective spectra in each set of weights, restricted functions, integrals of products and cumulative integrals, partitions by restriction or least squares, combined windows in the weights, effective and linear bias, position weights in the bias, and harmonic filtering in coefficients and filter. The output for a zero field is zero.",
["inputs","configurations"],"all fields, constants, option flags, cosmologies and sequences of planes",
"Tests check a few maps against references; a clipping, offset or absolute value at one branch needs special signs or values to show.",
["glass/lensing.py","glass/fields.py","glass/shells.py","glass/points.py","glass/harmonics.py"],
m(("products with fixed weights only","glass/lensing.py:MultiPlaneConvergence.add_plane, from_convergence; glass/shells.py:restrict, combine, partition_restrict, partition_lstsq; glass/fields.py:effective_cls; glass/points.py:linear_bias; glass/harmonics.py:multalm")),None,["return values"])
p("C10","Sampled values stay inside their documented range",
"Every value returned by a sampler lies in its documented range, however often sampling must be repeated: ellipticities have modulus at most one, axis ratios lie between zero and one, photometric redshifts respect both their bounds, latitudes stay within a quarter turn, and expected counts are never negative when numbers are drawn. Every resampling round re-examines all values before they are returned, and a value that is drawn again is the same function of new random numbers that belong to it alone.",
["inputs","histories"],"all parameters in the documented domain and all sequences of random numbers",
"Out-of-range values appear only for rare draws or extreme parameters, in the second or later resampling rounds, which one seed does not reach.",
["glass/shapes.py","glass/galaxies.py","glass/points.py"],
m(("rejection loops","glass/shapes.py:ellipticity_gaussian, ellipticity_ryden04; glass/galaxies.py:gaussian_phz"),("clipping","glass/points.py:_sample_number_galaxies")),None,["returned samples"])
p("C11","All functions agree on the order of angular power spectra",
"One order of pairs of fields is used everywhere: the spectrum of fields i and j has the same position for lookup, enumeration, listing of indices, covariance assembly, truncation of correlations and sampling. Lookup and covariance are symmetric in the two fields, and reordering to and from the HEALPix order visits every pair exactly once.",
["inputs"],"all numbers of fields and all pairs of fields",
"Index formulas are checked for two or three fields; they must agree for every number of fields and pair.",
["glass/fields.py"],m(("triangular index formulas","glass/fields.py:getcl, enumerate_spectra, spectra_indices, cov_from_spectra, cls2cov, discretized_cls, glass_to_healpix_spectra, healpix_to_glass_spectra, regularized_spectra")),None,["index expressions into sequences of spectra"])
p("C12","Invalid input is rejected",
"Inputs that contradict each other or leave the documented domain raise an error on every path, before a result is returned or a first item yielded, and valid input is not rejected: numbers of spectra and fields that disagree, planes out of redshift order, bounds in the wrong order, contradictory options, unknown methods, wrong shapes, indefinite covariances and unsupported pairs of transformations.",
["inputs","histories"],"all invalid inputs named, all other arguments arbitrary",
"Tests try one invalid value per check; a guard that is weakened, misplaced or bypassed for some arguments still passes.",
["glass/fields.py","glass/lensing.py","glass/galaxies.py","glass/shapes.py","glass/shells.py","glass/observations.py","glass/algorithm.py","glass/grf/_core.py","glass/points.py"],
m(("guard clauses that raise","entry of the functions named")),None,["raised exceptions"])
p("C13","Iterative solvers end, and say so when they have not converged",
"The solver of Gaussian spectra and the nearest-correlation method end for every input, including input that is not finite, after no more iterations than allowed, and a result that did not meet its tolerance is never returned without a warning or a status that says so. A status of success is only ever given when the tolerance was met by the result returned.",
["inputs"],"all spectra, matrices, tolerances and iteration limits, including infinities and NaN",
"Non-convergence needs rare inputs; a hang cannot be a passing test.",
["glass/grf/_solver.py","glass/fields.py","glass/algorithm.py"],
m(("iteration limits and status","glass/grf/_solver.py:solve"),("warnings","glass/fields.py:solve_gaussian_spectra, glass/algorithm.py:nearcorr")),None,["return status and warnings"])
p("C14","Processing in chunks covers every element exactly once",
"Functions that work through long arrays or maps in chunks treat every element exactly once and in order, for every length: no element is skipped, repeated or left uninitialised at a chunk border, and the result does not depend on the chunk size. The same holds for packing populations into one output: each population fills its own section, as long as the number asked for it.",
["inputs"],"all array lengths and population counts, including lengths around multiples of the chunk size and empty populations",
"Tests use arrays shorter than one chunk, or a few lengths; border errors need lengths near multiples of the chunk size.",
["glass/galaxies.py","glass/shells.py","glass/points.py","glass/shapes.py"],
m(("strided loops","glass/galaxies.py:galaxy_shear, glass/shells.py:distribute"),("running offsets","glass/galaxies.py:redshifts_from_nz, glass/shapes.py:ellipticity_gaussian, ellipticity_intnorm, glass/points.py:_sample_galaxies_per_pixel")),None,["slices of the output"])
p("C16","Field transformations and their correlations are mutually consistent",
"For every supported pair of transformed Gaussian fields, the inverse correlation undoes the correlation, the derivative is the derivative of the correlation, and all three support the same pairs. The transformation and its correlation are their documented closed forms. Swapping the two fields never changes the result, and unsupported pairs raise an error instead of returning a value.",
["inputs","configurations"],"all supported pairs of transformations, all of their parameters in the domain (scale factors not negative) and all correlation values in the domain",
"Tests sample some parameters and values; they cannot show identities between formulas for all parameters, nor that every pair of classes is covered.",
["glass/grf/_transformations.py","glass/grf/_core.py"],
m(("closed forms","glass/grf/_transformations.py"),("dispatch in both orders","glass/grf/_core.py:corr, icorr, dcorr")),None,["return values"])
p("C17","Files written are complete, closed and read back alike",
"Spectra files are read back under the names and with the division they were written with. A catalogue is closed whether or not the block that writes it fails, every batch is appended after the rows already written, and columns are written together with their own names, in whatever order a batch gives them. An existing file is replaced, an error inside the block is passed on unchanged, and catalogues written at the same time stay separate.",
["inputs","fault_sequences","histories"],"all spectra lists, all sequences of batches, and a failure at any point between batches",
"Tests write one small file and one failure; they do not see which rows survive a failure or where a later batch goes for other extension settings.",
["glass/user.py"],m(("matching keys","glass/user.py:save_cls, load_cls"),("context manager","glass/user.py:write_catalog"),("append at the current number of rows","glass/user.py:_FitsWriter._append")),None,["file contents"])
p("C18","Lens planes advance strictly in order and atomically",
"A lens plane is accepted only if its redshift is strictly greater than that of the plane before it; a rejected plane leaves the calculation as it was. After an accepted plane, the reported source redshift, matter field and lens weight are those of that plane, and the convergence is that of the multi-plane recurrence over all accepted planes in their order.",
["histories","inputs"],"all sequences of accepted and rejected planes and windows",
"Tests add planes in order and check one rejection; the state after a rejection followed by further planes, or after long sequences, is not sampled.",
["glass/lensing.py"],m(("check before update","glass/lensing.py:MultiPlaneConvergence.add_plane"),("properties","glass/lensing.py:MultiPlaneConvergence.zsrc, kappa, delta, wlens")),
[{"name":"planes","meaning":"redshifts, distances, weights and fields of the last two planes","where":"glass/lensing.py:MultiPlaneConvergence"}],["properties of the object"])
p("C19","Every option a caller sets is honoured",
"Each parameter of each public function influences what the function does for some value of it: none is silently ignored, on the wrappers around other libraries none is replaced by a fixed value or handed on under another meaning, and a tolerance, limit or method given to an outer function reaches the inner one.",
["configurations","inputs"],"all parameters of all public functions and methods, all other arguments arbitrary",
"Tests exercise most options at one value, often the default, where an ignored option makes no difference.",
["glass"],m(("arguments handed on by name","glass/healpix.py and all functions that call helpers")),None,["return values"])
p("C20","Lensing maps do not depend on which other maps are requested",
"The lensing potential, deflection and shear obtained from a convergence map are the same whichever of the other maps are requested with them, and are always returned in the order potential, deflection, shear. Requesting none returns an empty result.",
["configurations"],"all eight combinations of requested maps, with and without correction for discretisation, all maps and band limits",
"The tests for this function need data files that are downloaded, and run in few combinations if at all.",
["glass/lensing.py"],m(("successive filtering of one set of coefficients","glass/lensing.py:from_convergence")),None,["returned tuple"])
p("C21","Numerical helpers give the same result for every array library",
"For every numerical helper with library-specific branches, each branch computes the same operation on the same arguments with the same options, for every combination of optional arguments, and returns an array of the caller's library. Optional arguments left out have the same meaning in each branch. Functions run through NumPy get their array arguments converted and their results converted back, also inside tuples, lists and dictionaries, and those for HEALPix hand every argument on as the caller gave it, a band limit of 0 included. The random generators of all libraries take the same arguments and draw from the same distributions, with as many independent numbers as the requested size and the parameters call for.",
["configurations","inputs"],"all supported array libraries and all combinations of optional arguments of every helper",
"Each branch is tested alone with default options; options that only one branch passes on are not compared.",
["glass/_array_api_utils.py","glass/jax.py","glass/rng.py"],m(("branches by library name","glass/_array_api_utils.py:xp_additions"),("generator wrappers","glass/rng.py:Generator, glass/jax.py:Generator")),None,["return values"])
p("C22","Shorthand and sibling functions agree with what they stand for",
"A shorthand computes exactly what the general function computes: redshifts from a window and from its arrays, lens windows and lens planes, partition by a named method and the method itself, deprecated and current spectra and field functions; lists of fields for shells hold one transformation for every shell in the order of the shells, lognormal ones with the given shift at the effective redshift of the shell, or 1. Displacing and deflecting positions by one vector give equal latitudes and opposite changes in longitude.",
["inputs","configurations"],"all arguments of each pair of functions",
"Tests check each function of a pair on its own examples.",
["glass/galaxies.py","glass/lensing.py","glass/shells.py","glass/fields.py","glass/points.py"],
m(("delegation","glass/galaxies.py:redshifts; glass/fields.py:generate_gaussian, generate_lognormal, lognormal_gls; glass/lensing.py:add_window; glass/shells.py:partition"),("same formula","glass/points.py:displace, glass/lensing.py:deflect")),None,["return values"])
p("C23","Radial windows cover their intervals exactly",
"Every window starts and ends exactly at the bin edges or nodes it was asked for and is finely enough sampled to hold both, neighbouring windows share their common edge or node, and one window is made for each bin or interior node in order. The samples of tophat windows are about as far apart as asked for, and the effective redshift of a tophat window, or of any window given without one, is the mean redshift weighted by the window; a given one is kept. Redshift and distance grids start at the lower limit and, for a fixed number of steps, end at the upper one.",
["inputs"],"all bin edges, nodes, resolutions and weight functions",
"Tests look at a few grids; coverage must hold for every edge and resolution, including windows narrower than the resolution.",
["glass/shells.py","glass/observations.py"],m(("grids from edge to edge","glass/shells.py:tophat_windows, linear_windows, cubic_windows, _uniform_grid; glass/observations.py:fixed_zbins, equal_dens_zbins")),None,["window arrays"])
p("C24","Regularised covariances are symmetric and not indefinite",
"Clipping keeps the eigenvectors and all eigenvalues of a symmetric matrix but those below the given fraction of the largest eigenvalue, which are raised to it, so that for every matrix with a positive eigenvalue the result is symmetric and has no negative eigenvalue. The nearest-correlation method returns a symmetric matrix with ones on the diagonal, whenever it stops, and the nearest covariance is that of the correlations of its input, scaled back by the same standard deviations, and keeps the variances, including variances of zero, and rejects negative ones. The definiteness test of a set of spectra is true exactly when no eigenvalue of the covariance matrix of any multipole is negative.",
["inputs"],"all symmetric matrices, stacks of matrices, tolerances and iteration limits",
"Tests use a few small matrices; definiteness must hold for every spectrum.",
["glass/algorithm.py","glass/fields.py"],m(("square root of clipped eigenvalues on both sides","glass/algorithm.py:cov_clip"),("unit diagonal restored in every iteration","glass/algorithm.py:nearcorr")),None,["returned matrices"])
p("C25","Non-negative least squares stays feasible and improves",
"The non-negative least-squares solver never returns a negative coefficient and every step it takes goes from a feasible point towards the unconstrained solution of the active set, no further than the first coefficient that reaches zero. Coefficients outside the active set are exactly zero, those inside solve the normal equations of the active set, and when the solver stops before its iteration limit no inactive coefficient could improve the solution by more than the tolerance.",
["inputs"],"all matrices, right-hand sides, tolerances and iteration limits",
"The branch that shortens a step is rarely taken: small examples in tests reach the solution without it.",
["glass/algorithm.py"],m(("ratio test","glass/algorithm.py:nnls")),None,["returned vector"])
p("C26","Sequentially generated fields have exactly the requested covariances",
"Fields are generated one after another from independent standard normal numbers, and the combination of these numbers reproduces the requested covariances exactly, not only approximately: at every multipole the variance of each field and its covariances with as many earlier fields as correlations are kept equal the given spectra, for any positive semi-definite set of spectra, including fields without variance of their own, spectra of different lengths and stacks of matrices. Coefficients of different multipoles, and real and imaginary parts, are independent; those with m = 0 are real with the full variance; every coefficient is scaled by its own multipole and reaches the map transform in the transform's order. Every field that is returned is the transformation of its own Gaussian map, with the variance that follows from its own spectrum.",
["inputs","configurations"],"all positive semi-definite spectra, numbers of fields and correlations, band limits",
"Tests look at one random realisation or at small positive definite matrices; covariances of later fields, truncated correlations and degenerate fields only show as wrong statistics, or as a valid matrix that is rejected.",
["glass/fields.py","glass/harmonics.py"],
m(("iterated covariance factorisation","glass/fields.py:iternorm"),("rows of the covariance","glass/fields.py:cls2cov"),("combination and order of coefficients","glass/fields.py:_generate_grf, _glass_to_healpix_alm; glass/harmonics.py:multalm")),None,["scaling vectors and harmonic coefficients"])
p("C27","A monopole that is held fixed stays fixed",
"When the Gaussian spectrum is solved with a given monopole, the returned spectrum has exactly that value at the lowest multipole, whatever the number of iterations and step reductions, and its residual does not influence convergence. Spectra with zero monopole, and no others, are solved with the monopole held at zero.",
["inputs","configurations"],"all spectra, transformations, initial guesses and iteration limits",
"Tests check the monopole for one lognormal spectrum; an update that leaks into it needs further iterations or step halving.",
["glass/grf/_solver.py","glass/fields.py"],m(("zero residual and step at the monopole","glass/grf/_solver.py:solve"),("detection of a zero monopole","glass/fields.py:solve_gaussian_spectra")),None,["returned spectrum"])
p("C28","Redshift distributions, grids and weights follow their documented formulas",
"For all parameters and redshift grids: the Gaussian distribution is proportional to exp(-((z-mean)/sigma)^2/2) and the Smail distribution to z^alpha exp(-(alpha/beta) (z/z_mode)^beta), each normalised over its own last axis with the trapezoidal rule and then multiplied by the norm if one is given; Gaussian photometric errors of size sigma_0 (1+z) split a distribution into bins by differences of error functions, normalised for the truncation at zero; redshift bins of equal width or of equal trapezoidal density and grids in redshift or comoving distance have exactly the documented edges; distance, volume and density weights are 1/E(z), x(z)^2/E(z) and rho_m(z) x(z)^2/E(z) with distances in units of the Hubble distance; effective redshifts are weighted means; redshifts are sampled by inverting the cumulative trapezoidal integral; and the log-normal shift is the published polynomial.",
["inputs"],"all parameters, grids and contents of arrays, several distributions at once included",
"Tests compare with a few published numbers or check the normalisation; a wrong factor, axis or edge that keeps the normalisation, or agrees for the sampled values, passes.",
["glass/observations.py","glass/shells.py","glass/galaxies.py","glass/arraytools.py","glass/fields.py"],
m(("distributions and bins","glass/observations.py:gaussian_nz, smail_nz, tomo_nz_gausserr, equal_dens_zbins, fixed_zbins"),("weights and grids","glass/shells.py:DistanceWeight, VolumeWeight, DensityWeight, RadialWindow, redshift_grid, distance_grid"),("cumulative integrals","glass/arraytools.py:cumulative_trapezoid"),("inverse sampling","glass/galaxies.py:redshifts_from_nz")),None,["returned arrays"])
p("C29","Functions of redshift are divided among shells as documented",
"For every function and every set of radial windows, however their grids interleave, nest, touch or lie apart: a function restricted to a window is sampled at the samples of the window and at its own samples strictly inside, and is the product of both interpolations, the function being zero outside its range. Partition by restriction integrates these; partition by least squares, non-negative or not, solves exactly the documented problem: normalised windows on the union of all grids against the function, weighted by the grid spacing, with one further row that holds the sum to the integral of the function within the tolerance. Combining windows sums the given weights times windows of unit integral, each zero outside its own range. Distributing redshifts chooses a window with probability proportional to its value there, and -1 where all windows vanish. Products of functions are integrated over the union of their samples within their common range, and the effective bias is such an integral divided by the integral of the window.",
["inputs"],"all functions, windows and orders of their samples, several functions at once included",
"Tests use a few smooth functions with windows that share grids and cover the function; edges, missing overlap and normalisation on the wrong grid need other arrangements.",
["glass/shells.py","glass/arraytools.py","glass/points.py"],
m(("restriction","glass/shells.py:restrict"),("partition","glass/shells.py:partition_restrict, partition_lstsq, partition_nnls"),("combination and shares","glass/shells.py:combine, distribute"),("products","glass/arraytools.py:trapezoid_product; glass/points.py:effective_bias")),None,["returned arrays"])
p("C30","Lensing maps, planes and spectra follow the documented formulas",
"The convergence after any sequence of added planes equals, in a flat universe, the line-of-sight sum over all earlier planes with weights (3/2) Omega_m w x (x_s - x) / x_s (1+z)/E(z), and planes added as windows have the effective redshift of the window and its integral over its value there as weight; matrices and weights of several shells describe the same sums. Potential, deflection and shear are obtained from the convergence with the documented factor for every multipole, the monopole and, for shear, the dipole vanishing, and pixel-window ratios applied to shear only when asked for. Galaxies get the shear and convergence of the pixel they lie in, combined to (e+g)/(1+g* e) with g = gamma/(1-kappa), or e+gamma if not reduced. The intrinsic alignment model, pixel-window discretisation and truncation of spectra, effective spectra of weighted fields and the multiplication of coefficients by a function of multipole follow their documented formulas.",
["inputs","histories","configurations"],"all maps, weights, redshifts, numbers of planes, band limits and combinations of options",
"Tests compare two or three planes or one multipole with stored numbers and look at shapes; later planes, other band limits and combinations of options are not reached.",
["glass/lensing.py","glass/galaxies.py","glass/fields.py","glass/harmonics.py"],
m(("recurrence over planes","glass/lensing.py:MultiPlaneConvergence"),("factors of multipoles","glass/lensing.py:from_convergence"),("reduced shear","glass/galaxies.py:galaxy_shear"),("spectra","glass/fields.py:discretized_cls, effective_cls; glass/harmonics.py:multalm")),
[{"name":"previous planes","meaning":"convergence and matter of the last planes kept by the multi-plane object","where":"glass/lensing.py:MultiPlaneConvergence"}],["returned maps and spectra"])
p("C31","Positions and shapes are the documented functions of uniform and normal numbers",
"Expected galaxy counts are the mean count per pixel times one plus the biased density contrast, from which its own mean is removed if asked for, times the visibility, never negative, and these are what the Poisson draw gets. Uniform positions are uniform in longitude and in the sine of latitude. Photometric redshifts are normal about the true redshift with width sigma_0 (1+z). The projected axis ratio of a triaxial ellipsoid is that of Binney (1985) for a uniform viewing direction, and the Ryden (2004) ellipticity follows from it with a log-normal thickness, normal triaxiality and uniform orientation. Gaussian and intrinsic-normal ellipticities are the documented functions of two independent normal numbers of the requested width, population after population, and resampled shapes keep the given moduli, rescaled to the requested variance, with uniform orientation. Linear and log-linear bias and position weights follow their definitions.",
["inputs","configurations"],"all parameters, populations and combinations of optional arguments, for every outcome of the random draws",
"Tests look at sample means, bounds and shapes; a wrong distribution with nearly the same moments, or one that differs for later populations or unusual parameters, passes.",
["glass/points.py","glass/galaxies.py","glass/shapes.py"],
m(("expected counts and positions","glass/points.py:positions_from_delta, uniform_positions"),("photometric redshifts","glass/galaxies.py:gaussian_phz"),("shapes","glass/shapes.py:triaxial_axis_ratio, ellipticity_ryden04, ellipticity_gaussian, ellipticity_intnorm, resample_shapes")),None,["returned samples"])
p("N01","Generated fields have the requested angular power spectra",
"The ensemble of fields generated from a set of angular power spectra has these auto- and cross-spectra up to sampling noise. The requested correlations between shells are preserved up to the chosen correlation length.",
["inputs","histories"],"all sets of spectra and the ensemble of random realisations",
"A statistical statement over all realisations; tests look at one.",
["glass/fields.py"],m(("iterated covariance factorisation","glass/fields.py:iternorm, _generate_grf")),None,["generated maps"])
p("N02","Galaxy counts follow the requested density field",
"The numbers of galaxies placed in pixels follow the Poisson distribution with the mean given by density, bias and visibility, and positions are uniform within their pixels.",
["inputs","histories"],"all density fields and all random realisations",
"A statement about the distribution of random outputs; tests compare totals of one realisation.",
["glass/points.py"],m(("Poisson sampling","glass/points.py:_sample_number_galaxies")),None,["numbers and positions"])
p("C15","Displacement undoes displacing",
"The displacement computed between a position and its displaced position is the displacement that was applied, up to rounding, for every position away from the poles and every displacement shorter than half a turn. The displaced position lies on the great circle through the position, as far away as the displacement is long, in the direction of its angle measured from north towards east, whether displacements are given as complex numbers or as pairs of components.",
["inputs"],"all positions and displacement vectors in the domain, both ways of passing displacements",
"Tests sample positions; identities between formulas must hold for all of them.",
["glass/points.py"],m(("spherical trigonometry","glass/points.py:displace, displacement")),None,["return values"])
p("N04","Lensing maps reproduce the analytic lensing relations numerically",
"The multi-plane convergence converges to the line-of-sight integral, and shear and deflection maps satisfy the harmonic relations to the accuracy of the spherical-harmonic transforms.",
["inputs"],"all cosmologies, shells and maps",
"A numerical accuracy claim about discretisation and external transforms.",
["glass/lensing.py"],m(("recurrence and harmonic filters","glass/lensing.py")),None,["maps"])
