TODO = "not yet built"
T = "The tests evaluate a handful of fixed parameter sets with loose tolerances"

prop("P01", "Lens map and Jacobian determinant are the stated rational functions",
     "For every image position and every admissible lens configuration (one, two or three point lenses in the documented units and reference frame), the source position returned by the lens map is z minus the sum of each mass fraction over the conjugate of the separation from that lens. The Jacobian determinant returned for the same position is exactly that of this map, 1 minus the squared modulus of the derivative of the deflection, for all three lens counts.",
     ["inputs", "configurations"], "all complex image positions off the lenses, all s>0, q>0, q3>0, r3, psi and lens counts 1, 2, 3",
     T + "; an error in one mass, position or power that is small or vanishes at symmetric parameters goes unseen.",
     ["point_source.py"], [("lens map", "point_source.py:lens_eq"), ("Jacobian determinant", "point_source.py:lens_eq_det_jac")], ["microjax.point_source.lens_eq", "microjax.point_source.lens_eq_det_jac"],
     note="unbounded proof over the reals/complexes for all inputs, per lens count; floating-point rounding treated as exact arithmetic")

prop("P02", "Image and critical-curve polynomials encode the lens equation exactly",
     "For every source position and lens configuration, the complex image polynomial vanishes at every position the lens map sends to the source, so no image can be lost, and it is the full clearing of denominators of the conjugated lens equation (degree 5 for two lenses, 10 for three, in both supported reference frames). For every phase, the critical-curve polynomial vanishes exactly at the positions where the derivative of the deflection has that phase and unit modulus. Both hold identically in all lens parameters.",
     ["inputs", "configurations"], "all source positions, phases and lens parameters, for the binary, the triple in the centre-of-mass frame and the triple in the mid-point frame",
     "The expanded coefficients run to more than a thousand lines; the tests sample a few configurations and would accept a wrong term multiplied by a parameter that is zero or tiny there.",
     ["coeffs.py"], [("binary image polynomial", "coeffs.py:_poly_coeffs_binary"), ("triple image polynomial", "coeffs.py:_poly_coeffs_triple_CM"), ("triple image polynomial, mid-point frame", "coeffs.py:_poly_coeffs_triple"), ("critical polynomials", "coeffs.py:_poly_coeffs_critical_binary")],
     note="unbounded proof: coefficient-by-coefficient polynomial identity by exact normalisation")

prop("P03", "Point-source images and magnification are exactly the true solutions",
     "Whatever roots the polynomial solver returns, a candidate image is flagged valid exactly when the lens map sends it back to the source within the documented tolerance, and the point-source magnification is the sum of the reciprocal absolute Jacobian determinants over the valid images, computed per source position with array shape preserved. For one lens the images and magnification equal the closed form (u^2+2)/(u sqrt(u^2+4)). The sequential (trajectory) and the independent evaluation apply the same rule, and an unsupported lens count is rejected with an error rather than answered.",
     ["inputs", "configurations"], "all source positions, array shapes up to the generic batch, lens parameters, and all possible root-solver outputs",
     T + "; the mask is only ever exercised on well-separated roots, and batching on one or two shapes.",
     ["point_source.py"], [("images", "point_source.py:_images_point_source"), ("sequential images", "point_source.py:_images_point_source_sequential"), ("magnification", "point_source.py:mag_point_source")], ["microjax.point_source.mag_point_source"],
     note="proved per scalar source and for representative batch shapes, with the root solver replaced by arbitrary values; tolerance comparisons proved as stated; lens-count rejection executed")

prop("P04", "Critical curves are zero-determinant points and caustics are their lens images",
     "Every point of the reported critical curve solves the critical-curve polynomial for its sample phase (hence has zero Jacobian determinant when the solver's roots are exact), and the reported caustic point at the same index is the lens map of that critical point. Both are returned in the user's coordinate frame with the documented centre-of-mass shift and mass fractions for two and three lenses. Connecting samples into branches only reorders points: no root is dropped, duplicated or altered.",
     ["inputs", "configurations"], "all lens parameters (two and three lenses), all solver outputs, every sample phase",
     T + " and compare a few curve points.", ["point_source.py"], [("critical and caustic curves", "point_source.py:critical_and_caustic_curves"), ("branch tracking", "utils.py:match_points")], note='proved for every lens parameter, phase and solver/matcher output; representative sample count 3 (each step of the scan uses the same body); single-lens ring executed')

prop("P05", "Root tracking between consecutive samples is a permutation",
     "When the roots found at one sample are matched to those of the next, the result is always a permutation of the new roots: each new root is used exactly once, none is lost or invented, for every pair of root sets including ties and duplicated roots. Each old root, in order, receives the closest new root that has not already been taken.",
     ["inputs"], "all pairs of root vectors of the lengths used by the solvers", "Ties, crossing roots and duplicates never occur in the sampled trajectories.",
     ["utils.py"], [("greedy matching", "utils.py:match_points")], note='unbounded over all point sets for lengths 4, 5, 6, 10 (the lengths the library uses); z3')

prop("P06", "The polynomial root solver performs exact Ehrlich-Aberth steps and gradients",
     "Each iteration moves every unconverged root by the Ehrlich-Aberth correction of the given polynomial, leaves roots already at the requested tolerance unchanged, and stops only when all have converged or the iteration limit is reached. Starting points lie on or inside the Cauchy bound that contains every root. Derivatives of roots with respect to coefficients are those of the implicit function theorem, and batched calls return for each polynomial what a single call would.",
     ["inputs", "histories"], "all polynomials of every degree the library uses, all starting points, any number of iterations", "A handful of polynomials; convergence hides wrong corrections, early stopping and frozen roots.",
     ["poly_solver.py"], [("iteration", "poly_solver.py:poly_roots"), ("implicit differentiation", "poly_solver.py:_poly_roots_jvp")], note='loop invariant proof: any number of iterations, degrees 4, 5, 6, 10 and representative batches; convergence itself is not claimed')

prop("P07", "Multipole coefficients are the exact Taylor expansion of the magnification",
     "For every image that is not on a critical curve, the quadrupole and hexadecapole corrections equal the source-disc averages of the second- and fourth-order Taylor terms of that image's magnification as a function of source position, for two and three lenses in general position. For linear limb darkening the two corrections carry the exact moment ratios of that profile. The total is the sum over valid images with the sign of the parity removed.",
     ["inputs", "configurations"], "all image positions, radii, limb-darkening coefficients and lens parameters", T + " against direct integration at a few percent.",
     ["multipole.py"], [("multipole expansion", "multipole.py:mag_hexadecapole")], note='unbounded proof over all images, radii, coefficients and lens parameters; representative image counts; exact arithmetic')

prop("P08", "Limb profile is normalised and boundary weights are exact crossings",
     "The linear limb-darkened surface brightness is non-negative, zero outside the stellar disc and integrates to one over the disc for every coefficient in [0,1]. A sample counts as inside exactly when its distance is below the source radius, the distance being that of its lens-mapped position, and the weight of a cell at the limb is the exact integral of a square-root profile from the crossing to the cell edge (the linear rule below the documented threshold). The derivatives exposed for gradients are those of the documented sigmoid-smoothed profile and step, and evaluating under automatic differentiation returns the same value as without.",
     ["inputs"], "all radii, distances, crossing gaps, coefficients in [0,1] and lens parameters", "Integrals over a sampled profile at one coefficient; sign combinations are not covered.",
     ["inverse_ray/limb_darkening.py", "inverse_ray/boundary.py"], [("profile", "inverse_ray/limb_darkening.py:Is_limb_1st"), ("boundary", "inverse_ray/boundary.py:in_source")], note='unbounded proof; the value under differentiation is a known finding for two functions (value smoothed near the limb); exact arithmetic')

prop("P09", "Adaptive light curves keep order and refine exactly the flagged points",
     "An adaptive light curve returns one magnification per input epoch, in input order. Epochs that pass the accuracy tests keep the multipole value, the first flagged epochs up to the call budget get the finite-source value for that very epoch, the rest keep the multipole value, and neither the chunk size nor padding changes any result. The accuracy tests compare the documented quantities with the documented thresholds for every source position and lens.",
     ["inputs", "configurations"], "all test outcomes over the epochs, all chunk sizes and budgets relative to the number of epochs, all lens parameters", "Tests use one budget and one chunk size and compare with a loose tolerance, so a swapped or padded entry is invisible.",
     ["inverse_ray/lightcurve.py", "inverse_ray/cond_extended.py"], [("adaptive light curve", "inverse_ray/lightcurve.py:mag_binary"), ("accuracy tests", "inverse_ray/cond_extended.py:test_full")], note='unbounded over all numbers; light-curve drivers proved for every outcome pattern of the tests at representative epoch counts, budgets and chunk sizes with the integrators behind contracts; one accuracy test has dead third-lens code, proved for two lenses')

prop("P10", "The polar integration region covers every image-limb sample",
     "The set of polar cells selected for inverse-ray integration contains every valid image of every sampled limb point, for all image configurations: radial and angular intervals built from occupied bins are widened outward by the margins, are merged without dropping an occupied bin, and wrap correctly across the branch cut. Cells are disjoint up to shared edges so no area is counted twice.",
     ["inputs", "configurations"], "all sets of image-limb positions (off the angular bin edges) and bin counts; exact arithmetic",
     "Gaps at the wrap-around or at adjacent bins need particular image layouts.",
     ["inverse_ray/merge_area.py"], [("region construction", "inverse_ray/merge_area.py:define_regions"), ("limb images", "inverse_ray/merge_area.py:calc_source_limb")],
     note="each stage proved for all sample values, margins and lens parameters at representative numbers of samples, bins and rows (z3), and for any number of limb samples for clustering (4 bins), occupancy, radial merge (2-3 rows) and final refinement (symbolic-length trace, quantified z3), composed through stage contracts; cell-capacity overflow is a known finding; end-to-end execution labelled bounded")

prop("P11", "Inverse-ray magnification is the stated image-plane quadrature",
     "The inverse-ray finite-source magnification equals the sum over polar cells of surface brightness at the mapped source position times image-plane area element, with edge cells weighted by the clipped crossing fraction given by four-point Lagrange interpolation of the source distances, divided by the source area. Uniform and limb-darkened versions use the same geometry, the same lens map and the same reference frame for two and three lenses.",
     ["inputs", "configurations"], "all source positions, radii, lens parameters and cell boxes", T + ".",
     ["inverse_ray/extended_source.py", "inverse_ray/boundary.py"], [("uniform", "inverse_ray/extended_source.py:mag_uniform"), ("limb darkened", "inverse_ray/extended_source.py:mag_limb_dark")], note='unbounded over all regions, distances and lens parameters, every inside/outside pattern of an angular row at representative grid sizes, production grids executed (bounded); callees (limb mapping, region construction, distance) behind contracts proved in P03, P08, P10')

prop("P12", "Contour magnification is the Green-theorem line integral",
     "For every closed image contour the contour-integration area equals the line integral of the enclosed polygon including its closing edge, independent of the starting vertex and of the origin, with orientation carrying the sign and zero-padding contributing nothing. Limb-darkened contours use Dominik's P and Q primitives of the linear limb-darkening profile from the centroid of the contour. The total magnification is the absolute value of the parity-weighted sum over all contours divided by the source area pi rho^2, for one, two and three lenses in the frame of the lens system's documented origin.",
     ["inputs"], "all vertex lists, paddings, parities, lens parameters and source positions", T + ".", ["caustics/integrate.py", "caustics/extended_source/mag.py", "caustics/extended_source/contours.py"],
     [("line integral", "caustics/integrate.py:_integrate_unif"), ("limb-darkened line integral", "caustics/integrate.py:_integrate_ld"), ("magnification", "caustics/extended_source/mag.py:mag_extended_source"), ("contours", "caustics/extended_source/contours.py:_contours_from_open_segments")],
     note="line integrals proved for any number of vertices (sums along the contour abstracted) and for every short zero-padded buffer; quadrature order of the limb-darkened integrand small but symbolic data; padding patterns of merged contours enumerated; limb tracing and segment merging enter through their contracts (P03-P05, P13); exact arithmetic")

prop("P13", "Image-contour assembly neither loses nor duplicates limb images",
     "Every sample of the traced limb holds the images of one limb point with their own validity and parity, and the samples, those inserted by refinement included, run in order once around the limb. Following images along the source limb only reorders the images of each sample, together with their validity and parity. A track whose images are all valid and whose ends meet is one closed contour; every other track is split into its maximal runs of valid images with one parity and no jump above 0.1, in order, each image in exactly one run, and every run of at least two images is kept exactly once. Joining two runs (tail-head, head-tail, head-head, tail-tail) keeps every vertex of both once, end to end, a reversed run with the opposite parity. Runs are joined only under the documented condition (parity rule; distance, angle and gap reduction, or touching ends), and the merging loop consumes each run by exactly one contour.",
     ["inputs", "histories"], "all validity, parity and jump patterns along the limb, all image positions, all orders and outcomes of the joining tests", "Only the patterns of a few trajectories occur in tests.",
     ["caustics/extended_source/segments.py", "caustics/extended_source/limb.py"],
     [("splitting", "caustics/extended_source/segments.py:_split_segment"), ("partition", "caustics/extended_source/segments.py:_get_segments"), ("joining", "caustics/extended_source/segments.py:_merge_two_segments"),
      ("joining condition", "caustics/extended_source/segments.py:_connection_condition"), ("merging loop", "caustics/extended_source/segments.py:_merge_open_segments"), ("following images", "caustics/extended_source/limb.py:_permute_images")],
     note="vertices symbolic; every validity/parity/jump pattern of tracks up to 5 samples; joining up to 3+3 vertices; merging loop for every length order and every first decision on 3 pieces and sampled decision scripts on 4 and 5 pieces; capacities of the code (10 runs per track, 3*(n^2+1) runs, 3 merged contours, a merged contour within 4 buffers) are preconditions; longer tracks executed, labelled bounded")

prop("P14", "Zero-padded array helpers ignore padding for every fill level",
     "The helpers on zero-padded arrays (positions of the first and last nonzero and first zero entry, minimum, maximum and mean over the nonzero entries, ordering with the padding last, trapezoid integral over the filled points) return what their documentation says for every content, and give the same answer whatever the amount of padding, whichever axis is chosen and for any fill level, including full arrays.",
     ["inputs"], "all array contents, fill levels and amounts of padding", "Tests use one length and one fill level.", ["utils.py"], [("helpers", "utils.py")],
     note="all contents and all lengths (symbolic-length trace, contracts of sort/argmax/min/max/sum, quantified z3), and, besides, every pattern of zeros for lengths up to 5; long arrays also executed, labelled bounded")

prop("P15", "Linear flux fit is the exact weighted least-squares optimum",
     "For every model light curve and data set with positive uncertainties (per point, a single number, or left at the default), the fitted source and blend fluxes satisfy the weighted normal equations, the returned chi-square is the sum of squared weighted residuals at those fluxes, and the returned standard errors are those of the weighted linear fit, for any number of data points.",
     ["inputs"], "all models, data, positive uncertainties and numbers of data points", T + ".", ["likelihood.py"], [("linear chi2", "likelihood.py:linear_chi2")],
     note="unbounded over data and the number of points (sums abstracted to moments, program shown independent of the length); exact arithmetic")

prop("P16", "Marginal likelihood is the exact Gaussian integral over linear fluxes",
     "The negative log likelihood marginalised over source and blend fluxes equals, up to the documented constant that depends only on the number of points, the exact Gaussian marginal for the given noise covariance and flux prior, for diagonal and dense noise, with or without prior means, for any number of data points.",
     ["inputs", "configurations"], "all data, models, noise and prior values; both noise forms", T + ".", ["likelihood.py"], [("marginal likelihood", "likelihood.py:nll_ulens")],
     note="unbounded over data and the number of points (moments / bilinear forms); the LAPACK factorisation and solve are assumed contracts; exact arithmetic")

prop("P17", "Sky projection basis is orthonormal and parallax vanishes at the reference time",
     "For every event position away from the poles, the Sun's projected offset is taken along the event's east and north unit vectors, which with the line of sight form a right-handed orthonormal triad; the offset is the orbit position minus its tangent at the reference time, so that it vanishes there together with its first-order (symmetric-difference) velocity, and the displacement applied to the trajectory is the documented bilinear form in the parallax vector.",
     ["inputs"], "all sky positions, epochs, parallax vectors and reference times", T + ".", ["trajectory/parallax.py"], [("projection", "trajectory/parallax.py:set_parallax"), ("displacement", "trajectory/parallax.py:compute_parallax")],
     note="unbounded over positions, epochs and parallax vectors; the Kepler solver enters through its P18 contract; exact arithmetic")

prop("P18", "Earth orbit follows Kepler's equation for every epoch",
     "The eccentric anomaly used for the Earth's position solves Kepler's equation to within rounding for every mean anomaly and every eccentricity up to 0.3 (the Earth's is 0.017); the position is the point of the Kepler ellipse (Sun in a focus) at that anomaly, the mean anomaly counted from the perihelion with the given period, in an orbital plane rotated by the true anomaly of the equinox; and the perihelion returned for a reference time is the nearest one, with the spring equinox of the same orbit, under both supported time conventions.",
     ["inputs"], "all mean anomalies, eccentricities up to 0.3 and all reference times the library's conventions cover", T + ".", ["trajectory/parallax.py"], [("Kepler solver", "trajectory/parallax.py:getpsi"), ("perihelion and equinox", "trajectory/parallax.py:peri_vernal"), ("position on the orbit", "trajectory/parallax.py:project_earth_position"), ("orientation of the orbit", "trajectory/parallax.py:set_parallax")],
     note="unbounded over anomalies and reference times: rigorous error bounds of the fixed Newton iterations discharged by z3; the Taylor bounds of sine and cosine are an assumed contract; exact arithmetic")

prop("P19", "Single-lens finite-source magnification is the exact profile convolution",
     "For every impact parameter and source radius, the single-lens finite-source models (NumPy and JAX: uniform disk, sqrt(1-t^2) limb, (1-t^2) limb, linear limb darkening) depend only on |u|; at u = 0 they return the exact disk average of the point-lens magnification; for radii below rho_switch they return the point-lens magnification beyond u_switch radii and the scaled small-source table inside; otherwise they interpolate, in log u with the value 1 beyond u = 100, the inverse Hankel transform of (transform of A-1) times (transform of the unit-flux profile) times the stated Gaussian damping. The NumPy and JAX versions compute the same function (tables sampled on different grids only for the small-source scaling), and both are within 0.4 per cent of direct integration over the source away from its edge.",
     ["inputs", "configurations"], "all impact parameters, radii, switches and limb-darkening coefficients in [0,1]", T + ".", ["fastlens/mag_fft_jax.py", "fastlens/mag_fft.py"], [("finite-source magnification, JAX", "fastlens/mag_fft_jax.py:magnification.A"), ("finite-source magnification, NumPy", "fastlens/mag_fft.py:magnification.A"), ("profiles and central values", "fastlens/mag_fft_jax.py:magnification_limb1")],
     note="unbounded over u, rho, switches, coefficients and table contents; the table is traced with 2 or 3 nodes; Hankel transform by contract (P21), special functions by contract (P20), interpolation external; the 0.4 per cent accuracy of the tabulation is a bounded execution check, as numerical quadrature error is outside exact arithmetic")

prop("P20", "Special functions equal their definitions and expose the right derivatives",
     "For every argument in the documented domain: gamma and digamma of a complex argument equal the shifted Stirling series or its reflection, are undefined exactly at the poles of gamma, and the derivative of gamma is gamma times digamma; the complete elliptic integrals of a scalar parameter below one are the Gauss arithmetic-geometric-mean values (to 1e-13 for 1e-3 <= 1-m <= 1e3) with the textbook derivatives, also at zero and for negative parameters; J0 and J1 are within 1e-13 of the Bessel functions for every real argument, with the right parity and derivatives (also at zero), and J2 and J3/2 satisfy their closed forms in terms of them.",
     ["inputs"], "all complex arguments of gamma and digamma, all elliptic parameters below one, all real Bessel arguments (positive for J2 and J3/2)", T + ".", ["fastlens/special.py"], [("gamma and digamma", "fastlens/special.py:gamma_"), ("elliptic integrals", "fastlens/special.py:ellipk"), ("Bessel functions", "fastlens/special.py:j0_")],
     note="unbounded over arguments: branch by branch identities (ring normaliser, z3), Bernstein bounds in rational arithmetic for the Cephes approximations; assumed: Stirling remainder, reflection formulas, Gauss's AGM theorem, Bessel series and asymptotics, Gronwall; exact arithmetic")

prop("P21", "The log-FFT Hankel transform has the exact kernel, window and grid",
     "The logarithmic FFT transform uses the exact Mellin kernels of the spherical Bessel function, its two derivatives and its square, a window that is one inside and tapers to zero at the last mode, log-linear extrapolation beyond the grid, and output abscissae (l+1) divided by the input grid, paired with the corresponding values after padding and extrapolation are cut off again; the NumPy and the JAX versions compute the same values for every input.",
     ["inputs", "configurations"], "all inputs, orders and exponents (real part of the kernel's numerator argument not zero); grid sizes: the listed small grids with every combination of padding, extrapolation and parity", T + ".", ["fastlens/fftlog.py", "fastlens/fftlog_jax.py"], [("Hankel transform", "fastlens/fftlog.py:fftlog"), ("JAX version", "fastlens/fftlog_jax.py:fftlog"), ("kernel", "fastlens/fftlog_jax.py:g_m_vals")],
     note="unbounded over sample values, orders and exponents; the whole-transform obligations are per listed grid size (4 to 8 samples); rfft/irfft and the NumPy Gamma function are external contracts; exact arithmetic")
