import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [])))
S='src/microjax/'
p('P01','Lens map and its Jacobian determinant describe the same lens',
 'For one, two and three point lenses the published lens mapping is the exact point-mass deflection law for the stated masses and positions, and the published Jacobian determinant equals 1-|dw/dzbar|^2 of that same mapping at every image position. An unsupported lens count is refused with a ValueError instead of being evaluated.',
 ['inputs','configurations'],'all complex image positions, masses, separations, third-lens radii and angles, and lens counts 1-3',
 'Tests evaluate a few seeded positions; an error multiplied by a parameter the test holds at a special value (third-lens angle, equal masses) never shows.',
 [S+'point_source.py'],[('lens_eq',S+'point_source.py'),('lens_eq_det_jac',S+'point_source.py')])
p('P02','Image polynomials encode the lens equation exactly, so no image is lost',
 'For two and three lenses, the polynomial handed to the root finder is, coefficient by coefficient, a nonzero multiple of the complex lens equation with its conjugate eliminated and denominators cleared, in the coordinate origin that is later added back. Hence every solution of the lens equation is a root, for every source position and lens configuration.',
 ['inputs'],'all source positions and lens parameters (symbolic), both triple-lens variants',
 'Tests compare roots at sampled parameter sets with tolerances; a wrong term in one of several hundred coefficient monomials can be invisible at those samples.',
 [S+'coeffs.py',S+'point_source.py'],[('_poly_coeffs_binary',S+'coeffs.py'),('_poly_coeffs_triple_CM',S+'coeffs.py'),('_poly_coeffs_triple',S+'coeffs.py')])
p('P03','Critical curves satisfy |dw/dzbar|=1 and caustics are their exact image',
 'The points returned as critical curves are the roots, over a full turn of phase, of the polynomial form of dw/dzbar = exp(-i phi) for the given lens; the caustic points are the lens map of exactly those points, in the same order. Each row follows one curve, successive phases being matched to the nearest unused root of the phase before. Both are reported in the documented centre-of-mass frame, using one and the same shift.',
 ['inputs','configurations'],'all phases, separations, mass ratios, third-lens positions, sample counts',
 'Tests look at a few (s,q) pairs with loose tolerances; they do not vary the third lens angle or check every coefficient.',
 [S+'coeffs.py',S+'point_source.py'],[('critical_and_caustic_curves',S+'point_source.py'),('_poly_coeffs_critical_binary',S+'coeffs.py'),('_poly_coeffs_critical_triple',S+'coeffs.py')])
p('P04','Point-source magnification sums 1/|det J| over genuine images only',
 'The point-source magnification equals the sum of 1/|det J| over exactly those candidate images whose lens-equation residual (same lens, same source position) is below the documented tolerance: 1e-6 for two lenses, 1e-3 for three, all candidates for one. Candidates failing the residual test never contribute, and the output has the shape of the input.',
 ['inputs','configurations'],'all source positions (inside, outside and on caustics), lens counts and parameters',
 'Tests sample trajectories; whether a spurious root is rejected depends on which roots are spurious at that point.',
 [S+'point_source.py'],[('_images_point_source',S+'point_source.py'),('mag_point_source',S+'point_source.py')])
p('P05','Every solver uses one convention for masses, positions and coordinate frame',
 'Every entry point that accepts s, q (and q3, r3, psi) places the lenses at +s/2, -s/2 and r3*exp(i psi) with mass fractions q, 1, q3 over their sum, and interprets source positions in the centre-of-mass frame of the first two lenses, shifting by s/2*(1-q)/(1+q) exactly once. Results of different solvers for the same inputs therefore refer to the same physical configuration.',
 ['inputs','configurations'],'all public solvers x lens counts x all parameter values',
 'A missed, doubled or sign-flipped shift, or a mass-fraction slip, vanishes at q=1, q3=0 or psi=0; tests use few configurations and seldom compare triple-lens solvers at all.',
 [S+'point_source.py',S+'multipole.py',S+'inverse_ray/lightcurve.py',S+'inverse_ray/extended_source.py',S+'inverse_ray/merge_area.py',S+'caustics/lightcurve.py',S+'caustics/extended_source/mag.py'],
 [('mag_point_source',S+'point_source.py'),('mag_binary/mag_triple',S+'inverse_ray/lightcurve.py'),('mag_uniform/mag_limb_dark',S+'inverse_ray/extended_source.py'),('calc_source_limb',S+'inverse_ray/merge_area.py'),('magnifications',S+'caustics/lightcurve.py'),('mag_extended_source',S+'caustics/extended_source/mag.py')])
p('P06','Hexadecapole approximation is the exact fourth-order source-size expansion',
 'For one, two and three lenses the multipole magnification is the point-source term plus the exact rho^2 and rho^4 terms of the source-size expansion of the lens map (Cassan 2017), with limb-darkening weights (1-Gamma/5) and (1-11 Gamma/35) where Gamma=2u1/(3-u1). The accompanying error estimate is the sum over genuine images of the absolute quadrupole and hexadecapole terms.',
 ['inputs','configurations'],'all image positions, lens parameters, source radii and limb-darkening coefficients',
 'Tests compare against a reference code far from caustics with small rho, where errors in the fourth-order terms are below tolerance.',
 [S+'multipole.py'],[('mag_hexadecapole',S+'multipole.py'),('_mag_hexadecapole_cassan',S+'multipole.py')])
p('P07','Adaptive light curves refine the right epochs and keep results in place',
 'In the adaptive binary and triple light curves each output element is the multipole value at its own source position unless that position fails the accuracy test and lies within the refinement budget, in which case it is the full inverse-ray value at that same position; refinement takes failing positions first. The batch size and its padding never change any value, order or shape.',
 ['inputs','configurations'],'all trajectories, all patterns of pass/fail, all budgets and chunk sizes (including non-dividing and oversized ones)',
 'Tests run one or two chunk sizes and budgets large enough for all points; misplacement only shows with particular pass/fail patterns.',
 [S+'inverse_ray/lightcurve.py'],[('mag_binary',S+'inverse_ray/lightcurve.py'),('mag_triple',S+'inverse_ray/lightcurve.py')])
p('P08','Every accuracy and physics option reaches the solver it is meant for',
 'Each option accepted by a public magnification routine (grid resolutions, bin counts, margins, limb samples, limb darkening, smoothing scale, quadrature sizes, lens count, lens parameters) is the value actually used by the stage it names, unmodified and not exchanged with another option, in the uniform and the limb-darkened branch alike. Leaving limb darkening at zero selects the uniform-disk solver.',
 ['configurations'],'all combinations of options away from their defaults, every public entry point',
 'Tests mostly use defaults, for which a dropped or swapped option is indistinguishable from a forwarded one.',
 [S+'inverse_ray/lightcurve.py',S+'inverse_ray/extended_source.py',S+'caustics/lightcurve.py',S+'caustics/extended_source/mag.py'],
 [('mag_binary/mag_triple',S+'inverse_ray/lightcurve.py'),('mag_uniform/mag_limb_dark',S+'inverse_ray/extended_source.py'),('magnifications',S+'caustics/lightcurve.py'),('mag_extended_source',S+'caustics/extended_source/mag.py')])
p('P09','Custom derivative rules differentiate the functions they are attached to',
 'Every hand-written derivative rule is linear in its tangents, evaluates the function it is attached to for its value, and its derivative is the analytic derivative of that function (polynomial roots, gamma, elliptic integrals, Bessel functions) or the derivative of the documented smooth surrogate (hard source-edge steps and limb profile).',
 ['inputs'],'all primal values and tangent directions of every rule, including tangents of secondary arguments',
 'Gradient tests check a few scalar directions; a missing tangent of a secondary argument or a wrong factor away from those points is not exercised.',
 [S+'poly_solver.py',S+'fastlens/special.py',S+'inverse_ray/boundary.py',S+'inverse_ray/limb_darkening.py'],
 [('_poly_roots_EA_jvp',S+'poly_solver.py'),('gamma_jvp, ellipk_jvp, ellipe_jvp, j0_jvp, j1_jvp',S+'fastlens/special.py'),('in_source_jvp, step_smooth_jvp, calc_facB_jvp',S+'inverse_ray/boundary.py'),('Is_limb_1st_jvp',S+'inverse_ray/limb_darkening.py')])
p('P10','Root finder performs Ehrlich-Aberth steps and stops only when all converged',
 'The polynomial root finder iterates the Ehrlich-Aberth update (Newton when its denominator degenerates) from the documented starting circle or the supplied guesses, freezes a root only once its own update fell below the tolerance, and stops only when every root is frozen or the iteration cap is hit. Batching is elementwise: each polynomial in a batch gets exactly the result it would get alone.',
 ['inputs','histories'],'all degrees, coefficients, starting points, iteration histories and batch shapes',
 'Tests solve a handful of polynomials with tolerances; a premature stop or cross-talk only shows for slowly converging members of a batch.',
 [S+'poly_solver.py'],[('poly_roots_EA',S+'poly_solver.py'),('_ea_step',S+'poly_solver.py'),('poly_roots',S+'poly_solver.py')])
p('P11','Likelihoods are exact Gaussian marginals; the line fit is least squares',
 'The general flux likelihood is half of the Mahalanobis term minus the posterior quadratic form plus the three log-determinants of the linear-Gaussian model, and the fast likelihood is that expression for diagonal noise and zero-mean diagonal priors. The straight-line fit solves the weighted normal equations for scalar and per-point errors alike, with zero errors meaning unit weight.',
 ['inputs'],'all data sets, design matrices, covariances, priors and error arrays (scalar or per-point)',
 'Tests use small random data sets with convenient priors (zero mean, diagonal), which hide swapped or missing terms.',
 [S+'likelihood.py'],[('linear_chi2, nll_ulens, nll_ulens_general',S+'likelihood.py')])
p('P12','Annual parallax offsets follow the documented Earth-orbit geometry',
 'Parallax offsets are the projection on (north, east) of the Earth position minus its value and velocity extrapolated from the reference epoch, with dtau = piEN*dN + piEE*dE and du = piEN*dE - piEE*dN; they vanish at the reference epoch. Right ascension and declination in degrees define an orthonormal right-handed sky basis, the orbit is the Kepler ellipse with the given eccentricity and period measured from perihelion, and explicitly supplied perihelion and equinox epochs are honoured.',
 ['inputs'],'all epochs, sky positions, parallax vectors, eccentricities, periods and obliquities',
 'Tests compare with an ephemeris for one field at percent level; sign or frame slips that are small for that field pass.',
 [S+'trajectory/parallax.py'],[('set_parallax, compute_parallax, project_earth_position, prepare_projection_basis, getpsi, peri_vernal',S+'trajectory/parallax.py')])
p('P13','The NumPy and JAX FFTLog transforms compute the same expression',
 'The JAX and NumPy FFTLog/Hankel transforms apply the same biasing, extrapolation, padding, windowing, kernel ratio (with its large-argument asymptotic branch) and output trimming for the same inputs and options. The kernel is the Mellin transform of the spherical Bessel function or of the stated derivative or square.',
 ['inputs','configurations'],'all grid sizes (odd and even), biases, orders, extrapolation and padding lengths',
 'Tests compare outputs for one or two grids; odd lengths, extrapolation and the asymptotic branch are rarely reached.',
 [S+'fastlens/fftlog.py',S+'fastlens/fftlog_jax.py'],[('fftlog, hankel, log_extrap, c_window, g_m_vals, g_m_ratio, g_l, h_l',S+'fastlens/fftlog_jax.py'),('fftlog, hankel',S+'fastlens/fftlog.py')])
p('P14','Special functions implement their published formulas on every branch',
 'Gamma uses the Stirling/Bernoulli series with recurrence and reflection, digamma its asymptotic series with reflection, the elliptic integrals the arithmetic-geometric mean with the exact transformation for negative argument, and the Bessel functions the published rational approximations with correct parity and recurrences. Branch selection covers the whole argument range without gaps; gamma is undefined exactly at its poles 0, -1, -2, ... .',
 ['inputs'],'all arguments, all branches (small, large, negative, reflected)',
 'Tests sample finite grids per function; a wrong sign or coefficient in a branch or order outside the grid is unseen.',
 [S+'fastlens/special.py'],[('gamma_, digamma_, agm, agm2, ellipk, ellipe, j0_, j1_, j2_, j1p5_',S+'fastlens/special.py')])
p('P15','FFT-based single-lens magnification convolves with the stated source profile',
 'The FFT finite-source magnification transforms the point-lens excess magnification, multiplies by the Fourier profile of the stated source and transforms back with consistent factors; the exact central value is used at zero separation, unity beyond separation 100, every profile has unit flux (1 at zero frequency), and the small-source scaling form below the switch radius. The NumPy and JAX versions use the same profiles, central values and switches.',
 ['inputs','configurations'],'all separations (zero, small, beyond the table), source radii on both sides of the switch, all profiles',
 'Tests compare a few radii for some profiles at loose tolerance; edge separations, switches and unused profiles are not covered.',
 [S+'fastlens/mag_fft.py',S+'fastlens/mag_fft_jax.py'],[('magnification and subclasses',S+'fastlens/mag_fft_jax.py'),('magnification and subclasses',S+'fastlens/mag_fft.py')])
p('P16','Limb-darkening profiles are the linear law, normalised alike in all backends',
 'Every backend uses the linear limb-darkening law 1-u1*(1-mu) normalised to unit disk flux: prefactor 3/(pi(3-u1)) for ray shooting, 3/(3-u1) for contour integration, and it vanishes outside the disk or continues as the documented profile there. At u1=0 all reduce to the uniform disk.',
 ['inputs','configurations'],'all radii inside, on and outside the limb and all coefficients',
 'Tests use one or two coefficients and compare integrated light at percent level.',
 [S+'inverse_ray/limb_darkening.py',S+'caustics/integrate.py',S+'multipole.py'],[('Is_limb_1st',S+'inverse_ray/limb_darkening.py'),('_brightness_profile',S+'caustics/integrate.py')])
p('P17','Ray-shooting quadrature adds each polar cell once with its exact area',
 'The inverse-ray magnifications sum over all image regions, radii and angular cells r*dr*dtheta times brightness, with cells cut by the source edge weighted by the interpolated covered fraction clipped to [0,1] (entering and leaving edges mirrored), normalised by pi rho^2 (uniform) or rho^2 (normalised limb profile). Inside or outside is decided by the distance of the mapped ray from the source centre in the same frame.',
 ['inputs','configurations'],'all source positions, radii, lens configurations, resolutions and inside/outside patterns along an arc',
 'Tests compare totals with a reference at 1e-3-level tolerance; errors in rarely crossed cells or in one edge direction stay below it.',
 [S+'inverse_ray/extended_source.py',S+'inverse_ray/boundary.py'],[('mag_uniform, mag_limb_dark, cubic_interp',S+'inverse_ray/extended_source.py'),('in_source, distance_from_source, calc_facB',S+'inverse_ray/boundary.py')])
p('P18','Polar image regions are built from all genuine limb images with margins',
 'Regions for ray shooting are derived from all genuine images of the source limb: radii and angles are clustered by occupancy, widened by the requested margins (radial in units of rho, angular in degrees), overlapping radial ranges are merged and angular ranges meeting across the zero angle are joined. Empty slots stay zero-width and contribute nothing; unsupported lens counts are refused.',
 ['inputs','configurations'],'all limb image sets, masks, bin counts, margins and both lens counts',
 'Tests check a few hand-made arrays; wrap-around, merging and masks combine in ways they do not cover.',
 [S+'inverse_ray/merge_area.py'],[('define_regions, calc_source_limb, cluster_1d, _merge_final, _refine_final, _refine_addmargin_merge_r, _compute_in_mask',S+'inverse_ray/merge_area.py')])
p('P19','Acceptance tests for the cheap approximation follow the published criteria',
 'A position is accepted for the multipole approximation only if the multipole correction plus the cusp estimate is below its limit, half the summed ghost-image distance of the spurious roots (when there are any) exceeds its limit, and (for q<0.01) the position is outside the planetary-caustic zone centred on the planetary caustic; triple lenses are never accepted. Both light-curve backends use the same criteria and constants.',
 ['inputs'],'all source positions, image sets, masks, source radii and lens parameters',
 'Light-curve tests cannot see a threshold that is slightly too permissive unless a sampled epoch falls in the affected zone.',
 [S+'inverse_ray/cond_extended.py',S+'caustics/lightcurve.py'],[('test_full, _caustics_proximity_test, _planetary_caustic_test',S+'inverse_ray/cond_extended.py'),('_caustics_proximity_test, _planetary_caustic_test, magnifications',S+'caustics/lightcurve.py')])
p('P20','Contour magnification is Green\'s theorem over parity-signed closed contours',
 'The contour backend evaluates the area (or limb-darkened flux) enclosed by each image contour by the boundary integrals of Green\'s theorem, adds contours with the sign of their parity, closes every contour on its starting point, and divides by pi rho^2. Padding beyond a contour\'s last point contributes nothing.',
 ['inputs','configurations'],'all contours, tail positions, parities, limb-darkening coefficients and quadrature sizes',
 'Tests compare totals for a few trajectories; an error in tail handling or one orientation shows only for particular contour shapes.',
 [S+'caustics/integrate.py',S+'caustics/extended_source/mag.py',S+'caustics/extended_source/contours.py',S+'utils.py'],[('_integrate_unif, _integrate_ld',S+'caustics/integrate.py'),('mag_extended_source',S+'caustics/extended_source/mag.py'),('trapz_zero_avoiding',S+'utils.py')])
p('P21','Image tracks are split, reordered and merged without losing or mixing images',
 'When limb images are tracked, positions, validity flags and parities are always permuted together; tracks are split exactly where validity, parity or continuity changes, and merging two segments keeps every point once, reverses orientation and flips parity for like-ended joins, and consumes the joined candidate. A join is accepted only under the parity and geometric conditions of its connection type.',
 ['inputs','histories'],'all image sets, masks, parities and merge sequences',
 'Which joins happen depends on the caustic crossing geometry; tests exercise a few crossings end to end.',
 [S+'caustics/extended_source/limb.py',S+'caustics/extended_source/segments.py',S+'caustics/extended_source/contours.py'],[('_images_of_source_limb, _permute_images',S+'caustics/extended_source/limb.py'),('_split_segment, _process_segments, _get_segments, _connection_condition, _merge_two_segments, _merge_open_segments',S+'caustics/extended_source/segments.py')])
p('P22','Array helpers meet their contracts for every input, including empty cases',
 'Nearest-neighbour matching returns a permutation (each candidate used once) choosing the closest unused candidate in order; first/last-nonzero and first-zero return the documented index and 0 when there is none; zero-avoiding min, max, mean, sort and trapezoid ignore exactly the zero entries (or the segment after the tail) and return 0 for all-zero input.',
 ['inputs'],'all arrays including ties, zeros, all-zero and negative entries, and all tail positions',
 'Tests cover a few literal arrays.',
 [S+'utils.py'],[('match_points, first_nonzero, last_nonzero, first_zero, min_zero_avoiding, max_zero_avoiding, mean_zero_avoiding, sparse_argsort, trapz_zero_avoiding',S+'utils.py')])
p('P23','Routines compile: structural options static, no branching on data',
 'Every public routine can be traced by the JAX compiler: options that decide array shapes, loop counts or Python-level branches are compile-time options at every compiled boundary they cross, and no Python-level branch, loop bound or conversion depends on runtime data. Shapes and kinds of results follow from the shapes and kinds of the arguments alone, as documented. Lens counts outside a routine\'s model are reported as ValueError at trace time.',
 ['programs','configurations'],'every compiled entry point and every call between them, for each lens count and profile',
 'A missing static declaration fails only when that option is passed explicitly through that boundary; tests do not exercise each one.',
 [S+'point_source.py',S+'inverse_ray/lightcurve.py',S+'caustics/lightcurve.py',S+'caustics/extended_source/mag.py',S+'caustics/extended_source/limb.py',S+'caustics/integrate.py',S+'poly_solver.py',S+'fastlens/fftlog_jax.py'],
 [('jit decorators with static arguments','all modules')])
p('P24','Results are a pure function of the arguments',
 'Magnification, likelihood, trajectory and special-function routines keep no state between calls: they never modify module-level data, default arguments or caller-owned containers, read no clock, environment, file or global random state, and any internal random perturbation uses a constant seed. Repeated or reordered calls therefore give identical results.',
 ['histories'],'all call sequences',
 'Tests call each routine in one order in a fresh process.',
 [S+'point_source.py',S+'inverse_ray/lightcurve.py',S+'caustics/extended_source/limb.py',S+'fastlens/mag_fft_jax.py'],[('module-level effects','all modules'),('random.PRNGKey',S+'caustics/extended_source/limb.py')])
p('P25','Numerical work is never silently demoted to lower precision',
 'No routine converts floating or complex data to a narrower type than its inputs, discards an imaginary part by conversion, or fixes a 32-bit type for floating data; complex positions stay complex until a real quantity is explicitly formed.',
 ['inputs','programs'],'every conversion and array construction in the package',
 'Single-precision leaks stay within the loose tolerances of most tests.',
 [S+'poly_solver.py',S+'inverse_ray/merge_area.py',S+'fastlens/fftlog_jax.py'],[('dtype conversions','all modules')])
# --- behaviours static analysis cannot decide
p('N01','Finite-source magnifications match an independent reference to stated accuracy',
 'Inverse-ray, contour and FFT magnifications agree with an independent high-accuracy code to the documented relative accuracy for all configurations.',
 ['inputs'],'all configurations','Only sampled configurations are compared.',[S+'inverse_ray/extended_source.py',S+'caustics/extended_source/mag.py'],[('mag_uniform',S+'inverse_ray/extended_source.py')])
p('N02','The root finder converges for every image polynomial',
 'For every physically meaningful configuration the root finder reaches its tolerance for all roots within the iteration cap.',
 ['inputs'],'all polynomials arising from lens configurations','Convergence is checked on samples.',[S+'poly_solver.py'],[('poly_roots_EA',S+'poly_solver.py')])
p('N03','Image regions cover every image of the source disk',
 'The polar regions used for ray shooting always contain every image of the finite source, including images that do not cross the sampled limb points.',
 ['inputs'],'all source positions and radii','Coverage gaps appear only near special geometries.',[S+'inverse_ray/merge_area.py'],[('define_regions',S+'inverse_ray/merge_area.py')])
p('N04','The adaptive switch keeps the light-curve error below its target',
 'Whenever the cheap approximation is accepted its relative error is below the intended tolerance.',
 ['inputs'],'all positions and lens parameters','Error is measured on a few curves only.',[S+'inverse_ray/cond_extended.py'],[('test_full',S+'inverse_ray/cond_extended.py')])
p('N05','Fixed iteration counts are sufficient for machine precision',
 'Five Newton steps for the Kepler equation, five mean iterations for elliptic integrals and the truncated gamma series reach the stated accuracy over their whole domain.',
 ['inputs'],'all arguments in the stated domains','Accuracy is sampled.',[S+'trajectory/parallax.py',S+'fastlens/special.py'],[('getpsi',S+'trajectory/parallax.py'),('agm',S+'fastlens/special.py')])
p('N06','Peak memory stays bounded by the chunk size',
 'Peak memory of adaptive light curves is bounded by the chunk size and resolutions independently of trajectory length.',
 ['configurations'],'all trajectory lengths and chunk sizes','Tests measure no memory.',[S+'inverse_ray/lightcurve.py'],[('chunked evaluation',S+'inverse_ray/lightcurve.py')])
p('N07','Gradients are finite at every input',
 'Derivatives of all public magnifications and special functions are finite wherever the function value is finite.',
 ['inputs'],'all inputs including guard boundaries','Gradient tests avoid guard boundaries.',[S+'caustics/integrate.py',S+'fastlens/special.py'],[('where-guards',S+'caustics/integrate.py')])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
