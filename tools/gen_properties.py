"""writes properties.jsonl (kept as a script so that the text is reviewable and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))
S = "src/microjax/"
p("P01", "Point-source images are complete and genuine",
  "For a one-, two- or three-lens system and any source position, every image position reported as valid solves the lens equation for that source, no image is reported twice, and every solution of the lens equation that carries non-negligible magnification is reported. The number of valid images off the caustics is 2 for one lens, 3 or 5 for two, and 4, 6, 8 or 10 for three, with (positive parity) - (negative parity) = 1 - number of lenses. This holds for any separation, mass ratio on either side of 1 and third-lens angle, and for sources on the lens axis, close to a lens or far away (triple systems: mass ratios >= 0.01 and lenses at least 0.2 apart).",
  ["inputs", "configurations"], "all source positions x all lens configurations x array shapes",
  "Tests solve a handful of configurations and check residuals of the returned roots; a dropped or duplicated image elsewhere in the configuration space leaves every residual at zero.",
  [S+"point_source.py", S+"coeffs.py", S+"poly_solver.py"],
  [("polynomial coefficients of the lens equation", S+"coeffs.py"), ("residual mask", S+"point_source.py:_images_point_source")],
  observe=["_images_point_source", "lens_eq", "lens_eq_det_jac"])
p("P02", "Point-source magnification equals the sum over all images",
  "The point-source magnification equals the sum of 1/|det J| over all true images, with the source position given in the centre-of-mass frame of the first two lenses (the companion of mass ratio q on the positive-x side), for 1, 2 and 3 lenses (triples: mass ratios >= 0.01, lenses at least 0.2 apart). It is at least 1, tends to 1 far from the lens, and for systems symmetric about the lens axis is unchanged by y -> -y. The result has the shape of the input for scalars and for arrays of any rank, and each element is the value obtained for that position alone.",
  ["inputs", "configurations"], "all source positions x lens configurations x batch shapes",
  "Tests compare single points of one or two configurations to a reference.",
  [S+"point_source.py", S+"coeffs.py", S+"poly_solver.py"],
  [("frame shift and image sum", S+"point_source.py:mag_point_source")], observe=["mag_point_source"])
p("P03", "Lens systems reduce and relabel consistently",
  "A binary lens whose companion mass vanishes behaves as a single lens, a triple whose third mass vanishes behaves as the binary of the other two, and two lenses placed close together behave far away like one lens of their summed mass. Describing the same physical binary with s, q and with s, 1/q (mirrored source), or the same physical triple with its lenses relabelled, yields the same point-source, multipole and finite-source magnifications and the same critical curves and caustics. Rotating or reflecting lens and source together changes nothing.",
  ["inputs", "configurations"], "all permutations of lens labels and mirror images of a configuration lattice x source positions x solvers",
  "The tests never describe one physical system in two ways.",
  [S+"point_source.py", S+"coeffs.py", S+"multipole.py", S+"inverse_ray/lightcurve.py", S+"caustics/lightcurve.py"],
  [("parametrisation to mass fractions and frame shifts", S+"point_source.py, inverse_ray/lightcurve.py, caustics/*")],
  observe=["mag_point_source", "critical_and_caustic_curves", "mag_binary", "mag_triple", "mag_uniform", "mag_extended_source"])
p("P04", "Critical and caustic curves are exact, complete and ordered",
  "Every returned critical point satisfies |det J| = 0 and its caustic point is its image under the lens equation in the centre-of-mass frame; at each sampled phase all solutions are returned (4 for two lenses, 6 for three) and none twice; the samples run once round the circle of phases in equal steps, the last repeating the first. The caustics separate regions with different numbers of images. Consecutive samples along a branch are nearest neighbours, i.e. each branch is a continuous curve, for close, resonant and wide topologies and any number of samples.",
  ["inputs", "configurations"], "all lens configurations x sample counts x phases",
  "Tests look at a single configuration; branch swaps and missing roots depend on topology and sampling.",
  [S+"point_source.py", S+"coeffs.py", S+"utils.py"],
  [("critical-curve polynomial", S+"coeffs.py"), ("branch matching scan", S+"point_source.py:critical_and_caustic_curves")],
  state=[("previous permutation of roots", "carry of the branch matching", S+"point_source.py")],
  observe=["critical_and_caustic_curves"])
p("P05", "The polynomial solver returns all roots whatever the start",
  "For any polynomial with simple roots the solver returns every root exactly once, to near machine precision, irrespective of scaling and rotation of the coefficients, real or complex coefficients, a root at zero, and the position of the polynomial in a batch. Starting from user-supplied initial values (including the roots of another polynomial, in any order) leads to the same set of roots. The derivative of each root with respect to the coefficients equals the implicit derivative, in forward and reverse mode, with and without initial values.",
  ["inputs", "configurations", "histories"], "all polynomials with roots from a finite alphabet up to degree 6 plus lens polynomials (degree 5 and 10) x all orders of initial values x batch shapes",
  "Tests try a few polynomials; convergence and ordering failures depend on root geometry and on what the solver was started from.",
  [S+"poly_solver.py"], [("simultaneous iteration with per-root stopping", S+"poly_solver.py:poly_roots_EA"), ("implicit derivative rule", S+"poly_solver.py:_poly_roots_EA_jvp")],
  state=[("roots, done flags, iteration count", "state of the iteration", S+"poly_solver.py")], observe=["poly_roots", "poly_roots_EA"])
p("P06", "Image tracking along a path equals independent solution",
  "Tracking images sequentially along any path of source positions - including repeated points, reversals, caustic crossings in both directions and large jumps - gives at every step the same set of valid images as solving that position from scratch. Between consecutive nearby positions that do not cross a caustic each tracked image moves continuously, i.e. keeps its row.",
  ["histories", "inputs"], "all source paths up to a depth over a grid of positions inside, outside and on both sides of caustics",
  "The tests follow at most one smooth path; a wrong warm start needs a specific earlier history.",
  [S+"point_source.py", S+"poly_solver.py", S+"caustics/extended_source/limb.py"],
  [("warm-started root solver in a scan", S+"point_source.py:_images_point_source_sequential")],
  state=[("previous roots", "initial guess for the next position", S+"point_source.py")],
  observe=["_images_point_source_sequential"])
p("P07", "Adaptive light curves mix approximate and full values correctly",
  "In a binary- or triple-lens light curve every sample equals either the multipole approximation or the full finite-source value for that very source position: the multipole value where the accuracy test accepts it (the test never accepts for triples), the full value for the first MAX_FULL_CALLS refused samples in input order, and the multipole value for refused samples beyond that budget. The result keeps the input order and shape and does not depend on the chunk size, on whether the number of samples is a multiple of it, on the other samples in the array, or on whether MAX_FULL_CALLS exceeds the number of samples. Resolution, limb darkening and lens parameters passed to the light curve act as in the single-position solver.",
  ["histories", "configurations", "inputs"], "all accept/refuse patterns of a light curve up to length N x budgets 0..N+1 x chunk sizes 1..N+1",
  "The tests use one light curve with defaults that cover every sample in one chunk.",
  [S+"inverse_ray/lightcurve.py"], [("sort by acceptance, take budget, pad and chunk, scatter back", S+"inverse_ray/lightcurve.py:mag_binary, mag_triple")],
  state=[("acceptance mask, refusal queue, remaining budget", "which samples are refined", S+"inverse_ray/lightcurve.py")],
  observe=["mag_binary", "mag_triple"])
p("P08", "An accepted multipole value is accurate",
  "Whenever the light-curve code for one or two lenses keeps the multipole approximation because its accuracy test accepted the position, that value is within about 1% of the true finite-source magnification (uniform or limb darkened). In particular a source that overlaps a central, resonant or planetary caustic, including the small planetary caustics of mass ratios below 0.01 on either side of the primary (s < 1 and s > 1), is never accepted.",
  ["inputs", "configurations"], "all source positions x source sizes x separations x mass ratios in a lattice concentrated around caustics",
  "The tests evaluate the tests' output at a few positions; unsound acceptance shows only in thin regions around caustics.",
  [S+"inverse_ray/cond_extended.py", S+"caustics/lightcurve.py", S+"multipole.py"],
  [("multipole correction, ghost-image and cusp test; planetary caustic test", S+"inverse_ray/cond_extended.py, caustics/lightcurve.py")],
  observe=["mag_binary", "magnifications"])
p("P09", "Inverse-ray uniform-source magnification is accurate",
  "For binary and triple lenses the inverse-ray magnification of a uniform disk agrees with an independent finite-source reference within the discretisation error of the chosen resolution (below 1% plus 0.1% per unit of magnification at 200 x 200 cells per region for radii of 0.1 Einstein radii or more, finer grids for smaller disks; shrinking as resolution grows). The angular discretisation converges better than first order: at 200 angular cells per region half of all positions are within 3e-5, and nearly all within 5e-4, of the value with many more cells. This holds for sources outside, touching, crossing and enclosing caustics and cusps, on or off the axis, for small and large disks, any mass ratio and any lens angle.",
  ["inputs", "configurations"], "all source positions x radii x lens configurations in a lattice built around caustics and cusps",
  "The tests compare a few points of one binary to a reference.",
  [S+"inverse_ray/extended_source.py", S+"inverse_ray/merge_area.py", S+"inverse_ray/boundary.py"],
  [("limb tracing, region construction, boundary interpolation", S+"inverse_ray/*")], observe=["mag_uniform", "mag_binary", "mag_triple"])
p("P10", "Inverse-ray limb-darkened magnification is accurate",
  "For binary and triple lenses the inverse-ray magnification of a linearly limb-darkened disk, normalised to the disk's total flux, agrees with an independent reference within discretisation error (below 1% plus 0.1% per unit of magnification at 200 x 200 cells for radii of 0.1 or more, finer grids for smaller disks) for every coefficient between 0 and 1. At 200 angular cells per region half of all positions are within 6e-4 of the value with many more cells. It tends to the uniform-disk value as the coefficient tends to 0, and a far-away or point-like source gives the point-source value for every coefficient.",
  ["inputs", "configurations"], "all source positions x radii x coefficients x lens configurations in a lattice built around caustics",
  "The tests use a single coefficient at a few positions.",
  [S+"inverse_ray/extended_source.py", S+"inverse_ray/limb_darkening.py", S+"inverse_ray/boundary.py"],
  [("brightness profile and boundary correction", S+"inverse_ray/limb_darkening.py, boundary.py")], observe=["mag_limb_dark"])
p("P11", "Integration regions cover every image exactly once",
  "The polar regions chosen for inverse-ray integration cover all images of the source disk and no area is counted twice, for every arrangement of images in radius and angle: images straddling the +-pi direction, images enclosing the origin (full rings), many images at one radius, and images at several radii in one direction. Consequently the magnification does not jump when the source moves by a small step or when the sampling of the limb, the number of bins or the margins change within their useful range.",
  ["inputs", "configurations"], "all occupancy patterns of small radial/angular bin arrays, and all source positions on circles around lens systems x numbers of bins",
  "Merging bugs need a specific arrangement of images, e.g. across the angular branch cut.",
  [S+"inverse_ray/merge_area.py", S+"inverse_ray/extended_source.py"],
  [("clustering, merging and refinement of polar intervals", S+"inverse_ray/merge_area.py")],
  state=[("list of merged radius and angle intervals", "area to integrate", S+"inverse_ray/merge_area.py")],
  observe=["mag_uniform", "merge_area"])
p("P12", "Contour-integration magnification is accurate",
  "The contour-integration magnification of a uniform or linearly limb-darkened disk agrees with an independent finite-source reference within discretisation error (below 1% with 200 limb points for radii between 0.02 and 0.1 Einstein radii, with 400 points for radii up to 0.4) for 1, 2 and 3 lenses, for sources outside, crossing and enclosing caustics. The contour light-curve function returns for each position the multipole value where accepted and that contour value otherwise, for uniform and limb-darkened sources.",
  ["inputs", "configurations"], "all source positions x radii x limb darkening x lens configurations in a lattice built around caustics",
  "The tests compare a few positions of one configuration.",
  [S+"caustics/extended_source/*.py", S+"caustics/integrate.py", S+"caustics/lightcurve.py"],
  [("limb images, segments, contours, Green's theorem", S+"caustics/extended_source/*, caustics/integrate.py")],
  observe=["mag_extended_source", "magnifications"])
p("P13", "Contour stitching does not depend on how images were cut",
  "Given closed image contours that are cut into open segments at any places, stored in any row order and traversed in either direction with consistent parity, the stitched contours enclose the same total signed area as the uncut contours. No segment is dropped, used twice, or joined to a segment that it does not touch. (Assumed: within the documented capacity of three open contours and twenty segments, and no sample exactly at the origin, which marks padding.)",
  ["histories", "inputs", "schedules"], "all cut positions x row orders x orientations of small segment sets (bounded number of contours, cuts and samples)",
  "The tests never exercise the merge loop directly; which merge type (head-head, tail-tail, head-tail, tail-head) fires depends on the order and orientation of segments.",
  [S+"caustics/extended_source/segments.py", S+"caustics/extended_source/contours.py", S+"utils.py"],
  [("segment splitting, ordering and merging", S+"caustics/extended_source/segments.py, contours.py")],
  state=[("open segments, active segment and its tail index, merge history", "state of the merge loop", S+"caustics/extended_source/segments.py")],
  observe=["_get_segments", "_merge_open_segments", "_contours_from_closed_segments", "_contours_from_open_segments"])
p("P14", "The multipole approximation has hexadecapole accuracy",
  "Away from caustics the multipole magnification of a uniform or linearly limb-darkened disk differs from the exact disk average by a term of order rho^6, for 1, 2 and 3 lenses, all lens parameters (including the third lens's angle) and all coefficients; at zero radius it equals the point-source magnification. The accompanying error estimate is of the size of the quadrupole and hexadecapole corrections.",
  ["inputs", "configurations"], "all source positions x radii x coefficients x lens configurations on a lattice",
  "The tests compare one binary configuration.",
  [S+"multipole.py"], [("Cassan (2017) expansion", S+"multipole.py")], observe=["mag_hexadecapole"])
p("P15", "Gradients of point-source and multipole magnification are exact",
  "The derivatives of point-source and multipole magnifications with respect to every lens and source parameter (source position, s, q, q3, r3, psi, rho and functions of them), in forward and reverse mode, equal the derivatives of the true magnification away from caustics. Differentiation does not change the primal value.",
  ["inputs", "configurations"], "all parameters x source positions x lens configurations x differentiation modes on a lattice",
  "The tests check one derivative at one configuration, or only that it is finite.",
  [S+"point_source.py", S+"poly_solver.py", S+"multipole.py"],
  [("implicit derivative of roots, analytic Jacobian", S+"poly_solver.py, point_source.py")], observe=["grad/jacfwd of mag_point_source, mag_hexadecapole"])
p("P16", "Gradients of finite-source magnification are accurate",
  "The derivatives of inverse-ray, adaptive and contour finite-source magnifications (uniform and limb darkened) with respect to source position, source radius, lens parameters and the limb-darkening coefficient are finite and agree with the derivative of the true finite-source magnification within discretisation error, away from positions where the limb is tangent to a caustic. The value computed together with a derivative equals the value computed alone within discretisation error.",
  ["inputs", "configurations"], "all parameters x source positions x lens configurations x solvers on a lattice",
  "The tests check finiteness, or a single derivative at one configuration.",
  [S+"inverse_ray/boundary.py", S+"inverse_ray/limb_darkening.py", S+"inverse_ray/extended_source.py", S+"caustics/extended_source/mag.py"],
  [("smoothed boundary derivative rules", S+"inverse_ray/boundary.py, limb_darkening.py")], observe=["jvp/jacfwd/grad of mag_uniform, mag_limb_dark, mag_binary, mag_triple, mag_extended_source"])
p("P17", "Special functions and their derivatives are accurate",
  "The Bessel functions of order 0, 1, 2 and 3/2, the complex gamma function and the complete elliptic integrals K and E agree with their mathematical definitions over the argument range the magnification code uses (both sides of every internal switch-over point, both signs where defined), and their derivatives equal the true derivatives.",
  ["inputs"], "all arguments on a lattice refined at every branch boundary, real and complex",
  "The tests sample a few arguments; errors hide beyond branch boundaries.",
  [S+"fastlens/special.py"], [("piecewise expansions and custom derivative rules", S+"fastlens/special.py")], observe=["j0", "j1", "j2", "j1p5", "gamma", "ellipk", "ellipe"])
p("P18", "Log-FFT Hankel transforms are correct for every option",
  "The logarithmic Hankel and spherical-Bessel transforms (plain, first and second derivative, squared Bessel) agree with the defining integrals for functions with known transforms, and the numpy and JAX versions agree with each other, for every order, bias, extrapolation length, padding length and window width in the supported range, for even and odd sample counts. Extrapolation and padding change the range over which the transform is accurate, not its output grid (the reciprocal of the input grid, except that an odd total count that is not extended at the high end loses its last sample) or values in the interior.",
  ["inputs", "configurations"], "all combinations of transform x order x bias x extrapolation x padding x window x length parity",
  "The tests compare two orders at one option set, numpy against JAX.",
  [S+"fastlens/fftlog.py", S+"fastlens/fftlog_jax.py"], [("power-law decomposition, padding, window, Mellin kernels", S+"fastlens/fftlog*.py")], observe=["hankel", "fftlog", "fftlog_dj", "fftlog_ddj", "fftlog_jsqr"])
p("P19", "FFT-based single-lens magnification is accurate",
  "The FFT-based single-lens extended-source magnification agrees with direct integration over the source disk to better than 0.5% (1.5% for impact parameters within 2.5% of the source limb) for uniform and limb-darkened profiles, for sources from much smaller to larger than the Einstein radius and impact parameters from zero through the source limb to the far tail. The numpy and JAX versions agree; the value is continuous across the switch-over radius and impact parameter to the point-source formula and has the input's shape for any array of impact parameters.",
  ["inputs", "configurations"], "all source radii x impact parameters x profiles on a lattice refined around every switch-over",
  "The tests compare a few radii for the uniform disk.",
  [S+"fastlens/mag_fft.py", S+"fastlens/mag_fft_jax.py"], [("Fourier-space profile times point-lens kernel, interpolation, switch-overs", S+"fastlens/mag_fft*.py")], observe=["magnification_* .A", "mag_* .A"])
p("P20", "Annual-parallax trajectories follow Earth's orbit",
  "For any sky position, reference time and time array the parallax-corrected trajectory equals the straight one plus the projection of Earth's orbital displacement relative to its position and velocity at the reference time, times the parallax vector. At the reference time the correction and its first time derivative vanish, it is linear in the parallax vector, repeats with the orbital period up to the linear drift, and never exceeds what a 1 AU orbit allows. Kepler's equation is solved accurately for all phases and eccentricities below 0.9, and the perihelion and equinox times used are those nearest to the reference time.",
  ["inputs", "configurations"], "all sky positions x reference times x observation times on a lattice x all phases/eccentricities",
  "The tests check shapes and a few values for one event.",
  [S+"trajectory/parallax.py"], [("orbit, projection basis, linear-drift removal", S+"trajectory/parallax.py")], observe=["set_parallax", "compute_parallax", "project_earth_position", "getpsi", "peri_vernal"])
p("P21", "Marginalised likelihoods equal the direct Gaussian integral",
  "The marginalised negative log-likelihood equals, for every data set, design matrix, noise level or covariance, prior mean and prior covariance, the negative log density of the data under the implied Gaussian N(M mu, C + M Lambda M^T) up to the constant n/2 log(2 pi). The diagonal and the general form agree where both apply; the value does not depend on the order of the data points, and its gradients are those of the exact expression.",
  ["inputs", "configurations"], "all small data sets over a value alphabet x noise x prior combinations",
  "The tests compare one data set.",
  [S+"likelihood.py"], [("closed-form marginalisation", S+"likelihood.py:nll_ulens, nll_ulens_general")], observe=["nll_ulens", "nll_ulens_general"])
p("P22", "The linear fit is the weighted least-squares solution",
  "The linear fit returns slope, slope error, intercept, intercept error and chi-squared of the weighted least-squares straight line with weights 1/err^2, for scalar and per-point errors, treating an error of zero as weight one, whatever the order of the points. The returned line minimises the weighted residuals and the errors are the square roots of the diagonal of the inverse normal matrix.",
  ["inputs"], "all small data sets over an alphabet of abscissae, ordinates and errors",
  "The tests fit one data set with positive errors.",
  [S+"likelihood.py"], [("normal equations", S+"likelihood.py:linear_chi2")], observe=["linear_chi2"])
p("P23", "Array helpers honour their contracts on every input",
  "The array helpers do what they document on every input: nearest-neighbour matching returns a permutation in which each point takes the closest still unused candidate; first/last non-zero and first zero return the right index or 0; the zero-avoiding minimum, maximum, mean and sort ignore zeros and fall back to 0; the truncated trapezoid equals the trapezoid integral of the (zero-padded) samples up to the given index. The interpolation helper of the integrators reproduces cubic polynomials and their inside/outside indicators are 1 inside and 0 outside.",
  ["inputs"], "all arrays up to length 5 over a small alphabet including zeros, negatives and ties",
  "No exhaustive enumeration exists in the tests; zero and tie handling shows only for particular arrays.",
  [S+"utils.py", S+"inverse_ray/boundary.py", S+"inverse_ray/extended_source.py"], [("masking and argument searches", S+"utils.py")], observe=["microjax.utils", "boundary helpers"])
p("P24", "Derivatives of trajectories, FFT magnifications and whole models are exact",
  "Every differentiable building block has, in forward and reverse mode, the true derivative with respect to every continuous argument, and it is finite also at zero impact parameter: the parallax-corrected trajectory (time, parallax vector, reference time, orbital elements, sky position), the JAX FFT magnifications (impact parameter, source radius, limb-darkening coefficient; within the table's discretisation, 8% and mostly 2%), and the JAX log-FFT transforms (input function). The chain rule holds end to end: gradients and Hessians of a marginalised likelihood of a light curve with parallax and one, two or three lenses, and Hessians of the point-source magnification, equal the derivatives of the exact model.",
  ["inputs", "configurations"], "all points of lattices over sky, epochs, orbits, radii, impact parameters, transforms and event parameters x every argument x both modes",
  "The tests differentiate one event at one point with respect to a few parameters and check that nothing is NaN.",
  [S+"trajectory/parallax.py", S+"fastlens/mag_fft_jax.py", S+"fastlens/fftlog_jax.py", S+"fastlens/special.py", S+"likelihood.py", S+"point_source.py"], [("custom derivative rules and double-where guards", S+"fastlens/special.py, point_source.py")], observe=["jax.grad/jacfwd/jacrev/hessian of compute_parallax, magnification_*.A, nll_ulens, mag_point_source"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            assert len(d["title"]) <= 80, d["id"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
