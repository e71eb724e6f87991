"""Writes properties.jsonl (the list is maintained here)."""
import json

K = "src/exoplanet/orbits/keplerian.py"
P = []


def add(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


add("C01", "Orbital positions solve the two-body problem in the documented frame",
    "For every valid orbit and time, the star, planet and relative positions (in R_sun, or in arcseconds when a parallax is given) equal the Keplerian two-body solution for those elements, with +Z towards the observer, omega the star's argument of periastron and Omega the position angle of the node. Relative angles are the sky-plane separation and position angle of that same relative position, and the stand-alone true anomaly function inverts Kepler's equation.",
    ["inputs", "configurations"],
    "every accepted parameterisation, 0 <= e < 1, every omega/incl/Omega, any number of planets, any time (scalar, vector, matrix), with or without parallax",
    "Existing tests compare a handful of configurations against batman/fixed arrays; they do not vary Omega, parallax, masses, inclination and eccentricity jointly or reach special angles.",
    [K], [("rotation into the observer frame", "KeplerianOrbit._rotate_vector"), ("Kepler solve", "KeplerianOrbit._get_true_anomaly, get_true_anomaly"), ("position", "KeplerianOrbit._get_position")],
    ["get_relative_position", "get_planet_position", "get_star_position", "get_relative_angles", "get_true_anomaly"])
add("C02", "Velocities and accelerations obey Newtonian two-body dynamics",
    "For every valid orbit and time, the velocities and accelerations of star, planet and relative orbit are the first and second time derivatives of the corresponding positions, and stay finite for massless planets. Consequently the per-planet barycentre is at rest at the origin, relative equals planet minus star, gravity is -G M_total r/|r|^3, and energy and angular momentum are conserved.",
    ["inputs", "configurations"],
    "every valid orbit (circular or eccentric, massive or massless planets, several planets) and every time",
    "Tests check derivatives for one or two fixed systems; a scale factor, sign or mass-dependent error outside those systems goes unseen.",
    [K], [("velocity", "KeplerianOrbit._get_velocity"), ("acceleration", "KeplerianOrbit._get_acceleration"), ("mass split", "a_star, a_planet, K0 in KeplerianOrbit.__init__")],
    ["get_*_velocity", "get_*_acceleration", "get_*_position"])
add("C03", "Radial velocities follow the standard RV equation, sign and units",
    "With a semi-amplitude K the radial velocity of each planet is K [cos(omega+f) + e cos(omega)]; without K it is the line-of-sight reflex velocity of the star, positive for a redshift (the star receding), in m/s or in the requested velocity unit. The two agree when K is the semi-amplitude implied by the masses, period, inclination and eccentricity, and several planets give one column each whose sum is the total.",
    ["inputs", "configurations"],
    "every valid orbit, every time, every K (scalar or per planet) and every velocity unit",
    "Tests check one circular and one eccentric system and one unit.",
    [K], [("RV", "KeplerianOrbit.get_radial_velocity"), ("velocity", "KeplerianOrbit._get_velocity")], ["get_radial_velocity"])
add("C04", "Every accepted parameterisation describes the same, self-consistent system",
    "For every accepted combination of period, a, m_star, r_star, rho_star and m_planet, the computed attributes satisfy Kepler's third law with the total mass, m_star = 4/3 pi r_star^3 rho_star, the documented defaults and the documented units (rho_star in g/cm^3). Re-building the orbit from any other accepted combination of its own attributes (including incl for b, sin/cos omega for omega, t_periastron for t0) gives the same attributes and the same motion.",
    ["inputs", "configurations"],
    "every accepted parameter combination and value, scalar or per-planet",
    "Tests pin a few combinations at single values; the combinations are a product space.",
    [K], [("resolution of inputs", "_get_consistent_inputs"), ("derived attributes", "KeplerianOrbit.__init__")], ["orbit attributes", "get_relative_position"])
add("C05", "t0 is mid-transit at impact parameter b, t_periastron is periastron",
    "At t0 and every whole number of periods from it each planet is in front of the star at conjunction (omega + f = pi/2, Z > 0) with a projected separation of |b| stellar radii, and at t_periastron (and every period after) the separation from the star is a(1-e), its minimum. Giving t_periastron instead of t0 yields the t0 that reproduces the same orbit; with neither, t0 is 0.",
    ["inputs", "configurations"],
    "every eccentricity, argument of periastron (including exactly +-pi/2 and out-of-range angles), impact parameter, period and epoch",
    "Tests use a fixed grid of omega at a few e; the special directions (omega = -pi/2 given through sin/cos) are singular points of the formulas.",
    [K], [("mean anomaly at transit", "M0 in KeplerianOrbit.__init__"), ("b to cos i", "dcosidb")], ["get_relative_position", "orbit.t0, orbit.t_periastron, orbit.b, orbit.incl"])
add("C06", "Units attached with with_unit never change the physics",
    "Any physical argument given in any equivalent unit through with_unit (or the deprecated m_planet_units and rho_star_units keywords) produces the same orbit as the value converted beforehand to the documented default unit. with_unit attaches a unit exactly once, has_unit reports it, to_unit converts to the target unit and returns unit-less values unchanged.",
    ["inputs", "configurations"],
    "period, a, m_star, r_star, rho_star, m_planet and duration, in every compatible astropy unit, scalar or vector, in every accepted combination",
    "Tests convert one mass and one density; each argument on each code path needs its own conversion.",
    ["src/exoplanet/units.py", K], [("conversion", "to_unit"), ("use", "_get_consistent_inputs, KeplerianOrbit.__init__")], ["orbit attributes", "with_unit/has_unit/to_unit"])
add("C07", "An orbit built from a transit duration has that transit duration",
    "For a circular orbit built from period, duration, b and ror, the projected planet-star separation equals (1+ror) stellar radii exactly half a duration before and after every t0, and is smaller between and larger just outside. For an eccentric orbit built from a (centre-crossing) duration, the implied b reproduces that duration under the standard approximation T = (P/pi) asin(sqrt(1-b^2) R/(a sin i)) sqrt(1-e^2)/(1+e sin omega), and the actual crossing duration to within the accuracy of that approximation.",
    ["inputs", "configurations"],
    "every period, duration, b, ror, r_star, e, omega for which such a transit exists",
    "One fixed circular system is tested; eccentric durations are not tested at all.",
    [K], [("circular", "get_aor_from_transit_duration"), ("eccentric", "duration branch of KeplerianOrbit.__init__")], ["get_relative_position", "orbit.a, orbit.b"])
add("C08", "Advertised Jacobians equal the derivatives of the returned quantities",
    "Every Jacobian the package hands out equals the true derivative of the quantity it is advertised for: d a, d a_star, d a_planet and d rho_star by duration, d cos(incl) by b, d(a/R) by duration from the duration helper, and d ror by depth from the approximate-depth helper.",
    ["inputs", "configurations"],
    "every valid orbit with a duration or an impact parameter, massive planets included, and every depth, b and limb darkening",
    "Tests check them for one system with a massless planet; a wrong Jacobian silently biases posteriors and changes no forward model.",
    [K, "src/exoplanet/light_curves/limb_dark.py"], [("jacobians", "KeplerianOrbit.jacobians"), ("duration helper", "get_aor_from_transit_duration"), ("depth helper", "get_ror_from_approx_transit_depth")], ["orbit.jacobians", "get_aor_from_transit_duration", "get_ror_from_approx_transit_depth(jac=True)"])
add("C09", "Light-delayed positions solve the retarded-time equation",
    "With light_delay enabled, the position of each body at t is its undelayed position at the emission time t' = t + Z(t')/c, to within the second-order expansion in v/c, for the star, the planet and the relative orbit, in every output unit and with the same shapes as without delay. Light curves computed with light_delay are the light curves of those delayed positions.",
    ["inputs", "configurations"],
    "every valid orbit (eccentric, face-on, massive), every time shape, parallax or not, TTV orbits included",
    "One random comparison with loose tolerance and shape tests for a few shapes; parallax and TTV orbits with delay were never exercised.",
    [K, "src/exoplanet/orbits/ttv.py"], [("retarded position", "KeplerianOrbit._get_retarded_position"), ("time warp without padding", "TTVOrbit._warp_times")], ["get_*_position(light_delay=True)", "get_light_curve(light_delay=True)"])
add("C10", "in_transit selects exactly the exposures that overlap a transit",
    "in_transit returns, in increasing order, the indices of exactly those times at which, for at least one planet, the exposure window [t - texp/2, t + texp/2] intersects an interval in which that planet is in front of the star with projected separation below r_star + r. When an eccentric planet is not in transit at its conjunction (|b| r_star >= r_star + r) more times may be selected, but no exposure that does overlap a transit is ever dropped.",
    ["inputs", "configurations"],
    "every orbit outside the star (circular/eccentric, grazing, high e, any omega), radius per planet, scalar or per-time exposure (transit plus exposure shorter than the period), times far from the reference transit",
    "Tests compare with a dense light curve for a few systems; wrap-around of contact times, grazing geometry and per-planet broadcasting are boundary cases.",
    [K, "src/exoplanet/orbits/simple.py"], [("circular contact times", "KeplerianOrbit.in_transit"), ("eccentric contact points", "exoplanet_core contact_points"), ("simple orbit", "SimpleTransitOrbit.in_transit")], ["in_transit"])
add("C11", "Restricting the evaluation to in-transit times never changes a light curve",
    "For every orbit, radius, limb darkening, exposure time (none, scalar or per-time), oversampling and integration order, the light curve with use_in_transit enabled (the default) equals the one evaluated at every time. The result has one row per time and one column per planet, and values out of transit are exactly zero.",
    ["inputs", "configurations"],
    "Keplerian, simple and TTV orbits; 1-4 planets; any times",
    "Tests compare the two paths for a few fixed systems, one planet with per-time exposures.",
    ["src/exoplanet/light_curves/limb_dark.py", K, "src/exoplanet/orbits/simple.py", "src/exoplanet/orbits/ttv.py"], [("subset and scatter", "LimbDarkLightCurve.get_light_curve"), ("time selection", "in_transit")], ["get_light_curve(use_in_transit=...)"])
add("C12", "Transit light curves are the occulted fraction of the limb-darkened disk",
    "The light curve minus its unocculted level equals minus the fraction of the quadratically limb-darkened stellar flux hidden by the planet's disk, for each planet separately, when the planet is in front (Z > 0), and zero when it is behind or off the disk. It depends on lengths only through ratios to r_star, and lies in [-1, 0] for physical limb darkening.",
    ["inputs", "configurations"],
    "every physical (u1, u2), radius ratio (including larger than the star), impact parameter (including 0, grazing, internal tangency), stellar radius and orbit, u given as two scalars or a vector",
    "Tests compare with starry/batman at fixed grids, small planets and one stellar radius.",
    ["src/exoplanet/light_curves/limb_dark.py"], [("coefficients", "get_cl"), ("flux", "quad_limbdark_light_curve, LimbDarkLightCurve._compute_light_curve"), ("scaling", "LimbDarkLightCurve.get_light_curve")], ["LimbDarkLightCurve.get_light_curve"])
add("C13", "Exposure-integrated light curves are the documented quadrature of the exposure",
    "With an exposure time, each value is the weighted average of the instantaneous light curve over the exposure centred on t using the documented rule: centred Riemann sum (order 0), trapezoid (1) or Simpson (2) on an odd number of samples, with weights summing to one. It therefore converges to the true exposure mean as the oversampling grows, equals the instantaneous value for a vanishing exposure, and a scalar exposure equals the same value repeated per time.",
    ["inputs", "configurations"],
    "every order, oversample (odd or even), scalar or per-time exposure, several planets, any orbit type",
    "Tests integrate one system at one order with a loose tolerance.",
    ["src/exoplanet/light_curves/limb_dark.py"], [("stencil", "LimbDarkLightCurve.get_light_curve")], ["get_light_curve(texp=..., oversample=..., order=...)"])
add("C14", "Secondary-eclipse light curves combine both occultations consistently",
    "The secondary-eclipse light curve equals (primary transit + F * eclipse)/(1 + F) with F the surface-brightness ratio times the squared radius ratio, where the eclipse is the occultation of the companion's limb-darkened disk by the star while the star is in front. Hence it never drops below -1, vanishes outside both events, reaches -F/(1+F) in a total eclipse, reduces to the plain transit when the brightness ratio is zero, and with several companions each column is that of the companion alone.",
    ["inputs", "configurations"],
    "every orbit of one or several companions (circular or eccentric, any omega, masses), radius ratio, brightness ratio, limb darkening, exposure time and in-transit setting",
    "One fixed configuration is compared with a reference.",
    ["src/exoplanet/light_curves/secondary_eclipse.py", K], [("flipped orbit", "KeplerianOrbit._flip"), ("combination", "SecondaryEclipseLightCurve.get_light_curve")], ["SecondaryEclipseLightCurve.get_light_curve"])
add("C15", "A TTV orbit transits exactly at the requested transit times",
    "For every planet of a TTV orbit and every labelled transit (given as times, or as O-C offsets from t0 + n*period, with or without transit indices), the planet is at conjunction in front of the star at that time, and the motion around it is the underlying Keplerian motion shifted in time. From transit times alone the ephemeris is their least-squares line; a separately supplied period or log-period offset changes only the transit shape; transits missing from the labels fall on the ephemeris, and zero offsets reproduce the plain orbit.",
    ["inputs", "configurations"],
    "any number of planets with differing numbers of transits, any offsets small against half a period, missing transits, circular or eccentric, any method (positions, velocity, light curve, in_transit)",
    "Tests use a few fixed offsets and one set of missing indices.",
    ["src/exoplanet/orbits/ttv.py"], [("least squares", "TTVOrbit.__init__"), ("time warping", "TTVOrbit._get_model_dt, _warp_times")], ["TTVOrbit attributes", "get_relative_position", "in_transit", "get_light_curve"])
add("C16", "Expected transit times are complete and exact",
    "The expected transit times of each planet are exactly the times t0 + n*period, n any integer, lying in the closed interval [min_time, max_time], in increasing order, one array per planet.",
    ["inputs"],
    "every interval, period and t0 (inside, before or after the interval), scalar or vector, including transits on either end point and empty results",
    "Tests check one set of periods with generic end points.",
    ["src/exoplanet/orbits/ttv.py"], [("index range and filter", "compute_expected_transit_times")], ["compute_expected_transit_times"])
add("C17", "A simple transit orbit has the period, duration and impact it was given",
    "For every SimpleTransitOrbit the path is a straight line at constant speed with projected y = b*r_star, crossing x = 0 at t0 + n*period and reaching separation (1+ror)*r_star exactly half a duration before and after, with z positive inside and negative outside the transit; the star stays at the origin. Its light curve therefore vanishes outside the duration, repeats every period, and unsupported requests (velocity, radial velocity, light delay) are refused with NotImplementedError.",
    ["inputs", "configurations"],
    "every period, duration < period, t0, b < 1+ror, r_star, ror, scalar or per planet, any time",
    "Tests compare one grid with a Keplerian orbit; ror and r_star are not varied.",
    ["src/exoplanet/orbits/simple.py"], [("path", "SimpleTransitOrbit.__init__, get_relative_position"), ("selection", "SimpleTransitOrbit.in_transit")], ["SimpleTransitOrbit.get_relative_position", "in_transit", "get_light_curve"])
add("C18", "Grid interpolation is the exact multilinear interpolant",
    "Inside the grid (edges and nodes included) the interpolator returns the multilinear interpolant of the cell containing the point, for scalar or vector-valued data on uneven grids of any dimension, so it is exact at nodes and for multilinear functions. Outside, it extrapolates the edge cell linearly, or returns fill_value when one is given - for points strictly outside the grid only.",
    ["inputs", "configurations"],
    "1-4 dimensions, uneven grids, trailing output axes, points inside, at nodes, on faces, outside, with and without fill_value",
    "Tests compare against scipy for a few shapes with scalar data, generic interior points.",
    ["src/exoplanet/interp.py"], [("cell search and weights", "regular_grid_interp")], ["RegularGridInterpolator.evaluate", "regular_grid_interp"])
add("C19", "Planets and times are independent: batching never changes a value",
    "Evaluating several planets or several times at once gives, entry by entry, the values obtained one planet and one time at a time, with output axes ordered times first then planets and length-one axes dropped. Scalar orbit parameters broadcast against per-planet parameters in every method, and permuting planets or times permutes the output.",
    ["inputs", "configurations"],
    "positions, velocities, accelerations, radial velocities, angles, light curves, in_transit, for every mix of scalar and per-planet parameters and every time shape",
    "Shape tests cover particular pairs; the product of parameter shapes, time shapes and methods is not sampled.",
    [K, "src/exoplanet/light_curves/limb_dark.py", "src/exoplanet/orbits/simple.py", "src/exoplanet/orbits/ttv.py"], [("padding and squeezing", "KeplerianOrbit._warp_times, get_*"), ("broadcasting", "KeplerianOrbit.in_transit")], ["all get_* methods", "in_transit", "get_light_curve"])
add("C20", "Gradients are finite and equal the derivatives of the values",
    "The symbolic gradient of any scalar built from positions, velocities, radial velocities, light curves, interpolators or attributes with respect to any continuous input is finite and equals the numerical derivative of the value wherever the value is differentiable.",
    ["inputs", "configurations"],
    "all continuous parameters (period, t0, ecc, omega, b, incl, radii, masses, limb darkening, times), in and out of transit, with and without exposure time, light delay or in-transit restriction",
    "verify_grad runs at a few points of a few functions; a NaN or a broken gradient elsewhere kills gradient-based sampling.",
    [K, "src/exoplanet/light_curves/limb_dark.py", "src/exoplanet/orbits/ttv.py", "src/exoplanet/interp.py"], [("switches and special cases", "get_light_curve, _get_retarded_position")], ["grad of any output"])
add("C21", "Parameter transforms stay in their domain and imply the stated density",
    "angle always lies in [-pi, pi] and is uniform; unit_disk pairs always satisfy x^2 + y^2 < 1 (to within rounding at the edge) and are uniform on the disk; quad_limb_dark always yields physical coefficients with the uniform (Kipping 2013) density on the physical triangle; impact_parameter lies in [0, 1+ror] and is uniform there given ror. This holds for any shape and, for angle, any regularization.",
    ["inputs", "configurations"],
    "every point of the sampled (unconstrained) space, shapes, regularization and ror values",
    "Tests draw samples for one configuration and run a KS test; tails, shapes and densities elsewhere are not reached.",
    ["src/exoplanet/distributions/distributions.py"], [("transforms and potentials", "angle, unit_disk, quad_limb_dark, impact_parameter")], ["model logp and deterministics"])
add("C22", "Requested starting values are honoured by every distribution",
    "When an initval (or testval) is given to angle, unit_disk, quad_limb_dark, impact_parameter, kipping13 or vaneylen19, the model's initial point reproduces exactly that value of the physical parameter, for any shape; without one the initial point is a default inside the support, of the requested shape. Either way the initial point has finite log-probability.",
    ["inputs", "configurations"],
    "every valid starting value and shape",
    "Tests never evaluate the initial point against the requested value.",
    ["src/exoplanet/distributions/distributions.py", "src/exoplanet/distributions/eccentricity.py"], [("inverse transforms", "_with_initval call sites")], ["model.initial_point"])
add("C23", "Eccentricity priors have the published density, bounds and forms",
    "kipping13 is Beta(1.12, 3.09) (or (0.697, 3.27) for the short-period fit) and vaneylen19 the published mixture (1-f) HalfNormal(0.049) + f Rayleigh(0.26) with f = 0.76 (single) or 0.08 (multi), restricted to and (for kipping13) renormalised on [lower, upper] when bounds are given and -inf outside. Passing observed= adds the same log density at that value, and fixed=False marginalises over truncated-normal hyperparameters of the published mean and width.",
    ["inputs", "configurations"],
    "every eccentricity in (0,1), every bound, fixed/multi/long/observed option and shape",
    "Tests sample two default configurations and run a KS test with loose thresholds.",
    ["src/exoplanet/distributions/eccentricity.py"], [("densities", "kipping13, vaneylen19")], ["model logp"])
add("C24", "RV amplitude and minimum-mass estimates are the weighted least-squares answer",
    "estimate_semi_amplitude returns the weighted linear least-squares amplitudes of the sinusoids at the given periods (phase-free without t0s; with t0s signed, for the phase fixed by the transit time), so noiseless circular RV data are recovered exactly. Inputs as astropy quantities in any equivalent unit, a list or an array give the same answer, and estimate_minimum_mass converts it with the standard K-to-M sin i relation in Jupiter masses.",
    ["inputs", "configurations"],
    "any number of distinct periods, any sampling, uncertainties, units and stellar mass",
    "Tests recover one system within a tolerance; weights, units and several planets are not varied.",
    ["src/exoplanet/estimators.py"], [("design matrix and solve", "estimate_semi_amplitude"), ("mass", "estimate_minimum_mass")], ["estimate_semi_amplitude", "estimate_minimum_mass"])
add("C25", "Periodogram peaks are the highest local maxima, refined exactly",
    "find_peaks returns the highest strict local maxima of the power in decreasing order, at most max_peaks of them (one dictionary when max_peaks is 0, ValueError if there is none), each with the index of the maximum and the period, height and uncertainty of the parabola through the log power at the three points around it. lomb_scargle_estimator applies this to the periodogram of the data (restricted to the requested period range, down-weighted by the period filter), recovering the period of a pure sinusoid.",
    ["inputs", "configurations"],
    "every positive power array and increasing frequency grid, any max_peaks; any sampled sinusoid",
    "Tests look at the single highest peak of one simulated series; the index is never checked.",
    ["src/exoplanet/estimators.py"], [("peaks", "find_peaks"), ("periodogram", "lomb_scargle_estimator")], ["find_peaks", "lomb_scargle_estimator"])
add("C26", "The autocorrelation estimator reports the first significant ACF peak",
    "autocorr_estimator interpolates the series on a uniform grid and returns its (smoothed, normalised) autocorrelation together with the lag of the first peak beyond min_period, or of the second peak if that one is higher, and no peak when that lag exceeds max_period. The autocorrelation equals the direct, unwrapped sum and is 1 at zero lag before smoothing.",
    ["inputs", "configurations"],
    "every evenly or unevenly sampled series, min/max period, oversample, smoothing",
    "One sinusoid is tested.",
    ["src/exoplanet/estimators.py"], [("ACF", "autocorr_function"), ("peak choice", "autocorr_estimator")], ["autocorr_estimator"])
add("C27", "The BLS estimator reports the periodogram and parameters at its best peak",
    "bls_estimator evaluates the box least squares periodogram of the data over the requested period range, keeping its grid no longer than the data when no frequency factor is given, and its peak is the highest strict local maximum of that periodogram. peak_info holds every periodogram quantity at exactly that peak, with transit_time in the time system of the input, so shifting the times shifts only transit_time.",
    ["inputs", "configurations"],
    "every box-transit series, duration, period range passed by either name, uncertainties, oversample",
    "One simulated transit is tested with a loose tolerance.",
    ["src/exoplanet/estimators.py"], [("wrapper", "bls_estimator")], ["bls_estimator"])
add("C28", "Citations cover exactly the components used in the model",
    "After building a model, the acknowledgement text and bibliography contain exoplanet, arviz and the entries of every component used in that model (orbits, light curves, distributions), each once, whatever the order and repetition of the calls and whether the model is passed explicitly or taken from the context; components used outside any model or in another model add nothing. Every citation key in the text has a BibTeX entry, and text lines respect the width.",
    ["histories", "configurations"],
    "every sequence of component constructions over several models",
    "Tests build one model.",
    ["src/exoplanet/citations.py"], [("registration", "add_citations_to_model"), ("rendering", "get_citations_for_model")], ["exoplanet.citations.get_citations_for_model"])
add("C29", "Contradictory or incomplete specifications are rejected, valid ones accepted",
    "Every specification the documentation forbids (no period and no a, both with rho_star or m_star, over- or under-determined star, more than one of incl, b and duration, ecc without omega, omega together with its sine and cosine, both reference times, circular duration without b or with a, TTVs without data, missing light-curve arguments, unknown integration order, non-quadratic limb darkening) raises an error at construction or evaluation, and every specification it allows is accepted.",
    ["inputs", "configurations"],
    "the whole product of given/omitted arguments",
    "Tests check individual pairs; the product of optional arguments is not enumerated.",
    [K, "src/exoplanet/orbits/ttv.py", "src/exoplanet/light_curves/limb_dark.py", "src/exoplanet/estimators.py"], [("validation", "KeplerianOrbit.__init__, _get_consistent_inputs, get_light_curve")], ["constructors", "get_light_curve"])
add("C30", "Interpolated light curves reproduce the base light curve on and between knots",
    "The interpolated light curve equals the base light curve at the phase-grid points and, between them, the cubic through the four surrounding grid values, for each planet at its own phase, whatever the number of periods from t0; it therefore converges to the base light curve as the grid is refined and has one column per planet.",
    ["inputs", "configurations"],
    "one or more planets, any number of phases, any times, exposure times and in-transit settings passed through",
    "The class is documented as untested; no test uses it.",
    ["src/exoplanet/light_curves/interpolated.py"], [("cubic interpolation", "interp"), ("per-planet wrapping", "InterpolatedLightCurve.get_light_curve")], ["InterpolatedLightCurve.get_light_curve"])
add("C31", "Objects are pure: call history and shared inputs never change results",
    "For any sequence of method calls on orbits and light curves, every result equals that of a freshly built object, whatever was called before, and neither the caller's arrays nor other objects built from them are modified. Evaluation is deterministic, and literal, symbolic and random-variable inputs of equal value give equal results.",
    ["histories", "inputs"],
    "every sequence of constructions and calls sharing inputs and objects",
    "Each test builds fresh objects and calls one method.",
    [K, "src/exoplanet/orbits/ttv.py", "src/exoplanet/orbits/simple.py", "src/exoplanet/light_curves/limb_dark.py", "src/exoplanet/estimators.py", "src/exoplanet/interp.py"], [("in-place operators on shared tensors", "in_transit, TTVOrbit, estimators")], ["all public methods"])
add("C32", "The approximate-depth radius ratio is consistent with the light curve",
    "The radius ratio returned for a depth and impact parameter |b| < 1 satisfies depth = ror^2 * I(b)/<I>, with I the quadratic limb-darkening profile and <I> its disk average, so it is exact in the small-planet limit of the light curve, grows with depth as its square root, keeps the shape of b, and the value is the same whether or not the Jacobian is requested.",
    ["inputs"],
    "every depth, |b| < 1, physical limb darkening, scalar or vector",
    "Tests check one set of values with a tolerance of percent.",
    ["src/exoplanet/light_curves/limb_dark.py"], [("inverse of the small-planet depth", "LimbDarkLightCurve.get_ror_from_approx_transit_depth")], ["get_ror_from_approx_transit_depth", "get_light_curve"])

with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
