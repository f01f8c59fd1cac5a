"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
G, M, S, D, I, P, R, N = ("src/barotropic/%s.py" % x for x in
    ("grid", "model", "state", "diagnostics", "io", "plot", "rhs", "init"))
props = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "A run ends at the first time step that is not before the requested end",
  "For every start time, positive step size and end time (plain numbers, or datetime with timedelta), an integration advances through exactly the times start + n*dt and returns as final state the one at the first of these times that is not before the end time; if the start is not before the end, the start state itself is returned. The result is always a pair of a State and a StateList, and the single-step methods (Euler, leapfrog) and State.run stamp their results with the same times.",
  ["inputs", "histories"], "all start times (also nonzero, negative, datetime), step sizes (also ones that do not divide the interval) and end times",
  "The only test that runs the model uses one start time (0), one dt and one end time that dt divides; the stop condition, datetimes and early return are not compared with anything.",
  [M, S], [("loop condition and time stamps", M + " BarotropicModel.run/euler/leapfrog"), ("_to_seconds", M)],
  [("state.time", "valid time of the current state", M)], ["return value of BarotropicModel.run, euler, leapfrog, State.run"])
p("C02", "Saved states follow the requested schedule",
  "With a save interval s > 0, the returned StateList holds the start state followed, in order and without repetition, by each trajectory state that reaches or passes the next due save time, where the due times are start + s, start + 2s, ... and every saved state uses up exactly one due time; with s = 0 it holds the start state only. The schedule does not depend on where on the time axis the run starts, and each listed state equals the final state of a run that is stopped at that time.",
  ["inputs", "histories"], "all combinations of start time, dt, end time and save interval: s < dt, s = dt, s not a multiple of dt, s longer than the run",
  "The test suite counts the saved states of a single run that starts at 0 with s a multiple of dt.",
  [M], [("t_save bookkeeping in the integration loop", M + " BarotropicModel.run")],
  [("t_save", "next due save time", M)], ["second element of the return value of BarotropicModel.run"])
p("C03", "Time steps follow the documented filtered leapfrog scheme for the PV equation",
  "The Euler start adds dt times the PV tendency (minus divergence of the PV flux, plus the forcing) of the given state; a leapfrog step adds 2*dt times the tendency at the current state to the old state and replaces the current state by (1-2g)*q_now + g*(q_old + q_new) with filter parameter g (default 0.2); both apply one implicit diffusion step over the same interval, acting only on the deviation from the diffusion background if there is one. A run is exactly one Euler step followed by leapfrog steps, each continuing from the filtered and new states of the previous one.",
  ["inputs", "histories"], "all PV states, step sizes, forcings, diffusion orders/coefficients/backgrounds, filter parameters and numbers of steps",
  "No test looks at the values of an integrated field.",
  [M, S, G], [("euler, leapfrog, _pv_tendency_spectral, _apply_diffusion", M), ("pv_flux_spectral", S), ("solve_diffusion_spectral", G)],
  [("(state, state_new)", "filtered and newest time level", M)], ["pv of the states returned by euler, leapfrog and run"])
p("C04", "Integrations do not interfere with each other and leave their inputs unchanged",
  "The result of an integration depends only on the model configuration, the start state and the arguments: it is the same no matter which other integrations, forcing evaluations or field accesses (on the same or other models, states and grids) happened before, and running a StateList gives exactly the individual runs in order. No operation changes start states, arrays or terms that were passed in.",
  ["histories"], "all sequences of runs, forcing evaluations and field accesses over shared models, forcing terms, states and grids",
  "Tests never use a model, a forcing term or a state twice, so sharing and caching effects across a history are out of reach.",
  [M, S, R, G], [("models and terms without run state, gradient cache keyed by term and grid", M + ", " + R), ("memoized fields are not modified", S), ("StateList.run", S)],
  [("lru_cache of orography gradients", "shared between all terms", R)], ["results of run and of terms, arrays before/after"])
p("C05", "Composite forcing terms evaluate to the same expression of their parts",
  "A forcing built with + and * from terms (predefined, user-defined subclasses, or plain callables combined with a term), nested in any way and using a term any number of times, evaluates at every state to the same expression of the individual terms' values at that state. A timed switch is 1 up to and including its switch-off time and 0 afterwards (for numbers and datetimes), and a relaxation term is rate * (reference PV - PV).",
  ["programs", "inputs"], "all expression trees over the terms, all states and times relative to the switch-off time",
  "No test builds a composite forcing, a timed switch or a relaxation term.",
  [R, M], [("operators of RHS, _RHSSum, _RHSProduct", R), ("TimedOffSwitch, LinearRelaxation", R), ("forcing added to the tendency", M)],
  [], ["value of term(state)", "effect of the forcing in BarotropicModel.euler"])
p("C06", "Orographic forcing is -f/H u.grad(h) on the grid of the evaluated state",
  "For every orography (arrays on their own lon-lat grid, Gaussian mountain, sine mountains, subclass), wind option (actual, zonal-mean, solid-body), scale height and constant or actual Coriolis parameter, the forcing equals -f/H * u.grad(h) with the orography h of that term on the grid of that state, whatever combinations of terms and grids were evaluated before. Orography arrays are interpolated linearly and Gaussian mountains are the same shape wherever they are centered in longitude.",
  ["inputs", "histories", "configurations"], "all terms, grids and orders in which (term, grid) pairs are evaluated, including more pairs than fit into the cache",
  "One mountain with default options is part of the only test that runs the model; its values are not inspected.",
  [R, G], [("Orography.__call__, orography, _orography_gradient with lru_cache", R), ("Grid.__eq__/__hash__ as cache key, Grid.gradient", G)],
  [("lru_cache(8)", "gradient per (term, grid)", R)], ["value of term(state), term.orography(grid)"])
p("C07", "Derived fields of a state do not depend on the order of access",
  "Every field of a State (PV, relative vorticity, wind, streamfunction, energy, enstrophies, PV flux, zonalized PV, wave activity, envelope, stationary wavenumber and their aliases and spectral versions) has the value determined by the state's PV field alone, consistent with its documented definition, no matter which fields were accessed before, how often, and whether the State was created from a gridded or a spectral field. Accessing fields never changes the state, its grid, another state or the arrays used to create it.",
  ["histories", "inputs"], "all sequences of field accesses on one or several states",
  "Tests access few fields once, in one order, mostly checking shapes.",
  [S], [("lazily evaluated, memoized fields (_pv, _u, _v, _streamfunction, _cached_property)", S)],
  [("_pv_spectral, _pv, _u, _v, _streamfunction, _falwa, _pv_zonalized", "memoized fields", S)], ["State properties"])
p("C08", "Planetary vorticity enters a state exactly once",
  "States made from wind, from relative vorticity or from PV describe the same flow when their inputs do: relative vorticity is PV minus the planetary vorticity of the grid, and the non-divergent wind of a state has that relative vorticity. Wind- and vorticity-based addition (of states or fields, in any sequence) add the relative flows and keep the planetary vorticity, grid and time of the left operand.",
  ["programs", "inputs"], "all band-limited flows and all sequences of constructions and additions, all rotation rates and radii",
  "Tests cover three conversions on one grid; additions are not tested at all.",
  [S, G], [("from_wind, from_vorticity, add_wind, add_vorticity, vorticity", S), ("fcor2, wind, vorticity", G)],
  [("_pv_spectral", "absolute vorticity", S)], ["pv, vorticity, u, v, time and grid of the resulting State"])
p("C09", "A StateList acts like the sequence of its states",
  "Accessing an attribute or calling a State method or map on a StateList yields the results for its states, in order: stacked into an array if all are arrays or all are numbers, a StateList if all are States, otherwise a list. Indexing, iteration, length and concatenation agree with the tuple of states, copies and pickles hold equal states, nothing changes an existing StateList, and lists with objects that are not States or with States on different grids are refused.",
  ["programs", "inputs"], "all sequences of list operations over all mixes of result types, including empty and single-element lists",
  "Tests check shapes for one list of five states and two refusals.",
  [S], [("StateList.__init__, __getattr__, map, __add__, run", S), ("_convert_sequence", S)],
  [("_states", "tuple of states", S)], ["results of StateList operations"])
p("C10", "Region selection picks exactly the requested coordinates",
  "For every grid and selection, a region contains exactly the latitudes between the two bounds (in either order) and the longitudes from the first bound eastward to the second, across 0 degrees if needed, bounds included; omitted bounds are open, \"N\" and \"S\" are the hemispheres including the equator, a single number selects exactly that grid coordinate, and anything else is an IndexError. All fields of a region (coordinates, extracted profiles and fields, mask, shape, area, means) refer to the same points in the same order, north to south and west to east, with monotonic longitudes on request.",
  ["inputs"], "all bounds on and between gridpoints, in any order, missing bounds, numbers, keywords and invalid selections, on all grids, including grids whose coordinates are not representable exactly",
  "Tests try about ten selections on a 10 degree grid.",
  [G], [("GridRegionIndexer._get_lat_indices/_get_lon_indices", G), ("GridRegion._extract_one, mask, lon_mono", G)],
  [], ["Grid.region[...], attributes and methods of GridRegion"])
p("C11", "Grid coordinates, metrics and identity are consistent",
  "For every resolution that divides 180 degrees, the grid has 360/resolution longitudes from 0 and 180/resolution+1 latitudes from +90 to -90, uniformly spaced as dlon and dlat say; degree and radian, 1D and 2D coordinates, shape, Coriolis parameter and circumference agree with each other, and gridpoint areas sum to the sphere. Grids that compare equal have the same hash, grids that differ in resolution, radius, rotation or truncation are unequal, and comparing with other objects does not fail.",
  ["configurations"], "all resolutions that divide 180 degrees (including ones that are not exactly representable), radii, rotation rates, truncations",
  "Tests use five resolutions and only check the sum of areas.",
  [G], [("Grid.__init__", G), ("Grid.__eq__, __hash__", G), ("gridpoint_area, circumference, coriolis", G)],
  [], ["attributes of Grid"])
p("C12", "Area-weighted means weight every gridpoint with its area",
  "The mean of a field over the globe or a region, over both or one axis (given by name or number), is the sum of values times gridpoint areas divided by the sum of areas of the points in the selection, whether the field is given on the whole grid or already extracted. In particular means of constants are exact, the mean is linear, means of disjoint parts combine to the mean of the union with their areas as weights, and invalid axes or shapes are refused.",
  ["inputs"], "all fields, regions (including ones across 0 degrees, single rows, columns and points), axis specifications and grids",
  "Tests use fields of ones and half-and-half fields.",
  [G], [("Grid.mean, gridpoint_area", G), ("GridRegion.mean, gridpoint_area, extract", G)], [], ["Grid.mean, GridRegion.mean"])
p("C13", "Quadrature integrates exactly the part of the field inside the domain",
  "For every field y and domain field z, the meridional integrals are the integrals of y over the part of each meridian where z >= 0: gridpoint-wise for the boxcounting scheme, and for the trapezoidal scheme over piecewise linear y with the domain boundary at the linearly interpolated zero of z; the surface integral is their sum times the zonal extent. Hence complementary domains add up to the whole integral, columns are independent of each other, and sectors of the globe are integrated like the full field.",
  ["inputs"], "all integer-valued fields and domains, both schemes, full and sectoral fields, on all grids",
  "Tests only integrate a field of ones over the whole sphere.",
  [G], [("Grid.quad, quad_meridional", G)], [], ["Grid.quad, Grid.quad_meridional"])
p("C14", "Zonalization is an area-preserving rearrangement ordered north to south",
  "For every field, contour set and quadrature rule, each contour value is placed at the latitude north of which the sphere has the same area as the part of the field that reaches the value (rescaled to the globe for sectors), and the interpolated profile runs from the maximum of the field at the north pole to the minimum at the south pole without ever increasing southward. It does not depend on the longitude order of the field, and contours are by default as many as documented and strictly between minimum and maximum.",
  ["inputs"], "all fields (also constant ones, sectors), numbers of levels, explicit levels in any order, both quadratures, interpolated or not, scalar and array areas for the equivalent latitude",
  "Only the output shape of a zonalization on solid-body flows is tested.",
  [G], [("Grid.zonalize, equivalent_latitude, quad, interpolate_meridional", G)], [], ["Grid.zonalize, Grid.equivalent_latitude, State.pv_zonalized"])
p("C15", "Local wave activity measures the displacement from the zonalized state",
  "At every equivalent latitude y with contour q and every longitude, wave activity is the meridional integral of (PV - q) over the part where PV >= q minus that over the part north of y, divided by cos(y); it is never negative and vanishes for zonally symmetric PV that decreases southward. The zonal mean of the local wave activity is the wave activity of Nakamura and Zhu, shifting the field in longitude shifts the result, and State and array inputs give the same result.",
  ["inputs"], "all PV fields, level choices, both quadratures, interpolated or not",
  "Only output shapes are tested.",
  [D, G, S], [("diagnostics.falwa, fawa", D), ("Grid.zonalize, quad_meridional", G), ("State.falwa, State.fawa", S)], [], ["diagnostics.falwa/fawa, State.falwa/fawa"])
p("C16", "Spectral operators act on every spherical harmonic with its exact eigenvalue",
  "For fields made of spherical harmonics resolved by the grid (degree below nlat-1), Laplacian, Poisson(-like) solver (including its additive constant, also for the global mean), implicit diffusion of any order, vorticity, divergence, wind and gradient act on every harmonic with the factor given by its degree, the radius and their arguments, in any composition; inverse operations undo each other and contributions beyond the truncation are removed. Gridded, spectral and combined variants of an operator agree.",
  ["programs", "inputs", "configurations"], "all combinations of harmonics and sequences of operators, radii, truncations, both Legendre function options",
  "No test calls these operators directly.",
  [G], [("to_spectral, to_grid, laplace, solve_poisson, solve_diffusion and their spectral versions", G), ("wind, vorticity, divergence, vorticity_divergence, gradient", G)],
  [("_laplacian_eigenvalues", "n(n+1)/r^2 per coefficient", G)], ["outputs of Grid operators"])
p("C17", "The meridional derivative is the documented finite-difference stencil everywhere",
  "For every 1D or 2D field, the derivative is the second- or fourth-order finite difference of the chosen order at every latitude (centered inside, one-sided near the poles, the same for every longitude), so it is exact for polynomials in latitude up to that order; for 1D profiles the value at the poles is 0. Orders other than 2 and 4 and grids with too few latitudes are refused, and the input is not modified.",
  ["inputs"], "all integer-valued fields (also integer dtype), both orders, all grids down to the smallest allowed",
  "Tests differentiate a linear profile on one grid in 1D.",
  [G], [("Grid.derivative_meridional", G)], [], ["Grid.derivative_meridional"])
p("C18", "Meridional interpolation is piecewise linear through data and pole values",
  "For every profile or 2D field on arbitrary latitudes in any order, the interpolation function reproduces the data at their latitudes and the given pole values at the poles (north first) and is linear in between, column by column; interpolating onto the grid evaluates this function at the grid latitudes. Inputs are not modified.",
  ["inputs"], "all latitude sets in any order, 1D and 2D fields, pole values",
  "Not called directly by any test.",
  [G], [("Grid.interp1d_meridional, interpolate_meridional", G)], [], ["return values of interp1d_meridional and interpolate_meridional"])
p("C19", "Filters are centered convolutions, periodic in longitude, mirrored at the poles",
  "Filter windows have the smallest odd number of gridpoints that is not smaller than the rounded width, are of the requested type and sum to 1. Zonal filtering is the periodic and meridional filtering the mirrored convolution with the window, acting only along its own dimension, for windows of any length, given by name or as array; filtering by wavenumber smooths each gridpoint with the Hann window whose half width is the number of gridpoints per wavelength of the wavenumber given for that point (limited to 1 ... nlon/2), so it keeps constants and the zonal mean of a latitude with uniform wavenumber.",
  ["inputs", "configurations"], "all fields, windows (also asymmetric or longer than the dimension), widths, resolutions and wavenumber fields (1D and 2D)",
  "Tests only check shapes of the outputs; filtering by wavenumber is not reached.",
  [G, D], [("get_filter_window, filter_meridional, filter_zonal", G), ("filter_by_wavenumber", D)], [], ["outputs of the filter functions"])
p("C20", "Fourier diagnostics respect the requested wavenumber range",
  "The dominant wavenumber of a latitude is the zonal wavenumber within the requested range (both ends included) that has the largest amplitude at that latitude, optionally smoothed in latitude; the Hilbert envelope of a wave packet is the amplitude of its modulation, built only from the wavenumbers within the range (both ends included). Neither depends on phase: shifting the field in longitude leaves the wavenumber unchanged and shifts the envelope.",
  ["inputs"], "all combinations of amplitudes per wavenumber and latitude, phases, and ranges",
  "Not tested apart from the shape of one envelope.",
  [D, S], [("dominant_wavenumber_fourier, envelope_hilbert, _restrict_fourier_zonal", D), ("State.v_envelope_hilbert, falwa_filtered", S)], [], ["outputs of the diagnostics"])
p("C21", "The stationary wavenumber follows the sign of PV gradient and wind",
  "At every latitude the squared stationary wavenumber is cos^2(lat) * r * dq/dlat / u with the zonal means of PV and zonal wind; where the wind is smaller than the threshold it is +inf or -inf by the sign of the PV gradient, or 0 if the gradient vanishes, never NaN. Complex, real and squared variants describe the same number, profiles, fields and states are accepted and give the same result, and the PV gradient implied by a wind profile is used if there is no PV.",
  ["inputs"], "all profiles of wind and PV (signs, zeros, small values), thresholds, orders, variants and input kinds",
  "Only the shape for solid-body flows is tested.",
  [D, S], [("stationary_wavenumber", D)], [], ["diagnostics.stationary_wavenumber, State.stationary_wavenumber"])
p("C22", "Waveguides are exactly the latitude bands where Ks is at least k",
  "For every profile of the stationary wavenumber (finite, imaginary or infinite values) and every wavenumber k, the extracted waveguides are disjoint, ordered from north to south, and together are the latitudes where the linearly interpolated profile exceeds k, ending at the interpolated crossings or at the poles; boundaries are never NaN.",
  ["inputs"], "all profiles over ordered values including ties with k and infinities of both signs, any number of waveguides, and the State interface",
  "No test calls the function.",
  [D, S], [("extract_ks_waveguides: scan from north to south", D), ("State.extract_ks_waveguides", S)],
  [("active, start", "scan state", D)], ["list of tuples returned"])
p("C23", "Datasets hold the fields of every state under the right name and coordinates",
  "The dataset made from any collection of states contains exactly the requested variables (given as name, list, or mapping to attribute names or callables), each with the values of the i-th state at position i along the concatenation dimension and with the latitude and longitude dimensions its shape implies. Coordinates are those of the grid and the times of the states, another concatenation dimension uses the attribute of the states or else a running index, no states give an empty dataset, and the input is not changed.",
  ["inputs"], "all numbers of states, field specifications, field shapes, concatenation dimensions, time types",
  "Tests look at dimension names of a single-state dataset; values are not compared.",
  [I, S], [("as_dataset", I), ("StateList.as_dataset, map, __getattr__", S)], [], ["returned xarray.Dataset"])
p("C24", "Dataset import uses the right variables or refuses",
  "States are made from wind if both components are present, else from relative vorticity, else from absolute vorticity, with every documented variable name in documented order and with user-given names taking precedence; incomplete, irregular, misoriented or wrongly ordered data is refused with an exception. All dimensions other than latitude and longitude are flattened in order, each state holding the field and the time at its position (or the fill value), whether or not those dimensions have coordinates.",
  ["inputs", "configurations"], "all subsets of variables and names, overrides, extra dimensions with or without (unique) coordinates, grids and coordinate precisions, time types",
  "Tests use fields of zeros in all cases, so which variable and which position a state came from is invisible to them.",
  [I], [("from_dataset, _select_var, _VAR_NAMES", I)], [], ["returned StateList or exception"])
p("C25", "States survive a round trip through other representations",
  "Exporting states to a dataset (as wind, relative or absolute vorticity) and importing it gives states on an equal grid with the same times and PV fields in the same order, ready to be displayed and integrated further, and so does conversion to and from a falwa barotropic field. Times keep their kind: numbers stay numbers and datetimes stay datetimes, to the microsecond.",
  ["inputs", "configurations"], "all resolutions, numbers of states, field selections, numeric and datetime times, grid parameters",
  "Export and import are tested separately, with fields of zeros; the falwa conversion is not tested.",
  [I, S], [("as_dataset, from_dataset", I), ("State.as_hn2016, from_hn2016", S)], [], ["states after the round trip"])
p("C26", "Everything drawn in a plot is at its labelled longitude, latitude and time",
  "For every center longitude, all fields and vectors of a map show each value at the position whose tick label is its longitude, with the requested meridian (to the nearest gridpoint, periodic) in the middle and every overlay shifted alike; Hovmoeller data puts states in order along time and the profile along its own axis; vector thinning keeps positions and vectors together; contour levels are symmetric about 0.",
  ["inputs", "configurations"], "all grids, center longitudes, profiles and fields, including fields that are not symmetric",
  "No test touches the plot module.",
  [P], [("roll_lon, configure_lon_x, reduce_vectors, hovmoellerify, symmetric_levels", P), ("summary, wave_activity, rwp_diagnostics, waveguides", P)], [], ["arguments received by the axes, tick labels, return values"])
p("C27", "Initial-condition presets produce the documented flow",
  "Each preset returns a state on the given grid with the given time whose wind (or PV) is the documented zonally symmetric profile, without meridional wind: at rest, solid-body rotation with the given equatorial wind, the Gaussian jet with zero wind at both poles, the Held profile, or the given profile of u or PV. Giving both or none of u and PV is refused, as are profiles of the wrong size.",
  ["inputs", "configurations"], "all amplitudes, centers, widths, profiles, times and grids",
  "Only solid-body rotation and rest are used by tests, as inputs to something else.",
  [N, S], [("motionless, zonally_symmetric, solid_body_rotation, gaussian_jet, held_1985", N)], [], ["pv, u, v, time, grid of the returned State"])
p("C28", "Nothing depends on the choice of zero meridian, north pole, units or epoch",
  "Moving a whole experiment in longitude by a number of gridpoints, reflecting it at the equator, expressing it in other units of length and time (radius, rotation rate, step sizes and all other parameters converted alike) or starting it at another time changes the results only accordingly. Every state, integration with any forcing, derived field, wave-activity and Fourier diagnostic, grid operator, mean, quadrature and filter then gives the field shifted in longitude, reflected with the sign its parity demands (vorticity, streamfunction and meridional wind are odd, zonal wind and wave activity are even) and scaled by its dimension, in any composition of these operations.",
  ["programs", "inputs", "configurations"], "all compositions of integrations, constructions, operators and diagnostics, all shifts, reflections, scales and start times",
  "Tests use the Earth, one longitude origin and northern-hemisphere features, and never compare two experiments.",
  [G, S, M, R, D, N, I], [("all operators of Grid", G), ("State and its fields", S), ("BarotropicModel.run", M), ("orographic and other forcing terms", R), ("falwa, Fourier diagnostics, stationary_wavenumber", D), ("presets", N)], [("time, pv", "state of the flow", S)], ["results of two related experiments"])
p("C29", "Fields may come in any array layout and number format",
  "An array passed as a field, profile, wind component, contour levels, window, wavenumber, orography or reference gives the same result whatever its memory layout (C or Fortran order, strided, reversed, window of a larger array, broadcast, read-only, subclass of ndarray), byte order and number format (floating point in single and double precision, signed and, for scalar fields, unsigned integers up to the limits of their range): that of the same numbers as a plain double precision array. No operation writes to the memory of its arguments, and filling an array anew afterwards changes no result obtained earlier and is seen by later calls.",
  ["inputs", "histories"], "all layouts x number formats x operations, values up to the limits of the formats, any sequence of calls and refills",
  "Tests pass freshly computed, contiguous double precision arrays of moderate values.",
  [G, S, M, R, D, N, I], [("all methods of Grid that take fields", G), ("State constructors", S), ("diffusion_bg", M), ("Orography, LinearRelaxation", R), ("diagnostics functions", D), ("zonally_symmetric", N), ("from_dataset", I)], [("arguments", "buffers owned by the caller", G)], ["return values", "bytes of the arguments"])
p("C30", "What is displayed of an object is true",
  "The text (repr, str, format) of an object describes its current contents. State: a numeric time in seconds if it is at most 120 s (also if negative), else in minutes up to 120 min, else in hours up to 240 h, else in days, rounded to a tenth; a datetime in ISO format that reads back to the same datetime. StateList: its number of states. Grid: shape, resolution in degrees, radius, rotation rate, spectral truncation and mode of the Legendre functions, so that an equal grid can be made from them. GridRegion: southern and northern, western and eastern bounds of the selection rounded to hundredths of a degree (nan if nothing is selected) and its numbers of latitudes and longitudes; its map of 9 by 36 cells has exactly those cells marked that contain selected gridpoints, north on top and 0 degrees east on the left, also for selections across the 0 meridian, and none for an empty selection; the grid it belongs to follows. Model: twice its present diffusion order as the exponent of the diffusion operator and of the unit, its present diffusion coefficient to six digits and its present forcing; composite forcings are written as the expression of the texts of their parts, with parentheses such that it reads back to the same tree. Displaying something changes nothing.",
  ["inputs", "histories"], "all times, selections, grids, models (also after their settings have been changed) and composite forcings",
  "No test looks at a text.",
  ["src/barotropic/formatting.py", G, S, M, R], [("format_time, grid_repr, grid_region_repr, state_repr, barotropic_model_repr", "src/barotropic/formatting.py"), ("__repr__ of RHS sums and products", R)],
  [("diffusion_order, diffusion_coeff, rhs", "settings of a model", M)], ["repr(obj), str(obj), format(obj)"])

p("C31", "Objects and results do not influence each other",
  "Grids, regions, states, forcing terms, models and the functions of the package behave according to their own parameters and arguments only: whichever other objects with equal, similar or different parameters were made, used, changed or deleted before in the same process, a method or function gives the result that it gives in a process in which nothing happened before (up to single-precision rounding). Every call returns a result of its own: if the caller changes a returned array, list or state in place, no later result of any call changes, and a result that the caller keeps is not changed by later calls. (The memoized fields of a state, like pv, u, v, and the coordinate attributes of a grid are not results but parts of the object.)",
  ["histories", "inputs"], "all histories of making, using, changing and deleting objects and of overwriting results",
  "Tests use few objects, of one kind each, and look at every result once; caches with too coarse keys, shared buffers and identities used again only show in particular histories.",
  [G, S, M, R, I, "src/barotropic/diagnostics.py"], [("all methods and properties", G), ("all methods and properties", S), ("__call__, orography, _orography_gradient", R), ("euler, leapfrog, run", M), ("all", I)],
  [("time", "valid time of a state", S)], ["any public call on objects of the package"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props))
