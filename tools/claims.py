"""property -> (TLA+ modules, assurance note)"""
CLAIMS = {
"C01": ("ModelRun, ModelRunTrace", "Exhaustive over start/step/end/save in small tick ranges with liveness; every emitted behaviour class replayed under several real time axes (int, float, numpy, datetime); random longer runs recorded and validated. Assumes the time axis is exactly representable (ties are not tested for drifting floats)."),
"C02": ("ModelRun, ModelRunTrace", "As C01, with the schedule in closed form as invariant; saved states are compared with the composed trajectory and with stopped runs. Numeric times only (datetime save intervals are documented as unsupported)."),
"C07": ("StateFields", "Dependency graph and memo of the state fields; all access orders over 1-2 states up to a bound plus random longer ones replayed; every value is compared with that of a fresh state, which is checked against closed forms (own spherical-harmonic basis)."),
"C08": ("FlowAlgebra", "All programs of constructors and additions up to a bound over a small set of flows, random longer ones; coefficients evaluated with an own spherical-harmonic basis (tolerance 1e-5: single-precision transforms)."),
"C16": ("Spectral", "Fine grids (T119) and grids of one shape on several planets in turn. Exact rational eigenvalue algebra; all operator programs up to a bound over random modes of every degree, replayed in gridded, spectral and combined variants. Degrees below nlat-1 (the highest degree is not exactly resolved by pyspharm)."),
"C03": ("Scheme", "The scheme in exact rational arithmetic on a family of flows the PV equation maps to itself (mean, solid-body part, two waves of one degree), all combinations of forcing, diffusion, background and filter; every behaviour replayed as single steps and runs under several time axes. General flows: one step against the closed form, runs against the composition of steps. Tolerance 2e-5 (single-precision transforms)."),
"C04": ("History, HistoryTrace", "Memo and gradient cache in the specification, all histories up to a bound and long random ones replayed on shared objects and compared with operations on fresh objects (also in another process, in the opposite order); recorded random histories of all public operations are validated by HistoryTrace. Models are reconfigured between runs (diffusion, right-hand side). Single-threaded use."),
"C05": ("Forcing", "All programs up to a bound over the term kinds, random longer ones with sharing; integer values at every state and point (latitude, longitude, both), reference fields that are broadcast included."),
"C06": ("OrogShape, Orography", "Exact rational interpolation and distances; evaluation histories with a bounded cache, wind factors of zero included. Forcing compared with closed forms on harmonics, and with the validated gradient operator for arrays and mountains."),
"C09": ("Container", "All sequences of list operations up to a bound over states on equal and different grids and non-states, the stacking decision table in full, random longer ones."),
"C10": ("Region", "Positions in half grid steps (odd: between gridpoints), all pairs of bounds and selection kinds on small grids, random ones up to 2.5 degrees; stop = 360 and negative bounds are outside the documented range."),
"C11": ("GridGeom, GridIdentity", "Rational coordinates and zones for n intervals (2 ... 72, thorough to 240); all pairs of grid descriptions, mappings keyed by grids with all operation sequences up to a bound and random longer ones; nearly equal resolutions."),
"C12": ("Means, MeansScen, MeanCall", "Means are linear: all (region, point) pairs on small grids determine them; unions of disjoint blocks as actions, on larger grids too; the call table (axis x field x region) in full."),
"C13": ("QuadDomain, QuadDomainScen", "All sign patterns and roots along a meridian with small integer values, random ones on larger grids; the segments are integrated independently (Gauss-Legendre)."),
"C14": ("Zonalize, ZonalizeScen", "All small fields and contour sets (ties included), random larger ones, sectors and repeated meridians; equivalent latitudes compared by area, interpolated profiles bracketed at jumps."),
"C15": ("Falwa", "All small fields, random larger ones; non-negativity for every position of the cut as invariant in the flat metric, values against independent line integrals, both quadratures."),
"C17": ("Derivative, DerivativeScen", "Stencils derived in exact rational arithmetic from the requirement of exactness for polynomials; all rows, orders and impulses on small grids (linear operator), random fields on larger ones. Rows next to the poles as documented."),
"C18": ("MeridInterp, MeridInterpScen", "All subsets and orders of data latitudes on small grids (poles included), random rational latitudes on larger ones; fields, profiles, dtypes."),
"C19": ("Filter, FilterScen, WaveFilter, WindowWidth", "All impulses and programs of windows on small grids (convolution is linear), random fields and longer/asymmetric windows on larger ones; window shapes from own closed forms. Widths and windows away from rounding ties, windows of odd length."),
"C20": ("Fourier, FourierScen, Conv", "Squared envelopes as elements of a group ring, exactly: all tables of amplitudes, phases and ranges on small circles with shifts and carrier waves as actions, random fields with different spectra in all rows on grids. Distinct amplitudes below the Nyquist wavenumber (the wave of two gridpoints included); integer ranges. Wavelets: 10-15 % tolerance."),
"C21": ("StatWave, StatWaveScen, Derivative", "Sign table with exact stencils: all PV profiles on small grids against wind patterns and thresholds, with changes of PV, wind and threshold as actions; random profiles on larger grids; wind-only profiles and fields against derivative matrices emitted by the specification. Wind never exactly at the threshold; gradients that vanish except for rounding are not compared."),
"C22": ("Waveguide, WaveguideScen", "The scan as a state machine and independently the set of latitudes, interval by interval; all profiles with up to 5 (thorough: 6) latitudes over values below, at and above k and both infinities, random ones up to 73 latitudes. Where values equal k or opposite infinities meet, any answer between the open and the closed set is accepted."),
"C23": ("Export", "The dataset as a function of the request (fields, getters, shapes, concatenation dimension, kinds of times); all requests up to a bound, random longer ones, all values compared with the attributes of the states."),
"C24": ("ImportSelect, ImportDims, ImportGeom", "All subsets of variable names with overrides, all small systems of extra dimensions with and without coordinates and time placements, all edits of the coordinates of a regular grid; distinct fields everywhere. Any exception counts as refusal (the documentation names none)."),
"C25": ("RoundTrip", "PV as exact combination of planetary vorticity, flow and mean, carried through all programs of exports (every kind of field), imports on other planets, falwa there and back, and selections up to a bound, random longer ones; 14 kinds of times; fields for other grids refused. Tolerance 1e-4 per conversion (derivatives in single precision)."),
"C26": ("MapDrawing, Hovmoeller", "All centers in quarter grid steps over three turns, thinning and diagrams in full on small sizes; figures with everything the axes receive and the tick labels read back, panel by panel. Labels are whole degrees: gridpoints are identified within half a degree (grids of 5 degrees and coarser in figures)."),
"C27": ("Presets", "Flows as exact polynomials in cos and sin of latitude, jets with exact weights of the linear correction; all pairs of calls, refused calls in between, profiles taken from earlier flows, random longer programs; wind and PV against closed forms and against states made of the documented wind."),
"C28": ("Symmetry", "Typed algebra of values (kind, powers of length and time, parity); toy world run in lock-step with the world moved by a group element (shift, reflection, units, epoch up to 1400 years away and negative), all programs of length 3 exhaustively with all operations, random programs of length 6 with all elements; every program executed twice in the code. Tolerance 2e-3 of the size of the value (single precision, amplified by derivatives); waveguide edges within half a degree."),
"C29": ("Layout", "Buffers with views (offset and strides) and the value ranges of 11 number formats, all arrays x all operations exhaustively, random histories with up to three arrays filled anew in between; every operation compared with the same numbers as plain float64, whole buffers compared bytewise. Integer-valued fields; half precision, lists and masked arrays are not included."),
"C30": ("Display, DisplayTime, DisplayMap", "Programs that make and combine terms, make, change and display models (exhaustive to a depth, random to 14 actions) with the text as a sequence of tokens and its reading as inverse; times in ticks of 1/20 s around every change of unit, with ties; all selections of the region specification with bounds in hundredths and cells of the map (both cells allowed on an edge). Datetimes, grids and lists with random values. Only the layout of the text that is needed to read it is fixed."),
"C31": ("Independence", "Histories in which grids (14 parameter sets, similar and equal ones among them), regions, flows and terms are made, used by more than 115 kinds of calls, changed and deleted, and results are overwritten: exhaustive to a depth, random ones of 28 actions from selections of few methods and parameters, in which calls are repeated on the same and on equal objects and objects are replaced by others. A call carries a symbol (method and parameters of its own objects); the value of every symbol comes from a process of its own, all histories run together in one process, and results the caller keeps are looked at again at the end. Differences below 2e-5 of the usual size are rounding; parameters so close that grids compare equal are not used."),
}
