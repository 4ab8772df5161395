"""Texts of the properties: the single source of properties.jsonl, MANIFEST.json and the evidence explanations."""

WD = "src/ripplegw/waveforms/"
D, DU = WD + "IMRPhenomD.py", WD + "IMRPhenomD_utils.py"
XAS, XU = WD + "IMRPhenomXAS.py", WD + "IMRPhenomX_utils.py"
NR, TU = WD + "IMRPhenomD_NRTidalv2.py", WD + "IMRPhenom_tidal_utils.py"
TF2, P2, PU = WD + "TaylorF2.py", WD + "IMRPhenomPv2.py", WD + "IMRPhenomPv2_utils.py"
QNM = WD + "IMRPhenomD_QNMdata.py"
SG = WD + "SineGaussian.py"
INIT, NOISE, CONST, REG = "src/ripplegw/__init__.py", "src/ripplegw/noise.py", "src/ripplegw/constants.py", "src/ripplegw/FD_waveform.py"
GENS = [D, XAS, NR, TF2, P2]

SMOKE = "The tests run each generator on a handful of parameter points and assert only that it returns (or compare two conversions at one point); "

PROPS = {}


def P(id, title, statement, text, why, files, mech, observe, explain, over=("inputs",), note=None, na=None):
    PROPS[id] = dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                     mech=mech, observe=observe, explain=explain, note=note, na=na)


GVN = ("The public entry point is lowered from /repo's current source to a hash-consed value graph by an abstract interpreter of the Python AST "
       "(nothing of the package is imported or run); both sides of the rule are value-numbered algebraically (every node mapped homomorphically into a random large "
       "finite field, so equal value numbers mean equal expressions) ")
NOTE = ("Static equality of the lowered value graphs up to field arithmetic; trusts the Python/JAX lowering in interp.py/externs.py and the algebraic laws of "
        "real arithmetic (rounding is not modelled). A false equality needs a collision in a field of more than 2^60 elements in every sample. ")

P("P01", "Strain amplitude is inversely proportional to luminosity distance",
  "For every waveform model and every choice of the other parameters, multiplying the luminosity distance by k divides both polarizations by k at every frequency and changes nothing else. "
  "For the sine-Gaussian burst, both polarizations are proportional to the root-sum-square amplitude parameter.",
  "every model, frequency, masses, spins, tides, orientation, and every positive factor k",
  SMOKE + "no finite sample shows the factorisation for all distances.",
  GENS + [SG], [("distance enters through the overall amplitude prefactor", D + " gen_IMRPhenomD / _gen_IMRPhenomD"), ("precessing model", P2 + " PhenomPOneFrequency"), ("tidal amplitude", NR + " get_tidal_amplitude")],
  ["gen_*_hphc return values"], GVN + "with the distance replaced by k times the distance, in every frequency region.")
P("P02", "Inclination enters only through the quadrupole polarization factors",
  "For every aligned-spin model the plus and cross polarizations are the single strain times (1+cos^2 i)/2 and -i cos i, so their ratio depends on the inclination alone. "
  "Viewing the source from the opposite side (i to pi-i) leaves plus unchanged and flips the sign of cross.",
  "every aligned-spin model, parameter point, inclination and frequency", SMOKE + "no test compares polarizations with the single strain.",
  GENS[:4], [("polarization factors", D + " gen_IMRPhenomD_hphc"), ("polarization factors", XAS + " gen_IMRPhenomXAS_hphc"), ("polarization factors", NR + " gen_IMRPhenomD_NRTidalv2_hphc"), ("polarization factors", TF2 + " gen_TaylorF2_hphc")],
  ["gen_*_hphc", "gen_* single strain"], GVN + "against the quadrupole pattern applied to the single-strain entry point.")
P("P03", "Coalescence time and phase act as exact linear phases, alike in all models",
  "Shifting the coalescence time by dt multiplies the strain of every frequency-domain model by exp(-2 pi i f dt), with dt in seconds. Shifting the coalescence phase by dphi multiplies the strain of every aligned-spin model by exp(2 i dphi); both laws have the same sign in all models.",
  "every model, frequency, mass, spin, tide and every shift", SMOKE + "tests hold the coalescence time and phase at zero or compare nothing.",
  GENS, [("time and phase shift in the strain phase", D + " _gen_IMRPhenomD"), ("time shift", P2 + " gen_IMRPhenomPv2"), ("time and phase shift", XAS + " _gen_IMRPhenomXAS")],
  ["gen_*_hphc"], GVN + "with symbolic shifts of the coalescence time and phase.")
P("P04", "Reference frequency only rotates the strain and pins its phase",
  "Changing the reference frequency of an aligned-spin model multiplies the strain by one frequency-independent complex number of modulus one. "
  "For the models that define their phase there, the phase of the strain at the reference frequency with zero coalescence time is a fixed constant for every mass, spin and tide.",
  "every aligned-spin model, frequency, reference frequency and intrinsic parameter", SMOKE + "tests keep one reference frequency.",
  GENS[:4], [("phase referenced to f_ref", D + " _gen_IMRPhenomD (Mf_ref)"), ("phase referenced to f_ref", XAS + " _gen_IMRPhenomXAS"), ("phase referenced to f_ref", TF2 + " gen_TaylorF2")],
  ["gen_* single strain"], GVN + "for the logarithmic frequency derivative of the ratio of two strains that differ in the reference frequency, and for the strain at f = f_ref.")
P("P05", "Waveforms obey the mass-scale covariance of general relativity",
  "Multiplying both masses by s, dividing all frequencies by s and multiplying times by s multiplies the strain of every frequency-domain model by s^2. The innermost-stable-orbit frequency is inversely proportional to the mass.",
  "every model, every parameter point and every scale s", SMOKE + "scale covariance is a statement about all masses and frequencies at once.",
  GENS + [INIT], [("dimensionless frequency M f in the phase and amplitude", D + " Phase/Amp"), ("mass units conversion", CONST + " gt")],
  ["gen_*_hphc", "get_f_isco"], GVN + "with masses, frequencies and times rescaled by a symbolic factor.")
P("P06", "Mass, spin and tidal coordinate maps are exact inverses of each other",
  "Chirp mass and symmetric mass ratio convert to component masses (the larger first) and back without change, and so do individual and combined tidal parameters, by masses or by mass ratio. "
  "The combined quantities equal their published definitions: the chirp mass, the two combined tidal parameters, the mass-weighted effective spin and the innermost stable orbit frequency.",
  "every pair of masses, mass ratio and pair of tidal parameters", "test_conversion compares a few random points of some maps; an error that vanishes at those points or in an untested map is invisible.",
  [INIT], [("mass maps", INIT + " Mc_eta_to_ms / ms_to_Mc_eta"), ("tidal maps", INIT + " lambdas_to_lambda_tildes, lambda_tildes_to_lambdas and *_from_q"), ("effective spin", INIT + " get_chi_eff")],
  ["return values of the conversion functions"], GVN + "for the composition of each map with its inverse, and for the published definitions.")
P("P07", "Relabelling the two bodies leaves the aligned-spin strain unchanged",
  "Exchanging the two bodies, with their masses, spins and tidal parameters, describes the same binary: the strain, as an analytic function of the mass difference, goes over into itself. At equal masses, swapping spins (and tidal parameters) leaves the strain unchanged.",
  "every aligned-spin model (for the tidal model without its taper, whose merger frequency is defined with the larger mass first), parameter point and frequency",
  SMOKE + "the tests never swap the bodies.", GENS[:4] + [DU, XU, TU],
  [("post-Newtonian coefficients in symmetric/antisymmetric spins", TF2 + " gen_TaylorF2"), ("effective spin combinations", DU + " get_coeffs"), ("tidal and spin-induced terms", NR + " get_spin_phase_correction")],
  ["gen_* single strain"], GVN + "between the strain continued to the opposite sign of the mass difference and the strain with the body parameters swapped.")
P("P08", "Amplitude and phase join smoothly at every internal transition frequency",
  "Along the frequency axis the strain of every piecewise model passes through its internal transitions with continuous value and first derivative until its final cutoff. A frequency that falls exactly on a transition takes the common limit.",
  "every piecewise model, every parameter point, every transition", SMOKE + "a broken connection coefficient gives a finite, plausible-looking waveform.",
  [D, DU, XAS, XU, P2, PU], [("phase connection coefficients", D + " Phase (C1/C2 coefficients)"), ("amplitude intermediate collocation", D + " Amp"), ("phase and amplitude connection", XAS + " Phase / Amp")],
  ["gen_*_hphc as function of frequency"], "Every comparison with the frequency in the lowered strain becomes a break point; break points are grouped by value number and value and derivative of the strain on both sides of each are value-numbered at the break point itself, along an order of the transitions that is searched for.")
P("P09", "Tidal corrections vanish with the tides; taper and gradient rules are exact",
  "With zero tidal parameters the tidal model without taper is the point-particle model it extends (up to the fitted octupole offset of three parts in a thousand). "
  "Its taper is one below the merger frequency, zero above 1.2 times it and antisymmetric about the middle in between, and every hand-written derivative rule in the package is the derivative of the function it belongs to.",
  "every parameter point and frequency, in both tidal parametrisations", SMOKE + "the tests never compare the tidal with the point-particle model or a gradient with a difference quotient.",
  [NR, TU, D], [("tidal phase and amplitude added to the point-particle ones", NR + " _gen_IMRPhenomD_NRTidalv2"), ("window", NR + " get_planck_taper"), ("custom derivative rule", NR + " get_planck_taper.defjvps")],
  ["gen_IMRPhenomD_NRTidalv2", "jax derivatives of the taper"], GVN + "between the tidal strain at vanishing tidal parameters and the point-particle strain, between strain and untapered strain around the taper's switches, and between declared and symbolic derivatives of every custom rule.")
P("P11", "Nothing beyond the cutoff, and no dependence on the rest of the grid below it",
  "Every inspiral-merger-ringdown model is exactly silent above its high-frequency cutoff, which lies at the model's fixed multiple of the inverse total mass or at the grid point selected by nearness to it, and is non-zero everywhere below. "
  "Below the cutoff the value at a frequency depends on that frequency alone and not on which other frequencies share the grid, whatever the grid's extent, order of magnitude or length.",
  "every model, every mass (so every position of the cutoff relative to the grid), every frequency grid", SMOKE + "they use one grid that always contains the cutoff's neighbourhood or always lies below it.",
  [D, NR, XAS, P2], [("cutoff selection on the grid", D + " Amp / _gen_IMRPhenomD (fcut_true)"), ("cutoff selection on the grid", NR + " gen_IMRPhenomD_NRTidalv2"), ("fixed cutoff", XAS + " Phase / Amp with fM_CUT")],
  ["gen_*_hphc on arbitrary grids"], "Break-point analysis of the lowered strain (zero beyond all switches, non-zero before), value numbering of the selected cutoff, sign analysis of grid indices, and value-number independence of the strain from every other grid entry.",
  over=("inputs", "configurations"))
P("P14", "The waveform registry serves exactly the named models",
  "The generator object returns, for each of its model names, exactly the polarizations of that model's own generator for the same arguments, whatever was requested before and from whichever object. Any other name raises a ValueError.",
  "every sequence of requests, every name, every parameter point", "no test touches the registry; a swapped entry, a stale cache or a silent fallback would go unnoticed.",
  [REG], [("name to generator table", REG + " FD_waveform_generator.__init__"), ("dispatch", REG + " FD_waveform_generator.generate_waveform")],
  ["generate_waveform"], "The class is interpreted abstractly from its source through several request histories; results are compared by value number with direct calls.", over=("inputs", "histories"))
P("P16", "Physical constants are consistent and match their reference values",
  "Every public constant equals its SI/IAU/CODATA reference value, and the derived ones (solar mass in seconds and metres, speed of light in Gpc/s, two pi) equal the combination of the others that their documentation states. No module uses a truncated private copy of one of them.",
  "every constant and every numeric literal of the package", "the tests never look at a constant, and a relative error of 1e-5 in one keeps every smoke test green.",
  [CONST], [("constants", CONST), ("users of literals", "src/ripplegw")], ["module attributes of ripplegw.constants"],
  "The lowered constant expressions are folded in 60-digit decimal arithmetic; all float literals of the source tree are enumerated.", over=("configurations",),
  note="Exact constant folding from the source; tolerance 1e-7, the agreement of the published values among each other.")
P("P17", "Noise curves interpolate their own table in band and are infinite outside",
  "Every tabulated detector noise curve is the linear interpolation of the power spectral density of its own data file (squared where the file holds amplitude densities), is infinite outside the tabulated band, and its published range is that of the file; the analytic initial-LIGO curve equals its published formula above 40 Hz and is infinite below. "
  "Inside the band the noise is positive and representable.",
  "every frequency and every curve", "no test evaluates a noise curve.", [NOISE],
  [("table loading", NOISE + " _load_noise"), ("analytic curve", NOISE + " Sn_LIGOI")], ["Sn_* callables, f_range_*"],
  "The callables are lowered to an interpolation node whose abscissae, ordinates and end values are checked structurally and by value number; the data files the source names are read as data and checked for order, sign and unit.")
P("P18", "Overlaps are normalised, symmetric and invariant as inner products must be",
  "The phase-maximised overlap and the match equal the noise-weighted inner product divided by the two norms (so they lie between 0 and 1, and are 1 for identical signals); they are symmetric, do not change when a strain or the noise is rescaled or a strain's phase rotated, and a time shift of one strain shifts the time argument. "
  "The variants taking callables equal those taking arrays, and the padding places the integrand at its own frequency bins.",
  "every pair of strains, noise curve, frequency grid, time offset and rescaling", "no test computes an overlap.", [INIT],
  [("inner product", INIT + " get_phase_maximized_inner_product_arr"), ("time maximisation", INIT + " get_match_arr"), ("padding", INIT + " get_eff_pads")],
  ["get_match*, get_phase_maximized_inner_product*, get_eff_pads"], GVN + "with sums over the grid modelled entry by entry and the inverse Fourier transform as a sum with unit-modulus weights.")
P("P19", "Samplers stay in their ranges, in order, and use the caller's key alone",
  "Each sampler returns the requested number of pairs, every number uniformly distributed between the bounds given for it and determined by the caller's random key alone; the ordered sampler returns the larger of its two draws first and nothing else changes.",
  "every key, range and number of samples", "no test draws a sample, and an order violation can be as rare as overlapping ranges make it.", [INIT],
  [("uniform draws", INIT + " get_M_eta_sampler"), ("ordering", INIT + " get_m1_m2_sampler")], ["samplers"],
  "The sampler closures are interpreted abstractly; each entry's value number is compared with lower + (upper - lower) * u for the uniform draw u it depends on.")
P("P23", "Neutron-star multipoles follow the universal relations in all regimes",
  "The quadrupole and octupole of a body with a given tidal deformability follow the published universal relations above deformability one and the published extension below, which joins with continuous value, slope and curvature and tends to the black-hole value one (within 0.4 percent for the octupole). "
  "The effective tidal coupling equals its definition, three sixteenths of the dominant tidal parameter.",
  "every tidal deformability and mass ratio", "the tests use one pair of deformabilities on one branch.", [TU],
  [("multipoles", TU + " get_quadparam_octparam"), ("coupling", TU + " get_kappa")], ["get_quadparam_octparam", "get_kappa"],
  GVN + "against the published fits on both branches; values and derivatives at the junction are folded exactly.")
P("P24", "The sine-Gaussian burst has its documented shape, phase and normalisation",
  "The burst polarizations equal a Gaussian-windowed cosine and sine with the given quality factor, frequency, phase and eccentricity, normalised so that the root-sum-square amplitude is the given one. "
  "Reversing time and phase leaves plus unchanged and flips cross, and advancing the phase by pi flips both.",
  "every time, quality factor, frequency, amplitude, phase and eccentricity", SMOKE + "the burst is evaluated at one point.", [SG],
  [("normalisation and envelope", SG + " gen_SineGaussian_hphc"), ("axes", SG + " semi_major_minor_from_e")], ["gen_SineGaussian_hphc"],
  GVN + "against the closed form whose time integral is the root-sum-square amplitude, and under time reversal, phase flips and changes of the time unit.")
P("P12", "Everything works under jit, vmap and grad; no gradient is cut or poisoned",
  "No public function lets Python control flow, an array shape, a host conversion or a host library call depend on a traced value (only the reference frequency is static), so all of them can be compiled, batched and differentiated. "
  "Every strain depends differentiably on each of its parameters, nothing cuts the derivative on the way, and no unselected branch turns the gradient into NaN.",
  "every parameter point, transformation and branch", "the tests trace a few functions at a few points; a branch that is NaN only when it is not selected shows up only for particular parameters.",
  GENS + [SG, INIT, NOISE], [("selection in ringdown amplitude", XAS + " get_mergerringdown_Amp"), ("selection of cutoffs", D + " fcut_true"), ("custom derivative", NR + " get_planck_taper")],
  ["all public functions under jax transformations"],
  "An effect system over the abstract interpretation records every use of a traced value that tracing forbids; the lowered value graph is searched for derivative cuts on value paths and for roots and logarithms that vanish on the boundary of the selection that hides them.",
  over=("inputs", "configurations"))
P("P20", "Public functions are pure: no input changed, no hidden state, double precision",
  "No public function changes its argument arrays, module state or the configuration of another library, reads clocks, files, environment or a hidden random state, or reduces precision; calling it again with the same arguments gives the same result whatever was called before. "
  "Importing the package leaves the global JAX configuration alone.",
  "every call history", "the tests never call a function twice nor look at their inputs afterwards.",
  GENS + [SG, INIT, NOISE], [("in-place arithmetic", NR + " get_tidal_amplitude"), ("module-level state", "src/ripplegw")],
  ["arguments after a call, repeated calls, import"],
  "An effect system over the abstract interpretation: stores are checked against the set of objects the caller owns and the set reachable from the imported modules; functions are lowered again after other calls and the value graphs compared.",
  over=("histories", "inputs"))
P("P10", "TaylorF2 is the published post-Newtonian closed form, tides included",
  "The TaylorF2 strain equals the stationary-phase Newtonian amplitude times the exponential of the published post-Newtonian phase: point-particle terms to 3.5PN with spin-orbit and spin-spin terms (including the bodies' spin-induced quadrupoles) and tidal terms to 7PN. "
  "This holds for individual and combined tidal parameters, with a reference frequency or without.",
  "every frequency, mass, spin, tide, orientation and reference frequency", SMOKE + "an error in one coefficient is invisible unless it changes the value of the tested point by more than its tolerance, and no test compares a value.",
  [TF2, TU], [("post-Newtonian coefficients", TF2 + " get_PNPhasing_F2"), ("amplitude prefactor", TF2 + " gen_TaylorF2"), ("multipoles", TU + " get_quadparam_octparam")],
  ["gen_TaylorF2_hphc"], GVN + "against the closed form, written from the literature in props/published.py.")
P("P13", "NRTidalv2 adds the published tidal phase, amplitude, spin terms and taper",
  "The tidal model equals the point-particle IMRPhenomD strain with the published NRTidalv2 tidal amplitude and phase and the spin-induced quadrupole and octupole phase terms added, times a Planck taper that begins at the published merger frequency. "
  "This holds for individual and combined tidal parameters; the option to omit the taper changes nothing else.",
  "every frequency, mass, spin, tide and orientation", SMOKE + "a wrong fit coefficient gives a plausible waveform.",
  [NR, TU, D, DU], [("tidal phase", NR + " get_tidal_phase"), ("tidal amplitude", NR + " get_tidal_amplitude"), ("spin-induced terms", NR + " get_spin_phase_correction"), ("merger frequency and taper", NR + " _get_merger_frequency / get_planck_taper")],
  ["gen_IMRPhenomD_NRTidalv2_hphc"], GVN + "against the stored IMRPhenomD reference extended by the published formulae, written from the literature in props/published.py.")
P("P15", "Precessing waveforms are covariant under rotation and have the aligned limit",
  "Rotating in-plane spins and observer by a common azimuth about the orbital axis multiplies both precessing polarizations by one phase, and reflecting the binary at its orbital plane leaves plus unchanged and flips cross. "
  "When the in-plane spins vanish, the ratio of the polarizations and the amplitude are those of the aligned-spin IMRPhenomD, and the phases differ by a linear function of frequency only.",
  "every frequency, mass, spin vector, orientation and reference phase, in both precessing entry points",
  SMOKE + "each law relates two different parameter points at every frequency.", [P2, PU, D, DU],
  [("Euler angles and twist", P2 + " PhenomPCoreTwistUp"), ("source-frame conversion", PU + " convert_spins"), ("underlying aligned model", PU + " phP_get_fRD_fdamp, " + P2 + " PhenomPOneFrequency")],
  ["gen_IMRPhenomPv2", "gen_IMRPhenomPv2_hphc"], GVN + "between the strain and the strain at rotated, reflected or aligned spins; the derivative of the phase difference is taken symbolically.")
P("P21", "Phenomenological waveforms are the published models in every region",
  "IMRPhenomD, IMRPhenomXAS and IMRPhenomPv2 produce, in every frequency region and at every parameter point, the strain of the published model: all fit coefficients, collocation points, ringdown tables, transition frequencies and normalisations as in the reference implementation.",
  "every frequency, mass, spin, orientation and reference frequency", SMOKE + "the many fit coefficients each matter somewhere in parameter space only, and no test compares a strain with a reference.",
  [D, DU, QNM, XAS, XU, P2, PU], [("fit coefficients", DU + " PhenomD_coeff_table, get_coeffs"), ("ringdown tables", QNM), ("fit coefficients", XU + " PhenomX_phase_coeff_table, PhenomX_amp_coeff_table"), ("precession angles", PU + " ComputeNNLOanglecoeffs")],
  ["gen_*_hphc"], "The reference is a stored value graph (reference/*.ir.gz) of each model, validated numerically against LALSuite over random parameter points and all regions (DESIGN.md); " + GVN + "between the strain and the reference.")

# --- properties outside the reach of static analysis
P("P25", "Strains agree with the reference implementation to rounding accuracy",
  "In double precision every strain agrees with the LALSuite implementation of the same model to the accuracy of floating-point arithmetic, at every parameter point and frequency. In single precision the mismatch stays far below the indistinguishability threshold.",
  "every model, parameter point, frequency and precision", "the accuracy at a few points says nothing about cancellation elsewhere.",
  GENS, [("order of floating-point operations", DU + " get_inspiral_phase"), ("phase with large constants", XAS + " Phase")],
  ["gen_*_hphc"], "",
  na="the rounding error of some hundred transcendental operations on runtime quantities; static error bounds (interval or affine arithmetic over the parameter space) of phases of 1e4 radians with cancelling "
     "coefficients are orders of magnitude above the real error, so they decide nothing. The real-number content (same expression as the reference) is P10, P13 and P21.")
P("P26", "Strains and gradients are finite over the whole physical parameter domain",
  "For every physical mass, spin, tidal deformability, orientation and frequency below the cutoff, the strain and its gradient are finite floating-point numbers. This includes equal masses, zero and extremal spins and spins exactly aligned in the precessing model.",
  "every parameter point including the edges of the domain", "edges such as vanishing in-plane spin or equal masses are rarely sampled exactly.",
  GENS, [("roots and inverse trigonometric functions of rounded quantities", PU + " convert_spins"), ("square root of 1 - 4 eta", DU + " get_coeffs")],
  ["gen_*_hphc", "jax.grad of gen_*_hphc"], "",
  na="whether a denominator, a root or an inverse cosine reaches the edge of its domain depends on rounded runtime values; a sound range analysis of the rational fits (denominators linear in the spins and mass ratio, "
     "Lorentzian widths) cannot separate them from zero without bounds that the fits do not state. The part that follows from the expressions (a hidden branch that turns every gradient into NaN) is decided by P12.")
P("P27", "Evaluation cost is one compilation per shape and linear in the grid",
  "A compiled waveform evaluates in time and memory linear in the number of frequencies, and calling it again with arrays of the same shape compiles nothing.",
  "every model, grid length and call history", "timing depends on the machine; the tests record none.",
  GENS + [REG], [("vectorised over the grid", P2 + " gen_IMRPhenomPv2")],
  ["jax.jit of gen_*_hphc"], "",
  na="running time and the compilation cache belong to XLA at run time, not to the source; that nothing in the source forces recompilation or a host round trip (static use of traced values) is decided by P12.", over=("inputs", "histories"))
