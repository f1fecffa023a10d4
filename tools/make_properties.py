"""Source of /verif/properties.jsonl (run to regenerate the file)."""
import json, sys, pathlib

P = []
S = "src/pystrata/"

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    anchors = {"files": [S + f if not f.startswith("src") else f for f in files],
               "mechanism": [{"name": n, "where": S + w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    anchors["observe_at"] = observe or ["public API return values"]
    anchors["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors))

prop("C01", "Transfer functions equal the exact layered-medium shear-wave solution",
 "For a linear analysis of any horizontally layered profile over a half-space, the acceleration, strain and stress transfer functions between any two locations (any depth, any layer; outcrop, within or incoming-only fields) equal the exact one-dimensional visco-elastic shear-wave solution for the layers' velocities, densities, dampings and thicknesses, at every frequency (at zero frequency strain and stress are zero). The undamped stress uses the real shear modulus, the damped stress the complex one, and strain is per g of input acceleration.",
 ["inputs", "configurations"], "All profiles (1..n layers, velocity inversions, strong contrasts, zero to large damping), frequency grids, location pairs and wave fields.",
 "The tests compare a few fixed profiles with stored results; they never sample inversions, within-input, half-space-interior or zero-frequency cases.",
 ["propagation.py", "site.py"],
 [("wave amplitude recursion", "propagation.py:LinearElasticCalculator._calc_waves"), ("transfer functions", "propagation.py:LinearElasticCalculator.calc_accel_tf/calc_strain_tf/calc_stress_tf")])

prop("C02", "Wave fields obey superposition identities and layering invariance",
 "Within one analysis, the transfer function from a location to itself is one, transfer functions chain and invert (a->b times b->c equals a->c), the free-surface within and outcrop motions coincide and are twice the incoming wave, and shear strain at the free surface is zero. Within motion and shear stress are continuous across every layer interface, and results do not change when a layer is split into sub-layers of the same material, when the half-space is extended by an explicit layer of its own material, or when an irrelevant deeper location is queried first.",
 ["inputs", "configurations"], "All profiles, frequencies, triples of locations and layer subdivisions.",
 "The identities are universally quantified over profiles and locations; tests check none of them.",
 ["propagation.py"],
 [("wave amplitudes", "propagation.py:_calc_waves_python/_calc_waves_numba"), ("wave field selection", "propagation.py:wave_at_location")])

prop("C03", "Accelerated and portable computations agree, and the portable path works",
 "The package imports and works without the optional just-in-time compiler, and every quantity it computes (wave propagation results of linear, equivalent-linear and frequency-dependent analyses, and quarter-wavelength amplification) is the same, to rounding, whether or not the compiler is available.",
 ["configurations", "inputs"], "Both availability configurations; all profiles, motions, locations and calculators.",
 "Tests run only in the configuration that happens to be installed; the fallback configuration is never executed.",
 ["propagation.py"],
 [("numba dispatch", "propagation.py:HAS_NUMBA, *_dispatch, my_trapz")])

prop("C04", "Complex stiffness follows the selected damping model and conserves energy",
 "For each supported complex-modulus model and every damping value, the complex shear modulus and complex velocity of a layer follow that model's published formula with damping confined to physically admissible values, so they are always finite with non-negative loss. With zero damping the downward-propagating energy flux equals the upward one in every layer at every frequency, and with damping the surface-to-incoming ratio never violates the energy budget (net flux into any layer stack is never negative).",
 ["inputs", "configurations"], "All damping values (including zero, negative-clipped and above the limit), all moduli models, all profiles and frequencies.",
 "Tests use the default model with a handful of damping values and never look at energy.",
 ["site.py", "propagation.py"],
 [("complex modulus", "site.py:Layer.comp_shear_mod/comp_shear_vel"), ("model switch", "site.py:COMP_MODULUS_MODEL")])

prop("C05", "Equivalent-linear results are strain compatible",
 "When an equivalent-linear analysis returns, each layer above the half-space reports an effective strain equal to the effective-strain ratio times the peak of the mid-layer shear strain carried by the reported wave field (limited to the strain limit), a maximum strain equal to that peak, and a shear modulus and damping that are exactly that soil's curves evaluated at the reported effective strain (with the layer's own minimum damping). The half-space keeps finite properties of its own soil at the strain estimated from the peak velocity of the motion, and the reported transfer functions are those of the iteration that produced the strains.",
 ["inputs", "histories"], "All motions (time series and random-vibration), profiles mixing linear and nonlinear soils, strain ratios, tolerances and iteration counts.",
 "Tests compare a few end results with stored tables; the compatibility relation is never asserted for arbitrary profiles.",
 ["propagation.py", "site.py"],
 [("iteration", "propagation.py:EquivalentLinearCalculator.__call__"), ("property update", "site.py:Layer.strain setter")])

prop("C06", "Equivalent-linear iteration stops only when converged, capped or limited",
 "An equivalent-linear or frequency-dependent analysis that stops before its iteration cap has converged: another iteration would change no layer's modulus or damping by more than about the requested tolerance, whichever direction the properties were moving. It never exceeds its iteration cap, and when the motion persistently (in successive iterations) drives strains over the strain limit it raises an error instead of returning a result, while a motion that never reaches the limit, or only in iterations apart from each other, does not raise.",
 ["inputs", "histories"], "All motions, profiles, tolerances, iteration caps and strain limits, including softening, stiffening and oscillating iteration histories.",
 "Convergence direction and limit histories depend on the whole iteration sequence; tests only see default settings on converging cases.",
 ["propagation.py", "site.py"],
 [("relative error", "site.py:IterativeValue.relative_error"), ("stop conditions", "propagation.py:EquivalentLinearCalculator.__call__")])

prop("C07", "Nonlinear analyses reduce to linear analysis in their limits",
 "For profiles whose soils are all linear, equivalent-linear and frequency-dependent analyses give exactly the linear-elastic result; for nonlinear soils the result tends to the linear-elastic result with small-strain modulus and minimum damping as the motion becomes vanishingly small. Linear-elastic transfer functions do not depend on the motion's amplitude, and linear response scales in proportion to the motion.",
 ["inputs", "configurations"], "All profiles and motions; motion scale factors from 1e-8 to 10; every calculator and strain-spectrum method.",
 "Limit behaviour relates pairs of runs; no test runs two calculators on the same inputs and compares.",
 ["propagation.py"],
 [("calculators", "propagation.py:EquivalentLinearCalculator, FrequencyDependentEqlCalculator")])

prop("C08", "Frequency-dependent analyses use the documented strain spectra",
 "In a frequency-dependent equivalent-linear analysis, each layer's strain spectrum is the effective strain times the normalised shape documented for the chosen method (Kausel-Assimaki smooth shape, scaled strain Fourier spectrum, or Konno-Omachi smoothed running maximum), never exceeding the effective strain. Shear modulus and damping at each frequency are the soil's curves at that frequency's strain, and the reported transfer functions use the frequency's own properties.",
 ["inputs", "configurations"], "All methods, bandwidths, motions, profiles and strain ratios.",
 "Tests compare one stored case per method.",
 ["propagation.py"],
 [("strain spectrum", "propagation.py:FrequencyDependentEqlCalculator._calc_strain")])

prop("C09", "Results depend only on the inputs of a run, not on what ran before",
 "Running any sequence of analyses with shared calculators, profiles, soil types and motions gives, for each run, the same result up to rounding as running it alone with fresh objects; results obtained earlier do not change later. An analysis never modifies the motion, the soil types or curves, the profile's layering, small-strain velocities or minimum dampings, and concurrent analyses on separate profiles do not influence each other.",
 ["histories", "schedules"], "All sequences and thread interleavings of analyses over shared calculators, motions and soil types.",
 "Tests run each calculator once on fresh objects; contamination needs particular sequences or interleavings.",
 ["propagation.py", "site.py", "motion.py"],
 [("layer reset", "propagation.py:AbstractCalculator.__call__"), ("iterative state", "site.py:Layer.reset")])

prop("C10", "Quarter-wavelength amplification follows the impedance average definition",
 "The quarter-wavelength crustal amplification at each frequency is the ratio of source impedance to the depth-averaged impedance over the quarter-wavelength depth, raised to one half (or to the published frequency-dependent exponent when that method is chosen), with depths extending into the half-space when needed and averages taken as travel-time and thickness weighted means. The site term multiplies it by exponential site attenuation when one is given, a uniform profile gives unit amplification, and splitting layers changes nothing.",
 ["inputs", "configurations"], "All profiles, frequency sets, exponent methods and site attenuations.",
 "Tests compare one profile against one published table.",
 ["propagation.py"],
 [("QWL", "propagation.py:QuarterWaveLenCalculator._calc_amp"), ("depth average", "propagation.py:my_trapz")])

prop("C11", "Quarter-wavelength fitting returns a consistent, improved, bounded model",
 "Fitting a profile to a target never leaves the calculator worse than where it started by its own objective, keeps velocities, thicknesses and site attenuation within the documented bounds, keeps the source velocity fixed unless asked otherwise, leaves the caller's profile untouched, returns the fitted profile it documents, and leaves the reported amplification and site term consistent with the reported profile and site attenuation.",
 ["inputs", "configurations"], "All targets, starting profiles and combinations of adjust options.",
 "One test fits one target and checks closeness only.",
 ["propagation.py"],
 [("fit", "propagation.py:QuarterWaveLenCalculator.fit")])

prop("C12", "Profile depths and stresses stay consistent under any edit history",
 "After any sequence of building, appending, inserting or changing layer thickness, each layer's top depth is the sum of the thicknesses above it, and its mid and base depths and total vertical stress follow from those thicknesses and unit weights. Effective stress subtracts hydrostatic pore pressure below the water table only, mean stress follows from the at-rest coefficient, and layers that happen to have equal properties are still distinct layers.",
 ["histories", "inputs"], "All edit sequences, including repeated and value-equal layers and any water table.",
 "Tests build profiles once; the bookkeeping must hold after every history of edits and for duplicate layers.",
 ["site.py"],
 [("update", "site.py:Profile.update_layers"), ("edit operations", "site.py:Profile.append/insert, Layer.thickness")],
 [("layer depth and stress", "cached per-layer values that must track the layering", "site.py:Layer._depth/_stress_vert")])

prop("C13", "A location always refers to the requested depth or layer",
 "A location requested by depth lies in the unique layer whose interval [top, base) contains that depth (the half-space for anything deeper) at the right offset, and a location requested by layer number, positive or negative, refers to exactly that layer at its top, even when other layers have identical properties. The location carries the requested wave field, and asking with neither or both selectors is refused.",
 ["inputs", "histories"], "All profiles (duplicate layers included), depths (interfaces, surface, beyond the base) and indices.",
 "Tests look up a couple of depths in one profile without duplicate layers.",
 ["site.py", "output.py"],
 [("lookup", "site.py:Profile.lookup_depth/location"), ("output location", "output.py:OutputLocation")])

prop("C14", "Velocity, travel-time and attenuation summaries equal their definitions",
 "Time-averaged velocity to any depth, the 30 m time-averaged velocity, travel times, slowness and site attenuation equal their definitions from the layer thicknesses, velocities and dampings, with material below the last layer being the half-space; the 30 m velocity always equals the small-strain time average to 30 m, for profiles shallower or deeper than 30 m. They are unchanged by splitting layers, and for a uniform profile they equal the velocity itself. The simplified Rayleigh velocity is four times the thickness over the period of the simplified Rayleigh procedure.",
 ["inputs"], "All profiles including shallow ones and depths at, between and beyond interfaces.",
 "Tests check one profile deeper than 30 m.",
 ["site.py"],
 [("summaries", "site.py:Profile.time_average_vel/vs30/site_attenuation, Layer.travel_time/incr_site_atten")])

prop("C15", "Copying and discretizing a profile preserve its physics and isolate it",
 "A copied or automatically discretized profile has the same small-strain velocity, density, minimum damping, soil type, total stress and travel time at every depth as its source, whatever analyses the source went through, and gives the same linear transfer function. Discretized nonlinear layers (or all layers on request) are split into equal sub-layers no thicker than the requested fraction of the wavelength, with no more of them than needed, and later edits or analyses of either profile do not affect the other.",
 ["histories", "inputs"], "All profiles and prior analysis histories; all maximum frequencies and wave fractions.",
 "Tests only copy freshly built profiles and never analyse before copying.",
 ["site.py"],
 [("copy", "site.py:Layer.copy/Profile.copy"), ("discretize", "site.py:Profile.auto_discretize")])

prop("C16", "Profiles convert from and to tables without loss",
 "A profile created from a table has one layer per row in order with that row's thickness, velocity, unit weight, damping and name, and the table exported from a profile lists one row per layer in order with its soil name, unit weight, soil damping, thickness, current velocity (small-strain unless a nonlinear analysis was run) and top depth. Exporting a linear profile and importing the result reproduces the same profile.",
 ["inputs", "histories"], "All tables (any index, extra columns, integer or float types) and profiles, before or after analyses.",
 "No test performs a round trip.",
 ["site.py"],
 [("tables", "site.py:Profile.from_dataframe/to_dataframe")])

prop("C17", "Nonlinear curves interpolate log-linearly and never leave their limits",
 "A modulus-reduction or damping curve evaluated at any strain equals linear interpolation of its points in the logarithm of strain, takes the end values outside the strain range, is confined to its limits, and gives the same value for a strain whether evaluated alone or inside an array. Updating the points of a curve takes effect immediately, and evaluation at zero or tiny strain is finite.",
 ["inputs", "histories"], "All curves (point counts, spacings, monotone or not), strains from zero to far above range, scalars and arrays, and point updates.",
 "Tests evaluate a few strains on a few curves.",
 ["site.py"],
 [("interpolation", "site.py:NonlinearCurve.__call__/_update")])

prop("C18", "Layer state follows its soil at the imposed strain and resets completely",
 "Imposing a strain (scalar or per-frequency) on a layer sets its modulus to the small-strain modulus times the modulus reduction at that strain and its damping to the soil damping at that strain shifted so that the small-strain value equals the layer's own minimum damping; linear soils keep constant properties. Resetting, or changing the small-strain velocity or minimum damping, restores exactly the initial state, and derived stresses, velocities and adjusted damping curves agree with these values.",
 ["histories", "inputs"], "All soil kinds, layer minimum dampings, strain sequences and resets.",
 "Tests update a layer once with one strain.",
 ["site.py"],
 [("strain setter", "site.py:Layer.strain/_compute_damping"), ("reset", "site.py:Layer.reset, initial_shear_vel, damping_min setters")])

prop("C19", "Empirical soil models reproduce their published equations",
 "For every parameter combination, the Darendeli, Menq, two-parameter hyperbolic, Wang and Stokoe, Alemu, Rollins and Kishida soil models give the modulus reduction, damping, minimum damping (and stiffness or unit weight where modelled) of their published equations at every strain, in the documented units. Modulus reduction stays in (0, 1] and does not increase with strain, damping stays positive, an explicitly given minimum damping is honoured, and an explicitly given name is kept.",
 ["inputs", "configurations"], "All soil groups, model levels, index properties, stresses and strain arrays inside the models' ranges.",
 "Tests pin a few parameter combinations.",
 ["site.py"],
 [("models", "site.py:*SoilType")])

prop("C20", "Soil identity is by value and consistent",
 "Two soil types (or two layers) of the same kind with the same properties and the same curve objects compare equal and then have equal hashes, hashes stay the same over an object's analyses, and objects with differing names, unit weights, curves, thicknesses or velocities compare unequal. Iterating over the soil types of a profile yields each distinct soil type exactly once, in order of first appearance.",
 ["inputs", "histories"], "All soil kinds, copies, duplicates and analysis histories.",
 "One test iterates over two soil types; hashing is never exercised.",
 ["site.py"],
 [("identity", "site.py:SoilType.__eq__/__hash__, Layer.__eq__/__hash__"), ("iteration", "site.py:Profile.iter_soil_types")])

prop("C21", "Every published curve loads faithfully and is physically admissible",
 "Every published model is listed, can be loaded for each quantity it provides (modulus reduction, damping, or both), reproduces exactly the points published in the shipped database, and can be combined with any damping model into a soil type, whichever entry point is used first. Strains are positive and increasing, modulus reduction lies in (0, 1] and damping in (0, 0.5), changing a loaded curve does not affect later loads, and unknown names or quantities a model does not provide are refused.",
 ["inputs"], "Every model in the shipped database and every pair of modulus and damping models.",
 "Tests load one or two of the models.",
 ["site.py", "data/published_curves.toml"],
 [("database", "site.py:_load_published_curves, NonlinearCurve.from_published")])

prop("C22", "Time series and Fourier spectrum are an exact transform pair",
 "A time-series motion's frequencies and Fourier amplitudes describe the recorded acceleration: frequencies match the amplitudes one to one and run from zero to at most the Nyquist frequency, amplitudes are the discrete Fourier transform times the time step, energy is conserved, and the inverse transform returns the recorded samples followed only by zeros. This holds for every record length and every explicitly requested transform length (even or odd), and applying a transfer function multiplies the spectrum (constant gain, delay, derivative all behave accordingly).",
 ["inputs", "configurations"], "All records, sample counts, time steps and transform lengths.",
 "Tests use a couple of records with power-of-two lengths.",
 ["motion.py"],
 [("transform", "motion.py:TimeSeriesMotion._calc_fourier_spectrum/calc_time_series/fourier_amps")])

prop("C23", "Ground-motion intensity measures equal their definitions and scale correctly",
 "Peak acceleration, Arias intensity and cumulative absolute velocity equal their time-domain definitions, and peak velocity the peak of the zero-mean spectral integration of the record, in the documented units. They scale with amplitude (linearly, and quadratically for Arias), are unaffected by polarity or by what was queried before, and (but for the peak velocity of a record with net velocity or displacement) by trailing zeros; applying a transfer function equals measuring the filtered record.",
 ["inputs", "histories"], "All records, scale factors, transfer functions and query orders.",
 "Tests check one recorded motion.",
 ["motion.py"],
 [("measures", "motion.py:TimeSeriesMotion.calc_pga/calc_pgv/calc_arias_intensity/calc_cav/calc_peak")])

prop("C24", "Response spectra equal the damped oscillator's response",
 "The pseudo-spectral acceleration at each oscillator frequency and damping is the peak of the damped single-degree-of-freedom pseudo-acceleration response to the (filtered) record, one value per requested frequency in order. It tends to the peak acceleration for very stiff oscillators, scales linearly with the motion, decreases with damping at steady resonance, and agrees with an independent time-domain integration of well-sampled records followed by quiet time.",
 ["inputs", "configurations"], "All records, oscillator frequencies, dampings and transfer functions.",
 "One test compares one stored spectrum.",
 ["motion.py"],
 [("oscillator", "motion.py:TimeSeriesMotion.calc_osc_accels/_calc_sdof_tf")])

prop("C25", "Recorded-motion files load exactly",
 "Loading an AT2 or SMC file returns exactly the samples, time step and description written in the file, times the requested scale, whatever the number of values per line, header comments or partial last line; an SMC file that is not a corrected accelerogram is refused.",
 ["inputs"], "All well-formed files: sample counts, values per line, comment counts, number formats, scale factors.",
 "Tests load one file of each format.",
 ["motion.py", "tools.py"],
 [("loaders", "motion.py:TimeSeriesMotion.load_at2_file/load_smc_file"), ("fixed width", "tools.py:parse_fixed_width")])

prop("C26", "Random-vibration motions work wherever time-series motions do",
 "A random-vibration motion (user spectrum, response-spectrum compatible, or source theory) offers peak acceleration and velocity in the documented units, and peaks, oscillator responses and filtered peaks that equal the random-vibration estimate for its spectrum and duration and scale linearly with the spectrum. Every calculator and every output that does not need a time history accepts it, with the same strain-compatibility guarantees as for time series.",
 ["inputs", "configurations"], "All three motion kinds, peak calculators, spectra, durations and calculators.",
 "Tests only construct these motions and evaluate one spectrum; no stable test runs a nonlinear analysis with one.",
 ["motion.py", "propagation.py"],
 [("RVT motions", "motion.py:RvtMotion/CompatibleRvtMotion/SourceTheoryRvtMotion")])

prop("C27", "Each output records exactly the quantity it names",
 "After an analysis, every output type (acceleration, strain, stress and Arias time series; Fourier and response spectra; transfer functions and spectral ratios; strain, damping, modulus-reduction, velocity, stress-ratio and acceleration profiles) holds the values obtained by applying its definition to that analysis at its locations, in the documented units, on reference values (times, frequencies or depths) that match the values one to one. In frequency-dependent analyses a profile of modulus, velocity or damping gives the most degraded value of each layer.",
 ["inputs", "configurations"], "All output types, locations, wave fields, options (smoothing, percent, damped, normalised, complex) and calculators.",
 "Tests check a few outputs on one analysis.",
 ["output.py"],
 [("outputs", "output.py:*Output, *Profile")])

prop("C28", "Collected outputs stay aligned with their runs over any history",
 "After any sequence of recorded runs, resets and failed recordings, an output holds exactly one column and one name per successful run since the last reset, in order, with earlier columns unchanged, shorter results padded with missing values only at the end, and default names numbered by position. Iterating yields each run's own reference and values, resetting leaves a reusable empty output with its fixed references, and every member of a collection records every run.",
 ["histories", "fault_sequences"], "All sequences of runs with differing layer counts and lengths, names, resets and failing runs.",
 "Tests append two results at most and never inject failures.",
 ["output.py"],
 [("accumulation", "output.py:append_arrays, Output._add_refs/_add_values/reset/iter_results")],
 [("names/refs/values", "parallel accumulators of an output", "output.py:Output._names/_refs/_values")])

prop("C29", "Output statistics and tables summarise the recorded runs",
 "The median and logarithmic standard deviation reported by an output are the exponential of the mean and the standard deviation of the logarithms across recorded runs at each reference, ignoring missing values, and depth profiles are compared at common depths by their stepwise layer value. Tables exported from an output hold the recorded values with the run names as columns and references as index, and statistics do not alter the recorded data or depend on the order of runs.",
 ["inputs", "histories"], "All run counts (including a single run), profile layerings, custom references and tuple names.",
 "Tests call statistics on one small ensemble for shape only.",
 ["output.py"],
 [("statistics", "output.py:Output.calc_stats/to_dataframe, ProfileBasedOutput.calc_stats/to_dataframe/_ln_interp")])

prop("C30", "Randomised layering conserves depth and takes properties from the seed",
 "A profile with randomised layer thicknesses has positive thicknesses adding up to the seed's depth to bedrock, layer properties (soil type, small-strain velocity, minimum damping) equal to the seed's at the new layer's mid-depth, an unchanged half-space and water table, and layer counts following the model's depth-dependent layering rate. A varied half-space depth gives a profile whose depth to bedrock equals the sampled depth, whose properties above are the seed's (the last layer continuing below, in sub-layers no thicker than the original), and a non-physical sampled depth is refused.",
 ["inputs", "histories"], "All seed profiles, model parameters, random states and depth distributions.",
 "Tests compare one sample mean and one varied depth.",
 ["variation.py"],
 [("thickness", "variation.py:ToroThicknessVariation"), ("half-space depth", "variation.py:HalfSpaceDepthVariation")])

prop("C31", "Randomised velocities follow the stated model and bounds",
 "Randomised shear-wave velocities stay within the truncation limit of the model about the seed velocity in logarithmic space, are centred on it with the model's (depth- or soil-dependent) standard deviation (before the limit is applied), and have adjacent-layer correlations given by the model's published correlation function. The half-space changes only when asked to, everything except velocity is unchanged, and site-class parameters are the published ones for the class containing the 30 m velocity.",
 ["inputs"], "All profiles, model parameters, site classes and random states.",
 "Tests check one correlation array and one standard deviation.",
 ["variation.py"],
 [("velocity", "variation.py:VelocityVariation/ToroVelocityVariation/DepthDependToroVelVariation")])

prop("C32", "Randomised soil curves follow the stated model, limits and percentiles",
 "Randomised modulus-reduction and damping values equal the seed curve moved by the model's standard deviation times one pair of correlated truncated normal numbers, clipped to the configured limits, keeping the strains and every other property of the soil. In fixed-percentile mode the same percentile always gives the same curve, curves are ordered with percentile, and invalid modes, percentiles or missing sample numbers are refused; the nominal soil is never modified.",
 ["inputs", "configurations"], "All soils (nonlinear and linear), correlations, limits, percentiles and random states.",
 "Tests compare one realisation per model.",
 ["variation.py"],
 [("soil variation", "variation.py:SoilTypeVariation/DarendeliVariation/SpidVariation"), ("random numbers", "variation.py:TruncatedNorm")])

prop("C33", "A stream of randomised profiles is complete, reproducible and isolated",
 "Iterating over randomised profiles yields exactly the requested number, the same sequence for the same random seed, each built from the unmodified seed profile whatever analyses were run on it or on earlier realisations, and never changes the seed profile. Layers that share a soil type share its randomised version within a realisation, the bedrock stays as in the seed unless variation was requested, and fixed-percentile counts cycle in order and are validated.",
 ["histories", "configurations"], "All combinations of variation models, counts, seeds and analyses interleaved with iteration.",
 "Tests iterate once over a few realisations without interleaved analyses.",
 ["variation.py", "site.py"],
 [("iteration", "variation.py:iter_varied_profiles"), ("profile soil variation", "variation.py:SoilTypeVariation.vary_profile")])

prop("C34", "A logic tree enumerates exactly its valid branches with the right weights",
 "Iterating a logic tree yields each combination of alternatives (one per node, non-zero weight) that satisfies every requirement and exclusion exactly once, and no other, identified by its values and in node order. Each branch's weight is the product of its alternatives' weights, so weights of an unconditional tree with distinct values (or one whose conditional alternatives partition each case) total the product of the nodes' weight sums.",
 ["inputs"], "All trees: node counts, value kinds (text, numbers, lists), zero weights, requirements and exclusions, repeated values with different conditions.",
 "Tests enumerate two small trees.",
 ["logic_tree.py"],
 [("enumeration", "logic_tree.py:LogicTree.__iter__/is_valid, Realization.is_valid, Branch.weight")])

prop("C35", "Logic trees load faithfully and are queried consistently",
 "A logic tree loaded from a list, JSON file or compressed JSON file has the nodes, alternatives, weights, conditions and parameters written there, and enumerates the same branches as the same tree built in code. Nodes and alternatives can be looked up by name and value, branches expose each node's value and parameters, alternatives export to labelled arrays, and the built-in discrete approximations of a probability distribution have symmetric fractions, weights summing to one, the published values, and the mean and (within 7 %, improving with the number of branches) the variance of the distribution.",
 ["inputs"], "All serialisable trees, lookups with present and absent names and values of any kind, and all branch counts of the built-in approximation.",
 "Tests load two files and check two approximations.",
 ["logic_tree.py"],
 [("loading", "logic_tree.py:LogicTree.from_json/from_list, Node.from_dict"), ("lookups", "logic_tree.py:Node.by_value, LogicTree.__getitem__, Node.to_xarray, Node.from_miller_rice")])

prop("C36", "Damping adjustment meets the target site attenuation",
 "Adjusting minimum damping to a target makes the profile's total site attenuation plus the reported scattering attenuation equal the target, whatever layers are excluded by pattern, list or predicate. Excluded layers keep their damping, adjusted layers get damping inversely proportional to velocity, nothing else changes, the input profile is modified only when in-place was requested, and unreachable targets or empty selections are refused without altering the input.",
 ["inputs", "configurations"], "All profiles, targets, exclusion forms and in-place settings; also after a nonlinear analysis of the input.",
 "Tests adjust one profile without exclusions.",
 ["tools.py"],
 [("adjustment", "tools.py:adjust_damping_values/calc_atten_scatter")])

prop("C37", "Generic and regional profiles preserve the source model",
 "Mean effective stresses computed from depths and unit weights agree with those of the equivalent profile; a regional crustal-model file loads with its depths, velocities, unit weights and water table, and simplification keeps total thickness, travel time and overburden weight above the half-space (and what is merged with it), merges only layers within the tolerance of their group's first layer, and never merges across larger jumps. The generic velocity model gives its published median and deviation for both documented regions at scalar or array depths and warns outside its range.",
 ["inputs"], "All depth grids, velocity profiles, tolerances, water tables, file encodings, regions and velocities.",
 "Tests use one fixed file.",
 ["generic.py", "tools.py"],
 [("loading", "generic.py:load_ncm_profile/_simplify_profile"), ("generic", "generic.py:kea16_profile"), ("stress", "tools.py:calc_mean_eff_stress")])

prop("C38", "Text inputs of other programs parse exactly",
 "Fixed-width and separated text parsing returns every field at its declared width, type and order across line breaks, and an nrattle control file converts to a profile with one layer per record plus the half-space, in metres, metres per second, kilonewtons per cubic metre and damping equal to half the reciprocal of the quality factor. Comment lines never alter the result.",
 ["inputs"], "All field layouts, line splits, comments, layer counts and quality factors (given as Q or 1/Q).",
 "Tests parse one file.",
 ["tools.py"],
 [("parsers", "tools.py:parse_fixed_width/split_line/to_float/to_str"), ("nrattle", "tools.py:read_nrattle_ctl/profile_from_nrattle_ctl")])

prop("C39", "Plots show exactly the recorded results and the layers",
 "Plotting an output draws each recorded result as one line with its own reference, values and name (for results along the profile with depth downwards and each layer's value over that layer's depths), and a statistical plot adds the median of the computed statistics and refuses ensembles of two. Plotting a profile shows each layer's property over exactly that layer's depth range with all layers in view, and plotting the evolution of the amplification shows the transfer function or the response-spectral ratio, for the requested oscillator damping, wave field and normalization, at every requested frequency and depth. A plot is drawn into the axes it is given and changes no result.",
 ["inputs", "histories", "configurations"], "All kinds of outputs, numbers of runs, profiles at rest or strained, depths, frequencies and options.",
 "No test looks at what is drawn; the example notebooks only check that plotting does not fail.",
 ["output.py", "site.py"],
 [("output plots", "output.py:Output.plot, ProfileBasedOutput.plot"), ("profile plots", "site.py:Profile.plot"), ("amplification plots", "output.py:plot_amplification_evolv")])

prop("C40", "Frequency-dependent soils behave at each frequency as the soil of that frequency",
 "A curve with one column of values per frequency (as the Darendeli soil builds for several excitation frequencies) evaluates, for a strain shared by all frequencies or a strain for each, to the ordinary curve of that frequency; a layer of such a soil reports at every frequency the modulus, velocity, damping and stress of the layer with the ordinary soil of that frequency; and linear, equivalent-linear and frequency-dependent analyses, copies and discretizations of such profiles follow the wave equation with each frequency's own properties. A soil whose columns are all alike gives the results of the ordinary soil.",
 ["inputs", "configurations"], "All frequency grids, curves, mixtures with ordinary soils, layer minimum damping, motions and calculators.",
 "Tests build one such soil and only look at its size.",
 ["site.py", "propagation.py"],
 [("curves", "site.py:NonlinearCurve.__call__"), ("layers", "site.py:Layer.damping/shear_mod/damping_min"), ("soils", "site.py:DarendeliSoilType._calc_damping"), ("waves", "propagation.py:LinearElasticCalculator, FrequencyDependentEqlCalculator")])

if __name__ == "__main__":
    out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
    out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
    print(len(P))
