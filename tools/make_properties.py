"""Writes /verif/properties.jsonl (kept as a script because the lines are long)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=["popsynth/" + f for f in files],
                     mechanism=[dict(name=n, where="popsynth/" + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where="popsynth/" + w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "Parameter values respect bounds, fixing, defaults and ownership",
  "Assigning a value to a parameter of a distribution, sampler or selection stores exactly that value if it lies within the declared bounds (inclusive) and the parameter is not fixed, and otherwise raises an error and leaves the previous value in place. Reading a parameter that was never assigned gives its declared default, or raises an error if it has none. Assigning a parameter on one object never changes what any other object reports, and a class that declares more than one normalization parameter is rejected.",
  ["inputs", "histories"], "every double (including infinities and not-a-number) as value, bound and default; every sequence of assignments and reads on any number of objects",
  "The tests assign a few in-range values; rejection, boundary values, NaN, and isolation between two live objects of one class are not sampled systematically.",
  ["utils/meta.py", "distribution.py"], [("Parameter descriptor", "utils/meta.py"), ("ParameterMeta normalization count", "utils/meta.py")])
p("C02", "Threshold selections pick exactly the objects within their limits",
  "A lower-bound or hard flux selection selects exactly the objects whose chosen quantity (observed value, distance, luminosity or flux) is at least the boundary, an upper bound exactly those at most the boundary, a box or distance selection exactly those between both limits inclusive, and the unity selection every object. A galactic-plane selection selects exactly the objects whose galactic latitude is at least the limit away from the plane on either side. The selection has one entry per object and the quantities it was given are left unchanged.",
  ["inputs"], "every array of doubles (including infinities and not-a-number), every length including zero, every boundary value, every choice of quantity",
  "The tests use one or two boundaries on random arrays, so equality at the limit, not-a-number and empty arrays are never reached.",
  ["selection_probability/generic_selectors.py", "selection_probability/flux_selectors.py", "selection_probability/spatial_selection.py"],
  [("draw of LowerBound, UpperBound, BoxSelection, UnitySelection", "selection_probability/generic_selectors.py"), ("draw of GalacticPlaneSelection, DistanceSelection", "selection_probability/spatial_selection.py")])
p("C03", "Selections combine by conjunction and their bookkeeping agrees",
  "Adding two selections gives a selection of exactly the objects both of them select, and changes neither of them. The numbers of selected, non-selected and all objects and the two lists of positions always agree with the selection itself: the positions are in increasing order, without repetition, and together name every object once. A selection that has been made is not made again until it is reset, after a reset it is made afresh, and asking for a selection that was never made raises an error.",
  ["inputs", "histories"], "every pair of selections of every length, every sequence of select and reset calls",
  "The tests check one selection of a fixed size; algebraic and bookkeeping facts for all masks and call sequences are not reachable by samples.",
  ["selection_probability/selection_probability.py"], [("__add__, select, reset, n_selected, selection_index", "selection_probability/selection_probability.py")])
p("C04", "A survey selects exactly the objects that pass every attached selection",
  "An object of a drawn survey is selected if and only if it passes the flux selection applied to its observed flux, the selection of every auxiliary sampler including nested secondary samplers and derived luminosity samplers applied to its own values, and the spatial selection. Without any selection every object is selected. The numbers of detections and non-detections are the numbers of selected and unselected objects and add up to the size of the population.",
  ["inputs", "configurations"], "every set and nesting of attached samplers and selections, every drawn value, every population size",
  "The tests draw a handful of configurations and only look at sizes; a selection that is dropped, applied twice to other values, or combined by the wrong operation stays unnoticed.",
  ["population_synth.py", "auxiliary_sampler.py", "selection_probability/selection_probability.py"],
  [("draw_survey selection loop", "population_synth.py"), ("get_secondary_properties", "auxiliary_sampler.py")])
p("C05", "The quantities of a drawn survey belong to the same objects",
  "Luminosities, distances, angles, latent and observed fluxes, selection and all auxiliary values of a survey have one entry per object, in the same order: the latent flux of each object is the spatial distribution's transform of its own luminosity and distance, and its observed flux equals its latent flux unless a flux selection and a flux error are given, in which case the logarithms differ by normal scatter of that size. The known and unknown distances split the selected objects: every selected object is in exactly one of the two position lists, and each known distance is the distance of the object at its listed position among the selected objects. The selected, hidden and complete fluxes, distances, luminosities, numbers and parameters that a population reports under their various names are those of these objects. This holds for any number of selected or known objects including none.",
  ["inputs", "configurations"], "every population size, every spatial and luminosity distribution, every selection outcome including empty ones",
  "The tests compare lengths for a few seeds; order, pairing and the empty cases need all sizes and all selection outcomes.",
  ["population_synth.py", "population.py"], [("draw_survey", "population_synth.py"), ("Population.__init__", "population.py")])
p("C06", "Sub-populations keep exactly the chosen objects and their data",
  "The sub-population of the observed (or unobserved) objects contains exactly the selected (or unselected) objects of its parent in their original order, each with its own luminosity, distance, angles, latent and observed flux, probability and auxiliary values, and all of its objects count as detected. Its known distances are those of the parent that belong to its objects, at their positions within the sub-population. It carries the metadata of the parent, can be saved like any population, and the parent is left unchanged.",
  ["inputs"], "every population: any size, any selection mask, any known-distance subset, any auxiliary quantities",
  "The existing test only creates sub-populations of one survey and does not compare the data.",
  ["population.py", "simulated_variable.py"], [("to_sub_population", "population.py")])
p("C07", "Simulated variables keep observed and latent values aligned",
  "A simulated variable shows its observed values, keeps the latent ones alongside, and rejects latent values or selections of another length. Selecting, de-selecting, slicing, masking and element-wise arithmetic act on observed and latent values alike and independently, so that the result at each position is the operation applied to the observed values and its latent part the same operation applied to the latent values, also for in-place operations. Operands are left unchanged by operations that are not in-place.",
  ["inputs"], "every length, every mask and slice, every element-wise operation and operand order",
  "The tests apply a few operators to one pair of arrays; index expressions, in-place operations and mixed operands are sampled only once.",
  ["simulated_variable.py"], [("__new__, __array_ufunc__, __getitem__, selected", "simulated_variable.py")])
p("C08", "Saving and loading a population loses nothing",
  "A population written to a file, or added to a group of a file, and read back has the same luminosities, distances, angles, latent and observed fluxes, selection, known distances and their positions, probability, auxiliary values, parameters, model spaces, flux error, name, forms, seed, maximum distance, truth, graph (nodes and edges) and generating configuration. This holds whether or not it has a luminosity function, detections, known distances or auxiliary values. A population that was read back can be written again with the same result, and adding a group leaves the rest of the file unchanged.",
  ["inputs", "configurations"], "every population, both file and group storage, repeated storage",
  "The tests save one or two populations and compare some arrays; optional parts, empty arrays, strings and repeated storage are not covered.",
  ["population.py", "utils/hdf5_utils.py"], [("_writeto, _loadfrom", "population.py"), ("recursively_save/load_dict_contents", "utils/hdf5_utils.py")])
p("C09", "Nested dictionaries survive storage in HDF5 files",
  "A nested dictionary of numbers, strings, arrays, sub-dictionaries and lists of strings that is stored in an HDF5 file or group and loaded again has the same keys and values at every level, empty dictionaries included, where a list of strings comes back as the keys of a dictionary with empty values. The stored dictionary itself is not changed, and a value of an unsupported type raises an error. The fill and clean operations on graph dictionaries preserve every key and are inverse to each other.",
  ["inputs"], "every nesting depth, every number of keys, every value of the supported types",
  "The tests only store what one survey produces.",
  ["utils/hdf5_utils.py"], [("recursively_save_dict_contents_to_group", "utils/hdf5_utils.py"), ("fill_graph_dict, clean_graph_dict", "utils/hdf5_utils.py")])
p("C10", "A synth survives conversion to a dictionary or file and back",
  "Converting a population synth to a dictionary (or YAML file) and building a synth from it gives a synth of the same seed with the same spatial and luminosity distributions and parameter values, the same flux, distance and spatial selections, and the same auxiliary samplers with their types, parameters, observed flags, secondary relations at every level and selections, so that a second conversion gives the same dictionary. Building a synth never changes the dictionary it was given. Every numeric parameter of a configuration is applied to the object it is listed under and to no other.",
  ["inputs", "configurations"], "every synth assembled from the public distributions, samplers and selections with any parameter values and secondary nesting",
  "One YAML file and a few synths are tested; parameters of other classes, nesting and non-mutation are not.",
  ["population_synth.py", "auxiliary_sampler.py"], [("to_dict, from_dict, write_to, from_file", "population_synth.py"), ("get_secondary_objects", "auxiliary_sampler.py")])
p("C11", "A survey is determined by its seed and configuration",
  "Two synths with the same configuration and seed draw identical surveys, independent of what was drawn before in the process, and drawing twice from one synth gives identical surveys. The seed given to a synth is the one its surveys are drawn with and that they report.",
  ["inputs", "histories"], "every configuration of public distributions and samplers, every seed, every prior use of random numbers",
  "A test that compares two draws only covers its configuration and the generator state it happens to start from.",
  ["population_synth.py", "aux_samplers/plaw_aux_sampler.py"], [("np.random.seed in draw_survey", "population_synth.py"), ("all draws use the seeded generator", "distribution.py")])
p("C12", "Repeated surveys and cleaning leave no residue",
  "Drawing a survey forgets all values and selections of previous surveys, so that every survey of a synth consists of freshly drawn values for its own objects whatever was drawn before. A population that was drawn is a snapshot: later draws, parameter changes, added or removed samplers, or cleaning never change it. Cleaning a synth removes all auxiliary samplers, derived luminosities and flux, distance and spatial selections; if a reset is asked for, what was attached also forgets its values and selections.",
  ["histories"], "every sequence of draws (with any sizes), parameter changes, attachments and cleaning",
  "The tests draw at most one survey per synth configuration.",
  ["population_synth.py", "auxiliary_sampler.py"], [("_reset_samplers, clean", "population_synth.py"), ("reset", "auxiliary_sampler.py")])
p("C13", "Distances follow the distribution's density within the survey volume",
  "Drawing distances gives exactly the requested number of values between zero and the maximum distance, each accepted by rejection sampling with a probability proportional to the density per unit distance (objects per volume times differential volume divided by the time adjustment), with or without progress display and with or without normalization. The draw probability stored for each object is that density at its own distance with the normalization parameter set to one. All parameters have their previous values afterwards.",
  ["inputs", "configurations"], "every density, every number of objects including zero, both display modes, normalized or not",
  "Sampling tests check ranges for a few densities; the acceptance rule, the per-object density and the restored parameters are not compared.",
  ["distribution.py", "utils/rejection_sample.py"], [("draw_distance", "distribution.py"), ("rejection_sample", "utils/rejection_sample.py")])
p("C14", "Luminosity distributions sample and evaluate their stated law",
  "Each luminosity distribution draws the requested number of independent values following its stated law: Pareto, Schechter, log-normal, log10-normal, broken power law, log-uniform and delta, within the stated limits for all admissible parameters. Evaluating the distribution at a luminosity gives the matching normalized density, zero outside the limits, for every array it is given and without changing that array.",
  ["inputs"], "every admissible parameter value, every number of draws, every luminosity",
  "The tests draw with a few parameter sets and look at bounds only; the law itself and the density are not compared.",
  ["distributions/pareto_distribution.py", "distributions/schechter_distribution.py", "distributions/log_normal_distribution.py", "distributions/log10_normal_distribution.py", "distributions/bpl_distribution.py", "distributions/uniform_distribution.py", "distributions/delta_distribution.py"],
  [("draw_luminosity, phi", "distributions/pareto_distribution.py"), ("sample_bpl, bpl, integrate_pl", "distributions/bpl_distribution.py")])
p("C15", "Auxiliary samplers draw their stated law and measurement error",
  "Each auxiliary sampler draws the requested number of independent true values following its stated law: delta, normal, log-normal, log10-normal, truncated versions of these, Pareto, bounded power law, broken power law and viewing angle, always within the stated limits for all admissible parameters. If it is observed, its observed values are the true values plus normal measurement error of the stated size, independent for each object, and otherwise they equal the true values.",
  ["inputs"], "every admissible parameter value, every number of draws",
  "The tests draw with random parameters and compare bounds or nothing; laws and measurement errors are not compared.",
  ["aux_samplers/delta_aux_sampler.py", "aux_samplers/normal_aux_sampler.py", "aux_samplers/lognormal_aux_sampler.py", "aux_samplers/trunc_normal_aux_sampler.py", "aux_samplers/trunc_lognormal_aux_sampler.py", "aux_samplers/plaw_aux_sampler.py", "aux_samplers/viewing_angle_sampler.py"],
  [("true_sampler, observation_sampler", "aux_samplers/normal_aux_sampler.py"), ("_sample_power_law", "aux_samplers/plaw_aux_sampler.py")])
p("C16", "Auxiliary samplers are drawn once, after all they depend on",
  "When an auxiliary sampler is drawn, each of its secondary samplers at every level has been drawn before it for the same number of objects and sees the same distances, angles and luminosities; a sampler is drawn once per survey however many samplers depend on it. The survey holds true values, observed values and the parameter values (truth) of every sampler at every level; resetting a sampler resets all of its secondaries. A sampler that is a secondary, or whose name is already taken, or an object that is not a sampler, is refused as a primary sampler.",
  ["inputs", "configurations", "histories"], "every tree or shared arrangement of samplers, every sampling function, every number of objects",
  "The tests attach one or two samplers with at most one level of nesting.",
  ["auxiliary_sampler.py", "population_synth.py"], [("draw, reset, get_secondary_properties", "auxiliary_sampler.py"), ("add_observed_quantity", "population_synth.py")])
p("C17", "Cosmological distances and volumes match the flat Lambda-CDM model",
  "For every redshift up to 10 and matter densities between 0.2 and 0.5 the luminosity distance equals that of a flat universe with matter and a cosmological constant to within two percent of the distance for redshifts above 0.01, is zero at redshift zero and strictly increasing. The differential volume is the Hubble distance times the squared transverse distance over the expansion rate, the transverse distance being the luminosity distance divided by one plus redshift. Energy flux is luminosity over four pi luminosity distance squared in cgs units, and for transient events the rate is reduced by one plus redshift, but not for steady sources. The luminosity distances an auxiliary sampler sees are those of the distances it was given.",
  ["inputs"], "every redshift in [0, 10], every matter density in [0.2, 0.5], every positive Hubble constant and luminosity",
  "The tests do not compare distances with a reference at all.",
  ["utils/cosmology.py", "distributions/cosmological_distribution.py"], [("Cosmology", "utils/cosmology.py"), ("transform, time_adjustment", "distributions/cosmological_distribution.py")])
p("C18", "Expected counts follow from the spatial model",
  "The number of objects in a survey is Poisson distributed with a mean equal to the integral, from zero to the maximum distance, of density times differential volume divided by the time adjustment (if the survey is normalized, that integral divided by the one for a normalization parameter of one, which makes the mean equal to the normalization parameter), or is exactly the number requested. The densities of the spatial distributions are their stated functions: constant, power law in one plus distance, star-formation-like, uniform, and spiral galaxy, with differential volume four pi r squared for spherical ones and flux luminosity over four pi (r+1) squared. Drawing leaves the parameters as they were.",
  ["inputs", "configurations"], "every spatial distribution, parameter value and maximum distance; normalized or not",
  "The tests draw surveys but never compare the mean count or the density with the stated model.",
  ["population_synth.py", "distributions/spherical_distribution.py", "distributions/cosmological_distribution.py", "distributions/uniform_distribution.py", "distributions/flatland_distribution.py", "distributions/spiral_galaxy_distribution.py"],
  [("draw_survey integral", "population_synth.py"), ("dNdV, differential_volume, transform", "distributions/spherical_distribution.py")])
p("C19", "Sky positions are isotropic and consistently converted",
  "Sky positions are drawn independently and uniformly on the sphere: the cosine of the polar angle is uniform on [-1, 1] and the azimuth uniform on [0, 2 pi), one pair per object, and the standalone right ascension and declination samplers do the same in radians. The spiral galaxy distribution instead places each object on one of the four stated spiral arms, ahead of it by at most a full turn times exp(-0.35 r), scatters its distance by a relative normal error of seven percent, and reports one azimuth and one polar angle between 0 and pi per object. Declination is 90 degrees minus the polar angle and right ascension the azimuth, both in degrees, wherever they are reported. Conversion to Cartesian coordinates preserves the radius and gives z = r cos(theta), x = r sin(theta) cos(phi), y = r sin(theta) sin(phi).",
  ["inputs"], "every number of objects, every angle and radius",
  "One test checks array sizes; the law and the conversions are not compared.",
  ["utils/spherical_geometry.py", "aux_samplers/sky_sampler.py", "distribution.py", "population.py"], [("sample_theta_phi, xyz", "utils/spherical_geometry.py"), ("ra, dec", "distribution.py")])
p("C20", "Ready-made populations are built from the arguments they are given",
  "Each ready-made population (spherical, power-law spherical, power-law cosmological, star-formation-rate and Milky-Way spatial models combined with Pareto, Schechter, log-normal, log10-normal and broken power law luminosities) uses the spatial and luminosity distribution its name states, with every argument value stored as the parameter of the same name, the given seed and maximum distance, and the transient/steady flag passed to the spatial distribution. An argument that is left out has its default value.",
  ["inputs"], "every admissible argument value of every ready-made population",
  "The tests construct them with drawn values but do not compare the stored parameters; swapped or dropped arguments go unnoticed.",
  ["populations/__init__.py", "populations/bpl_population.py", "populations/lognormal_population.py", "populations/pareto_populations.py", "populations/schechter_populations.py", "populations/spatial_populations.py"],
  [("constructors", "populations/spatial_populations.py")])
p("C21", "Stan data describe exactly the selected objects",
  "The data exported for Stan contain the number of selected objects, their observed fluxes and distances in order, the decimal logarithm of those fluxes, the observed auxiliary values of exactly the selected objects, and the known distances with one-based positions of known and unknown distances that together cover 1..N once. Flux error, maximum distance and the model spaces are passed on unchanged. A model space runs from its start to its end value with the declared number of points, equally spaced in the logarithm unless linear spacing is asked for.",
  ["inputs"], "every population, every selection outcome, every model space",
  "One test calls the export without looking at the content.",
  ["population.py", "population_synth.py"], [("to_stan_data", "population.py"), ("add_model_space", "population_synth.py")])
p("C22", "Verbosity controls do what they say and can be undone",
  "Silencing suppresses all console and user-file log records below critical, activating the logs again restores the levels in force before, however often they were silenced, and loud, debug and level-setting modes set the stated levels. Quiet and loud modes switch progress bars off and on; silencing and re-activating warnings removes and restores exactly the warning records. The temporary console silencer restores the levels on every exit, including by an error, and no verbosity setting changes any drawn value's law or selection.",
  ["histories"], "every sequence of verbosity calls from every starting level",
  "One test calls the functions without checking levels.",
  ["utils/logging.py", "utils/progress_bar.py"], [("LoggingState", "utils/logging.py"), ("silence_console_log", "utils/logging.py")])
p("C23", "Auxiliary quantities of a population cannot be overwritten",
  "Every auxiliary quantity of a population is available under its own name as a simulated variable with the observed and latent values that were drawn and the survey's selection. Assigning to such a name raises an error and changes nothing, while other attributes can be assigned.",
  ["inputs", "configurations"], "every set of auxiliary quantities, every value assigned",
  "No test tries to overwrite an auxiliary quantity.",
  ["population.py"], [("__setattr__, __init__", "population.py")])
p("C24", "The graph of a population shows its generative structure",
  "The graph of a synth or population has a node for the spatial distribution, the observed flux, every attached sampler at every level and an extra node for the observed value of each observed sampler. There is an edge from the spatial distribution and from the luminosity distribution or derived luminosity sampler to the observed flux, from every secondary to each sampler that depends on it, from each observed sampler to its observed value, and from the spatial distribution to samplers using distances. The nodes of observed values are marked as observed, the others are not. It contains nothing that is not attached.",
  ["configurations", "histories"], "every nesting of samplers and every history of attaching and cleaning",
  "The tests build the graph for display only.",
  ["population_synth.py", "auxiliary_sampler.py"], [("_build_graph", "population_synth.py"), ("get_secondary_properties", "auxiliary_sampler.py")])
p("C25", "Random selections use exactly the stated detection probability",
  "A Bernoulli selection selects each object independently with exactly the given probability, never at probability zero and always at probability one, whether or not progress is displayed. A soft selection selects each object independently with the inverse-logit of the strength times the difference between the object's quantity and the boundary, in decimal logarithms if asked for (always for flux).",
  ["inputs"], "every probability, strength, boundary and array of quantities, both display modes",
  "Tests cannot settle a probability from single draws and only check array lengths.",
  ["selection_probability/generic_selectors.py", "selection_probability/flux_selectors.py"], [("draw of BernoulliSelection, SoftSelection", "selection_probability/generic_selectors.py")])

p("C26", "Plots of a population show its own data",
  "The plot of true fluxes shows every object at its distance and latent flux, the plot of observed fluxes every selected object at its distance and observed flux, and the combined plot both, with one vertical arrow per selected object, at its distance, from its true to its observed flux; nothing plotted lies below the lower end of the axis. The plot of luminosities shows selected and other objects at their own distances and luminosities in different colours, and the histograms count all and the selected distances between zero and the maximum distance. The sphere plots place the selected objects, the others, or both at their Cartesian positions, coloured by their fluxes. A population without detections is plotted without observed fluxes, and plotting changes nothing in the population.",
  ["inputs", "configurations"], "every population with at least one object (flux plots) or any number of objects, every selection, given or new axes, with and without arrows and distance transforms",
  "The tests only call the plotting functions and never look at what is plotted.",
  ["population.py", "utils/array_to_cmap.py"], [("display_*", "population.py")])

p("C27", "Descriptions show the current configuration",
  "The text form and what display() shows of a distribution, a sampler or a PopulationSynth hold its name or form and, for every parameter that has a value, the current value, also after it was changed; the text of a sampler tells whether it is observed and names its secondaries and parents; a PopulationSynth, with or without a luminosity distribution, shows its luminosity distribution or derived luminosity sampler with its secondaries, its spatial distribution and every other sampler, each once. The text form and display() of a population give its numbers of all, detected and undetected objects and the parameters and forms it was drawn with. Describing changes nothing.",
  ["inputs", "configurations"], "every public distribution and sampler with any values of its parameters; synths with each kind of luminosity and up to two samplers; every population of any size and selection",
  "The tests only call display() and print; they never look at what is shown.",
  ["distribution.py", "auxiliary_sampler.py", "population_synth.py", "population.py"], [("Distribution.display, __repr__", "distribution.py"), ("AuxiliarySampler.display, __repr__", "auxiliary_sampler.py"), ("PopulationSynth.display, __repr__", "population_synth.py"), ("Population.display, __repr__", "population.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
