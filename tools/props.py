COMMON = ("Exhaustive for the design inside the stated constants; for the code it is as strong as "
          "the executed behaviours, each judged completely by TLC. Trusts TLC and the driver.")
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, observe, note=COMMON, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                      files=files, mech=mech, observe=observe, note=note, **kw))


P("W01", "Deduced workflow: exactly the needed plugins, once, providers before users",
  "For any set of registered plugins and any requested data names, the deduced workflow contains "
  "exactly the plugins that are transitively needed to provide the request (plus the efficiency "
  "unless it is suppressed), each exactly once, and every plugin after all providers of what it "
  "depends on. When several plugins were registered for a data name the one registered last "
  "provides it. A request that needs a data name nobody provides is refused with a ValueError.",
  ["programs", "inputs"],
  "all acyclic plugin graphs with any registration order, multi-output plugins, overridden "
  "providers and requests",
  "the tests only deduce the shipped components with two or three data names",
  ["appletree/component.py"],
  [("recursive deduction", "ComponentSim.dependencies_deduce"),
   ("deduplication in reverse order", "ComponentSim.dependencies_simplify")],
  ["worksheet of a component after deduce"])

P("W02", "Compiled simulation computes the registered plugins on the right data",
  "The compiled simulation returns, for each requested data name in the requested order (the "
  "efficiency last), exactly the value obtained by calling the plugin registered last for that "
  "name on the outputs of the registered providers of its dependencies. A plugin whose output was "
  "overridden never supplies that output to anybody, and the parameters a workflow declares as "
  "needed are exactly those of the plugins it contains. Repeating the simulation concatenates the "
  "events of the repetitions, and filtering by efficiency keeps exactly the events with positive "
  "efficiency of every output.",
  ["programs", "inputs"],
  "all acyclic plugin graphs, requests, batch sizes, parameters and repetitions",
  "the tests simulate the shipped components and only look at shapes",
  ["appletree/component.py", "appletree/plugin.py"],
  [("code generation", "ComponentSim.flush_source_code"),
   ("argument binding", "Plugin.__call__"),
   ("repetition", "Component.multiple_simulations")],
  ["return value of simulate / multiple_simulations", "needed_parameters"])

P("W03", "The random key threads through every plugin, component and repetition",
  "A simulation is a pure function of the random key: the key goes through the plugins of a "
  "workflow one after the other in execution order, through the simulated components of a "
  "likelihood in registration order and through repetitions, so that no two of them ever draw "
  "from the same key, fixed components do not consume it, and the key that is returned is the one "
  "left by the last of them. The same key and parameters give bit-identical results and passing "
  "on the returned key gives new events.",
  ["programs", "inputs", "histories"],
  "all plugin graphs, component lists, keys and call sequences",
  "tests never inspect keys; reuse of a key is invisible in shapes",
  ["appletree/component.py", "appletree/likelihood.py", "appletree/plugin.py"],
  [("key as first output of each plugin", "ComponentSim.flush_source_code"),
   ("key through components", "Likelihood._simulate_model_hist, simulate_weighted_data")],
  ["key returned by simulate, multiple_simulations, get_log_likelihood, simulate_weighted_data"])

P("W04", "Compiled components are isolated from one another and from later actions",
  "Deducing a component is refused with a RuntimeError when its likelihood already holds a "
  "simulation function of that name or the plugins of a component of the same name, and is accepted otherwise, "
  "so any number of simulated components can live in one likelihood and in different likelihoods. "
  "Once compiled, a simulation keeps working with the configuration it was compiled with, whatever "
  "is deduced, compiled, configured or cleared for other components, until that very component is "
  "compiled again.",
  ["histories"],
  "all sequences of deduce, compile, simulate, configuration and cache clearing over several "
  "components and likelihoods",
  "tests use one component per likelihood name and clear caches in between",
  ["appletree/component.py", "appletree/share.py", "appletree/plugin.py"],
  [("namespace per likelihood", "ComponentSim.code setter, share.StaticValueDict"),
   ("deep copy of options per plugin instance", "Plugin.__init__")],
  ["errors of deduce/compile and values returned by simulate"])

P("C01", "The configuration in force: explicit beats default, per-likelihood beats none",
  "A compiled plugin works with the value that was in force for its likelihood when it was "
  "compiled: the last explicitly set value, the entry of that likelihood when a dictionary was "
  "set, else the default. A missing value (no default, or a dictionary without that likelihood) "
  "makes compilation fail with ValueError, unsupported values and missing files are refused when "
  "set (NotImplementedError, RuntimeError) without changing anything. Changing the "
  "configuration afterwards affects only what is compiled later, and showing the configuration "
  "reports the value in force.",
  ["histories", "configurations"],
  "all sequences of settings of any option kind with any likelihoods",
  "tests set one scalar configuration once",
  ["appletree/config.py", "appletree/share.py", "appletree/component.py", "appletree/plugin.py"],
  [("lookup with default caching", "Config._resolve_cached_config"),
   ("global settings", "share.set_global_config")],
  ["simulate values, errors, show_config table"])

P("C02", "Maps with uncertainty: the value follows one parameter on the right side",
  "An option given as a median, a lower and an upper map evaluates to the median plus the parameter "
  "times the distance to the upper map when the parameter is positive, to the lower map when it is "
  "negative; given as a single map it is that map whatever the parameters. The parameter is the "
  "name given as fourth entry, else the name of the option with the suffix '_sigma'; it is the only "
  "parameter such an option adds to those needed, none for a single map, and simulating without it "
  "raises KeyError. Likelihoods with different settings of the option keep their own maps and "
  "parameter, whatever is configured or built afterwards.",
  ["histories", "configurations", "inputs"],
  "all forms of default and explicit values, scalar or per likelihood, all parameter values and "
  "sequences of builds",
  "the tests only build the shipped maps and never evaluate them away from the median",
  ["appletree/config.py", "appletree/plugin.py", "appletree/component.py"],
  [("construction of the three maps", "SigmaMap.build, SigmaMap.get_config"),
   ("evaluation", "SigmaMap.apply, add_positive/negative sides"),
   ("required parameter", "SigmaMap.required_parameter, ComponentSim.needed_parameters")],
  ["needed_parameters, values returned by simulate, errors"])

P("C03", "Settings that no option ever used are reported, and only those",
  "The report of unused settings warns if and only if somebody explicitly set a configuration that "
  "no option has read, and names exactly those. A setting for a single likelihood counts as used "
  "once any likelihood read the option, and clearing the cache starts all over.",
  ["histories", "configurations"],
  "all sequences of setting, building, reporting and clearing",
  "the tests never look at the warning",
  ["appletree/share.py", "appletree/utils.py", "appletree/context.py"],
  [("accessed keys", "share.RecordingDict"), ("report", "utils.check_unused_configs")],
  ["warning of check_unused_configs"])

P("C04", "Resource files: the given path, then url_base, then the packaged files",
  "A file given by name is the one at that path, else the one in the folder configured as url_base, "
  "else the one packaged with appletree, else it is refused; this holds for every way of loading "
  "(lookup, JSON, maps, data, parameter and instruct files). A setting that names a file is "
  "resolved when it is set or, for a default, when the first option uses it, and refers to the same "
  "file afterwards; a file that was replaced is read with its new content.",
  ["histories", "configurations", "fault_sequences"],
  "all sequences of creating, replacing, deleting files, changing url_base, looking up and building",
  "tests load packaged files only",
  ["appletree/utils.py", "appletree/config.py", "appletree/share.py"],
  [("order of lookup", "utils.get_file_path, integrate_midpoint, load_data")],
  ["content of the loaded file, errors"])

P("P01", "A context needs and provides exactly the parameters its components use",
  "The parameters a context needs are exactly those of the plugins and maps with uncertainty in its "
  "simulated components plus one rate per component, renamed by the aliases of the likelihood, plus "
  "the parameters copied for likelihoods. A copied parameter has the configuration of its source "
  "and replaces it, unless the source is itself the rate of a component. Building a context whose "
  "parameter configuration provides anything that is not needed is refused with RuntimeError by its "
  "sanity check, and accepted otherwise.",
  ["programs", "configurations"],
  "all contexts of any likelihoods, components, aliases, copies and parameter configurations",
  "the tests build two shipped contexts with matching parameter files",
  ["appletree/context.py", "appletree/likelihood.py", "appletree/component.py"],
  [("accumulation", "Likelihood.register_component, Context.update_parameters"),
   ("copies", "Context.update_parameter_config"), ("check", "Context._sanity_check")],
  ["needed_parameters of component, likelihood and context, errors"])

P("P02", "Aliases rename parameters and change nothing else",
  "Evaluating a likelihood with aliased parameters (log likelihood, weighted data) gives what the "
  "likelihood without aliases gives for the renamed table; the table of the caller is never modified. "
  "A missing parameter raises KeyError, and superfluous parameters have no effect.",
  ["inputs", "configurations"],
  "all alias tables, parameter tables and likelihoods",
  "one test builds an aliased likelihood, none compares values",
  ["appletree/likelihood.py", "appletree/component.py"],
  [("translation", "Likelihood.translate_parameters")],
  ["return values and errors of get_log_likelihood, simulate_weighted_data; argument afterwards"])

P("P03", "The parameter table: every operation changes what it names, within the ranges",
  "Initial and sampled parameters come from the prior (or the initial guess) clipped to the allowed "
  "range, fixed parameters keep their value, and the same seed gives the same table. Reading and "
  "writing by name, list, dictionary or as the array of free parameters refer to the same table, the free "
  "parameters being sorted by name; an unknown name or a wrong number of values is refused with AssertionError and changes nothing. "
  "Sampled values follow the declared distribution.",
  ["histories", "inputs"],
  "all parameter configurations and sequences of sampling, setting, reading",
  "tests sample once from one parameter file",
  ["appletree/parameter.py", "appletree/utils.py"],
  [("sampling", "Parameter.sample_prior, sample_init"),
   ("table", "Parameter.set_parameter, get_parameter, parameter_fit_array")],
  ["get_all_parameter after every operation"])

P("P04", "The log prior is finite exactly inside the allowed ranges",
  "The log prior is minus infinity if any free parameter lies outside its allowed range and finite "
  "otherwise, bounds included; fixed parameters do not contribute. Inside the ranges it is the sum over the "
  "free parameters of -(x-mean)^2/(2 std^2) for normal priors, of the logarithm of the normalised "
  "density of two half normals whose 16 and 84 percent quantiles are the declared errors, and of zero "
  "for uniform and free priors.",
  ["inputs", "configurations"],
  "all parameter configurations and parameter values",
  "tests evaluate the prior once inside the ranges",
  ["appletree/parameter.py"],
  [("prior", "Parameter.log_prior")], ["value of log_prior"])

P("L01", "Every event is counted in exactly one bin, or none outside",
  "A histogram over irregular bins contains in each bin the summed weight of exactly the events "
  "whose every coordinate is above the lower and at most at the upper edge; in two dimensions the "
  "first axis selects the row of edges of the second. A histogram over a regular grid has lower edges included and "
  "upper edges excluded except the last. Events outside contribute nowhere, and no other input "
  "changes a bin.",
  ["inputs"],
  "all bin edges, events (on, inside, outside the edges) and weights, one and two dimensions",
  "tests only check shapes of histograms of random events",
  ["appletree/hist.py", "appletree/component.py"],
  [("irregular bins", "hist.make_hist_irreg_bin_1d/2d"), ("grid", "hist.make_hist_mesh_grid"),
   ("choice", "Component.implement_binning")],
  ["histograms"])

P("L02", "Data selection and binning follow the configuration",
  "The data of a likelihood are exactly the rows of its file strictly inside the region of interest, "
  "in the columns and order it is binned on. The bin edges are the given ones, equidistant ones for "
  "a number of regular bins, or those which divide the data (in two dimensions: each slice) into equally populated bins for "
  "'equiprob', always ending at the region of interest; integer data are divided half way between integers. "
  "Ill-formed binnings are refused.",
  ["inputs", "configurations"],
  "all data sets, regions of interest and binning configurations of one or two dimensions",
  "tests use one data file with one 2D binning",
  ["appletree/likelihood.py", "appletree/hist.py", "appletree/utils.py"],
  [("selection and edges", "Likelihood.set_binning, warn/sanitize"),
   ("equal population", "hist.get_equiprob_bins_1d/2d, utils.get_equiprob_bins_1d_integer")],
  ["data, bins and data histogram of the likelihood, errors"])

P("L03", "Normalisation: what a rate means",
  "The expected histogram of a component normalised on its density sums to the rate parameter, "
  "however many events are simulated and whatever their efficiencies; one normalised on the simulation is the "
  "efficiency-weighted histogram times rate over the number of simulated events (or of events in the bootstrapped source). "
  "If asked for, empty bins are lifted to the average weight of one event before normalising. Any other "
  "normalisation is refused, and the number of expected events is the sum over components and bins.",
  ["inputs", "configurations"],
  "all likelihoods of simulated, bootstrapped and fixed components, rates, events and batch sizes",
  "tests evaluate one component and check only that it runs",
  ["appletree/component.py", "appletree/likelihood.py"],
  [("factor", "Component.get_normalization"), ("floor", "add_eps_to_hist"),
   ("sum", "Likelihood.get_num_events_accepted")],
  ["simulate_hist, get_num_events_accepted"])

P("L04", "The log likelihood is Poisson and never not-a-number",
  "The log likelihood of binned data is the sum over bins of n log(m) - m, with n the number of data "
  "and m the summed expectation of the components in the bin. If any bin has no or a negative expectation, or "
  "the expectation is not finite, it is minus infinity; it is never not-a-number. Only "
  "simulated components consume the random key.",
  ["inputs"],
  "all data, components, rates (zero, negative, infinite) and events",
  "tests evaluate one finite likelihood",
  ["appletree/likelihood.py"],
  [("value", "Likelihood.get_log_likelihood")], ["get_log_likelihood"])

P("L05", "The likelihood of literature measurements",
  "The log likelihood is the sum over simulated points of their efficiency times the logarithm of the normal, "
  "two-half-normal or interpolated band density of the yield, in the order of the declared "
  "observables whatever order the plugins provide them, and minus infinity if any term is not a "
  "number, as outside of a band. Only the three types are accepted (RuntimeError), only two "
  "observables and one component (AssertionError). Parameters and aliases are those of the component, the key goes through it, "
  "and a batch size other than one is warned about.",
  ["inputs", "configurations"],
  "all measurements, points, efficiencies, aliases and keys",
  "one test evaluates one shipped measurement",
  ["appletree/likelihood.py", "appletree/randgen.py"],
  [("densities", "LikelihoodLit.get_log_likelihood, set_binning")],
  ["get_log_likelihood, errors, warnings, needed_parameters"])

P("L06", "Weighted events reproduce the histogram",
  "Weighted data contain exactly the simulated (and fixed) events strictly inside the outermost bin edges, "
  "component after component in the order of simulation, in the observables of the likelihood. The weight of an "
  "event is its efficiency times the normalisation that turns the kept events into the expected "
  "histogram of its component.",
  ["inputs"],
  "all likelihoods, events, efficiencies, rates and batch sizes",
  "a test only checks that weighted data can be simulated",
  ["appletree/likelihood.py", "appletree/component.py"],
  [("selection and weights", "Likelihood.simulate_weighted_data, Component.simulate_weighted_data")],
  ["simulate_weighted_data"])

P("L07", "The posterior is the prior plus the mean over repetitions of summed likelihoods",
  "For parameters inside their ranges the log posterior is the log prior plus the sum over all "
  "likelihoods of their log likelihoods, averaged over the requested repetitions, each simulated "
  "with keys that are never reused, the given batch size and exactly the given values of the free "
  "parameters; the log prior is reported with it. For parameters outside it is minus infinity without "
  "simulating anything. Unknown parameters are refused (AssertionError), a parameter that is not provided raises KeyError.",
  ["inputs", "configurations"],
  "all contexts, parameters, batch sizes and repetitions",
  "tests evaluate one posterior and look at nothing but success",
  ["appletree/context.py", "appletree/parameter.py"],
  [("posterior", "Context.log_posterior")],
  ["return values, calls of the likelihoods"])

P("M01", "Fitting records the chain, and continuing continues it",
  "After a fit of n iterations the chain holds exactly n steps of all walkers, each step either the "
  "previous position or a point that was evaluated, with the posterior evaluated there; a move "
  "with a far lower posterior is never taken. Continuing (oneself or another context) "
  "appends steps which start at the last position of that chain; earlier steps are never altered, "
  "and a fresh fit starts with an empty chain. A failure in the middle loses no completed step, and "
  "a backend file always holds what the context holds.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of fits, continuations, reloads, failures in the middle and queries",
  "tests run one fit and one continuation of 2-5 iterations without comparing chains",
  ["appletree/context.py"],
  [("sampler and backend", "Context.fitting, continue_fitting, pre_fitting")],
  ["chain, posterior and h5 file"])

P("M02", "Parameters read off a fit describe that fit",
  "After a fit, the maximum posterior point is a point of the chain with the highest posterior, a random point is a point "
  "of the chain, and the median is the median of every free parameter over the whole chain, all complete "
  "with the fixed parameters; any other kind is refused with ValueError. The same holds for saved "
  "posterior files, and templates are simulated with the maximum posterior parameters, aliases applied, for the requested size and seed. The chain is "
  "returned with the requested number of first steps dropped and thinned, flat or not.",
  ["histories"],
  "all sequences of fits, continuations, reloads and queries, including repeated queries after "
  "further fits",
  "tests call the functions once after one fit and check nothing about the values",
  ["appletree/context.py"],
  [("queries", "Context.get_post_parameters, dump_post_parameters, get_all_post_parameters, get_template")],
  ["returned parameters, files, chains"])

P("M03", "A backend file reproduces its context",
  "A context loaded from a backend file (also a moved one) has the chain, parameters, configuration, lineage and batch "
  "size of the fit that wrote it, and loading leaves the file unchanged. What a fit writes to the file (instruct, "
  "parameter and plugin configuration, batch size, parameter names, best fit) describes that fit; "
  "making a context never alters the caller's instruct.",
  ["histories", "crash_points"],
  "all sequences of fits, continuations, reloads (from the file or a copy) and failures",
  "tests reload one backend and check only that it works",
  ["appletree/context.py"],
  [("metadata", "Context._dump_meta"), ("reload", "Context.from_backend")],
  ["chain, lineage, metadata of the file"])

P("I01", "Map values: nodes are exact, between them interpolated, outside the nearest",
  "Multilinear interpolation on a regular grid, linear interpolation of point maps, nearest-neighbour lookup "
  "and inverse-distance weighting return the value of the map at its nodes, the declared interpolation of the surrounding nodes "
  "between them and, outside, the value at the nearest position inside; on logarithmic axes the same "
  "holds in the logarithm. Values are always finite for finite maps and the value of one event "
  "does not depend on the other events of the batch.",
  ["inputs"],
  "all maps in one to three dimensions, all positions",
  "tests interpolate a few fixed points of two maps",
  ["appletree/interpolation.py", "appletree/config.py"],
  [("interpolation", "interpolation.interp_nd, map_interpolator_*, curve_interpolator, find_nearest_indices"),
   ("axes", "Map.build_point, build_regbin, pdf_to_cdf")],
  ["values of Map.apply"])

P("I02", "Map files: what is refused, and densities become quantiles",
  "A map file whose coordinate type is unknown or mixed, with coordinates that do not fit its kind or a "
  "logarithmic axis that is not positive, is refused when the map is built, and well-formed files "
  "are accepted. A map of a density becomes one of quantiles: evaluated at a probability it gives a "
  "position whose cumulative density is that probability up to one table interval, in increasing order, "
  "and the conversion is announced by a warning.",
  ["inputs", "configurations"],
  "all combinations of coordinate types, names, signs, methods and dimensions; all density tables",
  "tests load the packaged maps only",
  ["appletree/config.py", "appletree/interpolation.py"],
  [("build", "Map.build"), ("conversion", "Map.pdf_to_cdf")],
  ["errors, warnings and values of maps"])

P("X01", "Lineage identifies what a result depends on, and nothing else",
  "Two contexts (and likewise likelihoods, components, plugins of a likelihood and options) have the same lineage hash "
  "if and only if they agree in everything their results depend on: configurations in force, "
  "contents of maps and data files, plugins in effect, normalisation, bins, aliases, "
  "prior configuration. It does not depend on the order in which dictionaries are written, "
  "the process, earlier activity, or being asked twice, and it can be saved as JSON.",
  ["histories", "configurations"],
  "all pairs of contexts that differ in any of the ingredients, all orders of building",
  "tests compute the hash once and compare it with nothing",
  ["appletree/utils.py", "appletree/config.py", "appletree/plugin.py", "appletree/component.py",
   "appletree/likelihood.py", "appletree/context.py"],
  [("hash", "utils.get_lineage_hash, lineage properties of every class")],
  ["lineage_hash, dump_lineage"])

P("X02", "Extensions and registrations are refused before they shadow anything",
  "Adding plugins or components from a module or class makes exactly the derived classes of that kind "
  "visible by name; one whose name (or module name) is already taken is refused with ValueError and replaces nothing, unless "
  "forced. Registering a plugin makes it the provider of all its data names, and is refused "
  "with ValueError if it declares a configuration with another default than a plugin still in use "
  "does. Malformed declarations (options that are not options, repeated options, dictionaries "
  "as defaults, plugins without inputs or outputs or with mismatching arguments, fixed components "
  "without a file, unknown bin types) are refused.",
  ["histories", "programs"],
  "all sequences of extensions, registrations and declarations",
  "tests register one extension",
  ["appletree/extensions.py", "appletree/plugin.py", "appletree/component.py", "appletree/config.py"],
  [("extensions", "extensions.add_extensions"), ("registration", "ComponentSim.register"),
   ("declaration", "config.takes_config, Plugin.sanity_check")],
  ["errors and visible classes"])
