import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
G="gwpopulation/"
p("C01","Backend switching is complete and all-or-nothing",
 "After any sequence of backend selections, every registered module of the package and of downstream plugins (array module, special-function module and every individually registered function) refers to the backend of the last selection that succeeded, with 64-bit floats under jax. A selection that fails (unknown name, missing package, a plugin module or function that cannot be loaded) raises, changes nothing, and can be retried successfully once the cause is gone.",
 ["histories","fault_sequences","configurations"],"every sequence of selections from {numpy, jax, uninstalled cupy, unknown name} combined with every placement of one plugin loading fault, over plugin registries with several entries per module",
 "The tests call the switch once per backend with no plugin installed, and never look at the state after a failed or partial switch.",
 [G+"backend.py","pyproject.toml"],[("set_backend",G+"backend.py"),("modules_to_update",G+"backend.py"),("_load_arbitrary",G+"backend.py")],
 ["xp/scs attributes of registered modules","exceptions of set_backend"],
 [dict(name="__backend__",meaning="name of the active backend",where=G+"backend.py")])
p("C02","numpy and jax backends compute the same numbers",
 "For every model, primitive distribution, selection function and likelihood, evaluating the same inputs under the numpy and the jax backend gives the same double-precision values, to the accuracy of the special functions (better than 1e-5), whatever order the backends were used in before. This covers every shape of dataset and every hyperparameter value for which the numpy backend does not raise.",
 ["inputs","configurations","histories"],"all catalogue entries x hyperparameter lattice x dataset shapes x backend switch orders",
 "Tests run each backend on its own random draws against loose tolerances and never compare the two, nor evaluate after switching back and forth.",
 [G+"utils.py",G+"models/mass.py",G+"models/spin.py",G+"models/redshift.py",G+"models/interped.py",G+"hyperpe.py",G+"vt.py"],
 [("backend specific branches ('jax' in xp.__name__)",G+"models/mass.py, utils.py, hyperpe.py")])
p("C03","Primitive distributions equal their documented densities",
 "The power-law, truncated-normal, beta, von Mises and two-dimensional Gaussian primitives return, for every valid parameter value and every point, exactly their documented density: normalised to one over the stated range (the 2-D Gaussian is unnormalised with the documented covariance matrix), zero outside it, never negative and never NaN. Invalid parameters given by keyword (negative lower limit of a power law, non-positive width, non-positive beta shapes or scale) raise ValueError under numpy.",
 ["inputs"],"all points of a parameter lattice that includes the special exponents (-1, 0, 1), zero lower limits, far-tail truncations, narrow and wide widths, all correlation signs, scalar/array parameters, times data inside, on and outside every boundary",
 "Tests check zero outside the range, and a random draw of parameters at 1e-3 absolute tolerance; special exponents, correlations and boundaries are not reached.",
 [G+"utils.py"],[("powerlaw, truncnorm, beta_dist, von_mises, unnormalized_2d_gaussian, apply_conditions",G+"utils.py")])
p("C04","Analytic mass models are the documented normalised densities",
 "Every analytic mass model (power law, broken power law, with zero, one or two Gaussian peaks; one-dimensional, primary and mass-ratio, primary and secondary) returns exactly its documented density for all hyperparameters: components weighted by their mixing fractions and each normalised over its own range, the broken power law continuous at the break, zero below the minimum mass, above the maximum and for secondary heavier than primary, and finite and non-negative everywhere else including on boundaries (except where the conditional mass-ratio range shrinks to a single point). Integrated over its support it gives one (two-mass models with identical distributions included).",
 ["inputs"],"all lattice points of exponents, limits, break fractions, mixing fractions (0 and 1 included), peak positions and widths, peak truncation, times mass and mass-ratio data inside, on and outside every boundary",
 "Tests check only zero outside the limits on random draws; no test compares an analytic model with its formula or integrates one.",
 [G+"models/mass.py",G+"utils.py"],[("two_component_*, three_component_single, double_power_law_*, power_law_*, _primary_secondary_general",G+"models/mass.py")])
p("C05","Smoothed mass distributions are normalised and correctly windowed",
 "Each smoothed mass distribution equals, at every point, its primary-mass density times the documented low-mass window renormalised numerically over its mass grid, times a mass-ratio power law windowed on the secondary mass and renormalised at that primary mass; with zero smoothing length it equals the unsmoothed model exactly. It is zero below the minimum mass (either component) and above the maximum, finite and non-negative, integrates to one, and under numpy a minimum below or a maximum above the range it was built for raises ValueError.",
 ["inputs","configurations"],"all smoothed classes x construction ranges, grid shapes and caching flag x hyperparameter lattice (smoothing length zero, tiny, large; mixing fractions 0 and 1; negative exponents) x data on and around all boundaries",
 "The normalisation tests evaluate ten draws but assert only on the last one at 1%, and only at the default construction range; values of the density are compared with a formula only for zero smoothing.",
 [G+"models/mass.py"],[("BaseSmoothedMassDistribution.{p_m1,norm_p_m1,p_q,norm_p_q,smoothing}",G+"models/mass.py")])
p("C06","Spin models are the documented normalised densities",
 "Every spin model returns exactly its documented density for all hyperparameters: magnitudes follow (identical or per-component) beta distributions with their own maxima, tilts a mixture of isotropic and truncated-Gaussian components in which both spins share one mixing fraction, and effective-spin models truncated (correlated) Gaussians with the documented covariance. The identical-component variants equal the independent ones with equal arguments, out-of-range magnitudes and effective spins have zero density, no value is negative or NaN, and each integrates to one.",
 ["inputs"],"all spin models x lattice of shapes, maxima, mixing fractions, means, widths and correlations (all signs, unequal per component) x data inside, on and outside every boundary",
 "Tests integrate the last of 100 random draws and compare identical with independent variants at one point; unequal components, correlations and means are never compared with a formula.",
 [G+"models/spin.py",G+"utils.py"],[("iid_*/independent_* spin functions, gaussian_chi_eff, gaussian_chi_p, GaussianChiEffChiP",G+"models/spin.py")])
p("C07","Redshift models follow the comoving volume and are normalised",
 "For every rate-evolution parameter, maximum redshift and cosmology, a redshift model's density is proportional to the documented rate evolution times comoving volume element over (1+z), is zero beyond the maximum redshift, and integrates to one; the rate evolution equals one at redshift zero. The normalisation it reports is the rate-weighted volume, and the stand-alone four-volume equals it (times analysis time, in Gpc^3 yr).",
 ["inputs","configurations"],"both redshift models x fixed and parametrised cosmologies x lattice of evolution and cosmology parameters and maximum redshifts x redshifts inside, on and beyond the limit, evaluated in all orders of two cosmologies on one instance",
 "Tests integrate random draws for Planck15 with the default maximum only; no test varies the cosmology or checks the four-volume with both signs of error.",
 [G+"models/redshift.py",G+"experimental/cosmo_models.py"],[("_Redshift.{probability,normalisation,differential_spacetime_volume,dvc_dz}, total_four_volume",G+"models/redshift.py")])
p("C08","Spline models interpolate their nodes and are normalised",
 "For every node count, node range, interpolation kind and set of node values (nodes equally spaced, in the logarithm for masses), a spline population model equals the exponential of the interpolant through its nodes (scaled to the requested root-mean-square when regularised), normalised per parameter over its range, identical for each of its parameters and zero outside the outermost nodes. Where the model has no parametric base, supplying more nodes than configured extends the node count and keeps every other setting (range, kind, regularisation).",
 ["inputs","configurations"],"node counts 4..6 x kinds x ranges x regularisation x node-value lattice x data inside, on and outside the node range, plus every surplus of nodes up to two",
 "Tests check normalisation at 5% on random draws and never the interpolated values, the node-inference path, or nodes not spanning the range.",
 [G+"models/interped.py",G+"models/spin.py",G+"models/mass.py"],[("InterpolatedNoBaseModelIdentical, _setup_interpolant",G+"models/interped.py"),("InterpolatedPowerlaw",G+"models/mass.py")])
p("C09","Model evaluation is independent of history and mutates nothing",
 "The value a population model returns depends only on the dataset and hyperparameters of that call: not on earlier calls with other hyperparameters or other datasets, on other instances of the class, or on backend switches before the instance was made. No call modifies the dataset, the hyperparameters or a previously returned result. (Callers do not overwrite an array in place between two calls that use it.)",
 ["histories"],"all call sequences up to a bounded length over {instances} x {hyperparameter sets} x {datasets of equal and different shapes} for every model",
 "Tests call a fresh instance a few times on one dataset and never compare with an uncached evaluation.",
 [G+"models/mass.py",G+"models/interped.py",G+"models/redshift.py",G+"models/spin.py"],
 [("mass-ratio normalisation cache (_cache_q_norms)",G+"models/mass.py"),("spline cache (setup_interpolant)",G+"models/interped.py")],None,
 [dict(name="_q_interpolant",meaning="cached interpolation of the mass-ratio norm at the dataset's masses",where=G+"models/mass.py"),dict(name="_data_spline/_norm_spline",meaning="cached spline evaluation points",where=G+"models/interped.py")])
p("C10","The likelihood equals the documented Monte Carlo estimator",
 "For any events, samples, sampling priors (absent meaning one), population model, parameter conversion and selection function, the log-likelihood ratio is the sum over events of the log mean of population over sampling prior minus the number of events times the log detection probability, evaluated at the converted parameters. Any undefined or vanishing estimate gives the most negative float rather than NaN or -inf, and the full log-likelihood adds the sum of the supplied log evidences.",
 ["inputs","configurations"],"all weight matrices over a small alphabet (zero included) for 1-3 events with 1-3 samples x prior column present/absent x selection forms (constant, tuple, zero, NaN, infinite) x conversion functions x evidences x backends",
 "Tests use constant data with all weights one, for which most wrong estimators give the same number.",
 [G+"hyperpe.py"],[("HyperparameterLikelihood.{ln_likelihood_and_variance,log_likelihood_ratio,log_likelihood}",G+"hyperpe.py")])
p("C11","Likelihood uncertainty is propagated and its limit enforced",
 "The reported variance of the log-likelihood is the sum of the relative Monte Carlo variances of every event mean plus the squared number of events times the relative variance of the detection probability. The log-likelihood ratio is replaced by the most negative float exactly when the square root of that variance exceeds the maximum uncertainty currently set, and the null likelihood returns zero under the same rule. The per-event and total statistics added to a posterior sample agree with these numbers and leave other entries unchanged.",
 ["inputs","histories"],"all weight matrices over a small alphabet x selection variances x thresholds just below, at and above the uncertainty (both sides of one), thresholds set at construction or changed between calls, x all likelihood classes",
 "Tests use zero-variance data or thresholds orders of magnitude away from the uncertainty, so variance and standard deviation are interchangeable in them.",
 [G+"hyperpe.py"],[("maximum_uncertainty, _compute_per_event_ln_bayes_factors, _get_selection_factor, generate_extra_statistics, NullHyperparameterLikelihood",G+"hyperpe.py")],None,
 [dict(name="maximum_uncertainty",meaning="largest allowed standard deviation of ln L",where=G+"hyperpe.py")])
p("C12","Rates: Poisson likelihood and rate posterior follow the documented law",
 "The rate likelihood is the sum of per-event log means plus N log R minus R times the selection function, with variance equal to the event variances plus R squared times the variance of the selection function. Rate posterior draws of the rate-marginalised likelihood follow a Gamma distribution of shape N divided by the surveyed sensitive volume (detection efficiency times hypervolume when the selection function provides them, otherwise its value, with or without an uncertainty), evaluated at converted parameters; the rate likelihood returns its own rate.",
 ["inputs","configurations"],"weight matrices x rates x selection forms x conversion functions, and all seeds of a fixed set for the draws",
 "Tests check only that a rate is required and that one draw is positive.",
 [G+"hyperpe.py"],[("RateLikelihood._get_selection_factor, generate_rate_posterior_sample",G+"hyperpe.py")])
p("C13","Event data stay aligned through down-sampling and resampling",
 "Loading posteriors keeps, for each event in order, exactly min(shortest posterior, limit) distinct original rows, with every column and the sampling prior of a kept row together. Predictive resampling draws, per event, rows of that event only, keeps columns of a row together, never draws a row of zero weight, and uses weights equal to the average over hyper-samples of the per-event normalised population-over-prior weights, whether hyper-samples come as a frame, a dict or a list.",
 ["inputs","histories"],"posterior lengths 1-4 for 1-3 events x limits x every outcome of the row selection (all permutations forced through the random source) x every assignment of point-mass weights to rows x hyper-sample containers",
 "Tests use constant columns, for which any mix-up of rows, events or columns is invisible, and check only shapes.",
 [G+"hyperpe.py"],[("resample_posteriors, posterior_predictive_resample",G+"hyperpe.py")])
p("C14","Injection-based detection probability, variance and convergence rule",
 "For any found injections, the selection estimate is the sum of population-over-draw-density weights divided by the total number generated (the number found when not given), with variance sum of squared weights over total squared minus estimate squared over total. When convergence is enforced or uncertainty marginalised, the estimate is infinite exactly when estimate squared does not exceed four times the number of events times the variance, and otherwise is the estimate (or its documented marginalised form); the surveyed hypervolume is the analysis time times the rate-weighted volume of the redshift model in use, or of a uniform rate without one.",
 ["inputs","configurations"],"all weight vectors over a small alphabet for 1-4 injections x totals x event counts (0, finite on both sides of the threshold, infinite) x flags x model forms x redshift models, parameters and positions in the model list x analysis times",
 "Tests use one smooth weight function with zero events, default total and unit time.",
 [G+"vt.py"],[("ResamplingVT.{detection_efficiency,check_convergence,vt_factor,surveyed_hypervolume}",G+"vt.py")])
p("C15","Grid-based sensitive volume integrates every axis exactly once",
 "For any rectangular grid of one to three parameters, whatever the grid lengths, spacings and parameter order, the grid selection function is the iterated trapezoidal integral of population density times sensitivity over every grid axis, each with its own coordinates. Constructing it leaves the supplied data usable again.",
 ["inputs","configurations"],"all assignments of lengths 2-4 (equal lengths included) to 1-3 axes x all axis-to-parameter orders x uniform and non-uniform coordinates x sensitivity shapes x models",
 "The only test is one-dimensional with a scalar sensitivity.",
 [G+"vt.py",G+"utils.py"],[("GridVT",G+"vt.py"),("trapezoid",G+"utils.py")])
p("C16","Beta-parameter conversion is exact, selective and side-effect free",
 "The two beta-parameter conversions are mutual inverses matching the documented mean and variance for scalars and arrays. The dictionary conversion sets both shape parameters of a component whenever either is missing or None and that component's mean, variance and maximum are given; the shared parameters are only used if neither component-specific set is available. It lists the keys it added when asked, keeps everything else, and never modifies its input.",
 ["inputs"],"every presence/None/value combination of the parameters of the three suffixes x value lattice x scalar and array values x flag",
 "Tests try six dictionaries of scalars and one comparison in them is vacuous.",
 [G+"conversions.py"],[("convert_to_beta_parameters, mu_var_max_to_alpha_beta_max, alpha_beta_max_to_mu_var_max",G+"conversions.py")])
p("C17","Detector-to-source conversion and its Jacobian are order independent",
 "For every cosmology and every set and order of dataset entries, redshift is taken from the data or else solved from luminosity distance under the supplied cosmological parameters, every detector-frame quantity is divided by (1+z), all others are passed through, and the Jacobian is dD_L/dz when distances were supplied times one factor (1+z) per detector-frame quantity. A cosmological population model evaluates its components on those source-frame samples and divides by that Jacobian; with neither redshift nor distance it raises ValueError, and the input data are left unchanged.",
 ["inputs","configurations","histories"],"all subsets and all key orders of {redshift, luminosity distance, up to three detector-frame masses, other keys} x fixed and parametrised cosmologies x parameter lattice, evaluated in sequence on one object",
 "Tests use one insertion order (redshift first) in every case.",
 [G+"experimental/cosmo_models.py"],[("CosmoMixin.detector_frame_to_source_frame, CosmoModel.prob",G+"experimental/cosmo_models.py")])
p("C18","JIT and numpyro likelihoods agree with the plain likelihood",
 "The jit-compiled wrapper returns the wrapped likelihood's log-likelihood ratio for every parameter point in every order of calls, and the numpyro model returns the plain likelihood's value, with the documented deterministic per-event, selection and variance sites, selection switched off on request and values beyond the variance limit rejected. Its rate site has the Gamma posterior of the plain likelihood, and its predictive samples for an event are rows of that event drawn with that event's weights.",
 ["inputs","histories","configurations"],"likelihoods over all small weight matrices (events and samples unequal) x selection on/off x limits x point-mass weight assignments; parameter sequences through one compiled wrapper",
 "One test compares one prior draw with resampling switched off, so neither the rate site nor the predictive samples are ever looked at.",
 [G+"experimental/jax.py",G+"experimental/numpyro.py"],[("JittedLikelihood",G+"experimental/jax.py"),("gwpopulation_likelihood_model, posterior_predictive_resample",G+"experimental/numpyro.py")])
p("C19","Models declare exactly the hyperparameters they use",
 "The set of hyperparameter names a model declares (by attribute or signature) is exactly what it needs and uses: combined models evaluated with those names succeed and equal the product of their parts, omitting any name fails, unrelated extra names change nothing, and each declared name can change the result. The declaration follows the configuration (cosmology, node count, regularisation) and reading it any number of times changes neither it nor the model.",
 ["configurations","histories"],"all models and configurations x each single omission and addition x repeated reads x all pairs of models combined in both orders",
 "Tests compare a few declared lists and never use them to evaluate.",
 [G+"models/mass.py",G+"models/redshift.py",G+"models/interped.py"],[("variable_names properties",G+"models/*.py")])
p("C20","Likelihood and selection objects are pure and keep their inputs",
 "Using one likelihood or selection object repeatedly, with its queries interleaved in any order (likelihood values, statistics, rate draws, predictive resampling, selection queries, metadata), gives every query the same answer as a freshly built object, and never changes the posteriors, injections, hyper-samples or parameters supplied by the user.",
 ["histories"],"all query sequences up to a bounded length over one object, for each likelihood class and selection function",
 "Tests build a new object per assertion.",
 [G+"hyperpe.py",G+"vt.py"],[("methods of HyperparameterLikelihood, RateLikelihood, ResamplingVT, GridVT",G+"hyperpe.py, "+G+"vt.py")])
p("C21","Compiled and vectorised evaluation equals direct evaluation (jax)",
 "Under the jax backend, evaluating a population model, selection function, hypervolume, parameter or cosmological conversion or likelihood inside jax.jit, jax.vmap or both, with traced hyperparameters and with or without traced data, gives the same values as calling it directly at each point. A compiled evaluation leaves the object usable: later direct, compiled or vectorised calls on the same data give the same values. (Spline node positions are numbers, not traced; gradients are not covered.)",
 ["inputs","histories"],"all catalogue models x ordered pairs of evaluation modes on one instance x hyperparameter points; every selection, conversion and likelihood query directly, compiled, vectorised and directly again",
 "Tests compile one likelihood and compare one value; no test vectorises a model or uses an object again after compiling it.",
 [G+"models/mass.py",G+"models/interped.py",G+"models/redshift.py",G+"models/spin.py",G+"utils.py",G+"vt.py",G+"hyperpe.py",G+"conversions.py",G+"experimental/cosmo_models.py"],[("value-dependent branches and caches reached while tracing",G+"models/*.py, "+G+"hyperpe.py")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
