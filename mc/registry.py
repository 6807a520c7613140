BOTH = ["numpy", "jax"]


def both(*parts):
    return [f"{b}/{p}" for b in BOTH for p in parts]


SMOOTHED = [
    "MultiPeakSmoothedMassDistribution",
    "BrokenPowerLawPeakSmoothedMassDistribution",
    "SinglePeakSmoothedMassDistribution",
    "BrokenPowerLawSmoothedMassDistribution",
    "InterpolatedPowerlaw",
    "UserPowerLaw",
]

PROPS = {
    "C03": dict(
        groups=both("powerlaw", "rest"),
        bounds="parameter lattices written out in mc/props/c03.py, data on, one ulp around, inside and outside every boundary",
        assumptions=[
            "special functions of scipy (erfcx, erf, beta, ive) used by the oracle are correct",
            "truncated normals further than 1e4 widths from the mean are not compared",
        ],
    ),
    "C04": dict(
        groups=both("single", "peaks", "pairs", "norm"),
        bounds="lattices of mc/props/c04.py; masses on and 1e-9 around every boundary and break",
        assumptions=[
            "break fractions strictly between 0 and 1",
            "the point where the conditional mass-ratio range shrinks to zero width is excluded",
        ],
    ),
    "C05": dict(
        groups=[f"jax/{n}:{p}" for p in ("again", "density", "rest") for n in SMOOTHED]
        + [f"numpy/{n}" for n in SMOOTHED],
        bounds="lattices of mc/props/c05.py: three construction ranges/grids, smoothing 0..30, an earlier use differing in one hyperparameter, masses and mass ratios on and around every boundary",
        assumptions=[
            "the normalisation grid is the documented linear one (mass range of the constructor, mass ratio 0.001 to 1)",
            "the point m1=mmin, q=1 with zero smoothing, where p(q) has zero width, is excluded",
        ],
    ),
    "C16": dict(
        groups=both("dict", "inverse"),
        bounds="every combination of absent / None / given shapes and given statistics for the three suffixes; lattices of shapes and maxima, scalars and arrays",
        assumptions=["a component with mean and variance but no maximum is outside the statement"],
    ),
    "C06": dict(
        groups=both("magnitude", "tilt", "chi"),
        bounds="lattices of mc/props/c06.py with every special value (unit shapes, zero and one mixing fraction, equal and unequal components), points on, around and beyond every boundary",
        assumptions=[
            "scipy.special is correct",
            "edges where a beta density with shape below one diverges are excluded",
            "tilts are evaluated inside [-1, 1]",
        ],
    ),
    "C07": dict(
        groups=both("powerlaw", "madau"),
        bounds="seven cosmologies x z_max x evolution lattices, redshifts on, around and beyond z_max",
        assumptions=["wcosmo's distance approximations agree with quadrature to 3e-5 (measured)"],
    ),
    "C15": dict(
        groups=both("1", "2", "3"),
        bounds="all permutations of 1-3 parameters, all positions of the keys in the dictionary, all axis lengths 2-4, non-uniform ascending coordinates",
        assumptions=["grids are rectangular (ij meshes) with ascending coordinates"],
    ),
    "C17": dict(
        groups=both("orders", "model"),
        bounds="every subset of up to 4 (thorough 5) of six entries in every order x cosmologies; call sequences of length 3 with changing cosmology; CosmoModel over component lists",
        assumptions=["redshifts above the lower end of wcosmo's inversion range"],
    ),
    "C10": dict(
        groups=both("estimator", "forms"),
        bounds="all weight matrices over a 2-3 letter alphabet with zero up to 3x2, prior absent/given, fifteen kinds of selection function, all forms of population model, conversions and evidences",
        assumptions=["conversion functions given to the likelihood itself do not modify their argument"],
    ),
    "C11": dict(
        groups=both("limit", "statistics"),
        bounds="ten weight matrices x four selection functions x three classes x limits on both sides of the uncertainty, of one and of the variance; setting/query sequences of length 3 (thorough 4)",
        assumptions=["points with an undefined variance (an event of zero weight) are covered by C10 only"],
    ),
    "C12": dict(
        groups=both("rate", "draws"),
        bounds="weight matrices x selection functions (number, pair, array, object with hypervolume, ResamplingVT) x rates x conversions; the law of the draws on a fixed list of 300 seeds (mean within 7 sigma, KS p > 1e-9) and exactly by common random numbers",
        assumptions=["numpy's and scipy's random generators are correct"],
    ),
    "C13": dict(
        groups=both("load", "resample"),
        bounds="all event sizes 1-4 for up to three events x limits x index kinds; every answer of numpy.random.choice for loading up to 4 rows and resampling up to 2x3 rows",
        assumptions=["every event's frame has the same columns"],
    ),
    "C14": dict(
        groups=both("rule", "volume"),
        bounds="all weight vectors over {0,1,4} up to length 3 and selected longer ones x totals x event numbers x all flag combinations, exact power-of-two arithmetic at the threshold; redshift models in every position of the model list",
        assumptions=["infinitely many events with zero variance is undefined and excluded"],
    ),
    "C01": dict(
        groups=[f"{p}-{k}" for p in ("first", "last") for k in ("sequences", "retry", "bfs", "plugins")] + ["first-cold"],
        bounds="breadth-first search to depth 4 (thorough 6) and all sequences of length 4 (thorough 5) of selections and fault toggles (three plugin modules that fail to import, jax not importable, a function missing from the backend), with a real plugin registered before or after the package on the path; plugins that declare any of five sets of entry points between any two selections, with cupy absent, broken or present (a stand-in)",
        assumptions=["cupy is not installed: its successful selection is explored with a stand-in package that computes with numpy", "selecting the backend that is already active is a no-op"],
    ),
    "C18": dict(
        groups=["sites", "real/smoothed", "real/spline", "jit/hyper", "jit/rate", "jit/null", "real/power_law", "real/broken", "kwargs", "point_mass"],
        bounds="all sequences of 2 (thorough 3) parameter points through one compiled object x classes x conversions x limits; numpyro sites for all flag combinations, limits on both sides, point-mass weights in every position",
        assumptions=[
            "jitted likelihoods are built with Model(cache=False), as bilby documents",
            "the numpyro model is compared where the plain value is finite",
        ],
    ),
    "C09": dict(
        groups=[f"{b}/{f}" for b in BOTH[::-1] for f in
                [f"{family}:{k}" for family in ("smoothed", "spline", "redshift") for k in range(4)] + ["chi", "function"]],
        bounds="every model of mc/catalogue.py; all call sequences of length 3 (jax 2; thorough 3) over two differently configured instances x hyperparameters x datasets (kept, refilled, other shape), of length 5 (jax 3) over a smaller alphabet, pairs of models, backend switches before construction; calls differing in one hyperparameter or one dataset entry; jitted calls of spline models",
        assumptions=["the caller does not modify an array in place between two calls that use it",
                     "hyperparameters at which the conditional mass-ratio range shrinks to a point are excluded"],
    ),
    "C02": dict(
        groups=[f"models:{k}" for k in range(8)] + [f"{k}:{w}" for k in ("likelihood", "selection") for w in ("smoothed", "mixed", "spline", "cosmology")] + ["primitives", "likelihood:exact"],
        bounds="every model of mc/catalogue.py over its lattice x six dataset shapes x four orders of backend use x three kinds of numbers; primitives, conversions, selection functions and likelihoods over the lattices of mc/props/c02.py",
        assumptions=["agreement is to 3e-6, the accuracy of jax's special functions",
                     "instances are made under the backend they are used with"],
    ),
    "C08": dict(
        groups=both("mass", "magnitude", "tilt", "redshift", "three", "log"),
        bounds="node counts 4-6 (thorough 8; 10 for masses; 11 for names, thorough 13) x cubic/linear/nearest x ranges x node spans x regularisation x value sets x surplus 0-9, before and after a first use; data at, between and beyond the nodes",
        assumptions=["nodes are equally spaced (in the logarithm for masses), as cached_interpolate requires",
                     "the power law with spline ignores surplus nodes"],
    ),
    "C19": dict(
        groups=[f"{b}/{p}:{k}" for b in ("jax", "numpy") for p in ("single", "pairs") for k in range(4)] + both("configured"),
        bounds="every model of mc/catalogue.py x every omitted, added and changed name; all ordered pairs (jax: a fifth) and triples of six; all sequences of three instances over the configurations with reads in between; user-defined models",
        assumptions=["the names are read as bilby's Model reads them: variable_names, otherwise the signature"],
    ),
    "C20": dict(
        groups=[f"{b}/{p}" for b in ("jax", "numpy") for p in ("table:HyperparameterLikelihood", "table:RateLikelihood", "table:NullHyperparameterLikelihood", "real:smoothed", "real:mixed", "real:cosmology", "real:spline")],
        bounds="all query sequences of length 3 (models: 2, thorough 3; jax 2) over up to 15 queries of one likelihood and its selection function, three classes x selections x conversions x caching of the combined model; all sequences of 4 constructions and calls of grid selection functions",
        assumptions=["random queries are compared under the same seed of numpy's generator",
                     "the sample passed to generate_extra_statistics gains entries, as documented"],
    ),
    "C21": dict(
        groups=[f"models:{k}" for k in range(16)] + ["selection", "volume", "conversion", "cosmology", "likelihoods"],
        bounds="every model of mc/catalogue.py: each evaluation mode alone and eight (thorough: all) ordered pairs of them (direct, compiled with traced hyperparameters, compiled with traced data too, vectorised, compiled and vectorised) on one instance, each at up to six (functions 60) hyperparameter points; selection functions, hypervolumes, conversions, cosmological conversion and likelihood values directly, compiled, vectorised and directly again",
        assumptions=["spline node positions are not traced (see the known finding of C09)",
                     "combined models are built with cache=False, as bilby documents"],
    ),
}
