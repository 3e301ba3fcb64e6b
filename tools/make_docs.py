"""Regenerates properties.jsonl and MANIFEST.json (development tool; no check runs it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None},
                  _t=technique, _n=note))


prop("C01", "MYULA steps follow the Moreau-Yosida unadjusted Langevin dynamics",
     "Every iteration of the MYULA sampler moves from the current state X to (1-d/l)X + (d/l)prox(X) - d*grad(X) + sqrt(2d)*w, where prox is the prior's proximal map, grad the gradient of the Gaussian data fidelity at X, d and l the step size and smoothing parameter, and w fresh standard normal noise (independent real and imaginary parts when the parameters are complex). Real-parameter chains stay real whatever the data or operators.",
     ["inputs", "configurations", "histories"], "all inverse problems (measurement, transform, errors, prior, setting), step sizes, start points and every step of the chain",
     "the one sampler test only checks that run() finishes on a single 1-data configuration; no test looks at a transition",
     ["pxmcmc/mcmc.py"], [("MYULA.run", "pxmcmc/mcmc.py"), ("MYULA.chain_step", "pxmcmc/mcmc.py")], ["recorded chain of MYULA.run", "MYULA.chain_step"],
     "property-based testing against a dense reference model, with statistical test of the recovered noise",
     "Each recorded transition of generated problems is inverted with an independent dense model; noise must be N(0,1). Trusts numpy's generator and linear algebra.")
prop("C02", "PxMALA samples the posterior: Metropolis-Hastings with its own proposal",
     "PxMALA proposes MYULA steps and accepts a proposal Y from X with probability min(1, pi(Y)q(X|Y)/(pi(X)q(Y|X))), where log pi is the recorded log-posterior and q the Gaussian density of the proposal it actually makes; on rejection the chain stays at X and X is what is recorded. A proposal whose posterior is zero or undefined is never accepted. The long-run distribution of the chain is therefore the posterior.",
     ["inputs", "configurations", "histories"], "all inverse problems, step sizes, start points, and every accept/reject decision of a run",
     "the only test runs the sampler once and checks nothing about acceptance; detailed balance quantifies over all pairs of states",
     ["pxmcmc/mcmc.py"], [("PxMALA.run", "pxmcmc/mcmc.py"), ("PxMALA.calc_logtransition", "pxmcmc/mcmc.py")], ["acceptance trace", "recorded chain", "calc_logtransition differences"],
     "property-based testing with recording operator, reference acceptance probabilities and distribution tests",
     "All proposals are observed through the forward operator; decisions and counts are compared with reference probabilities (false-alarm < 1e-9). Exact distribution only tested on small problems.")
prop("C03", "SKROCK steps follow the stochastic Runge-Kutta-Chebyshev recursion",
     "Every iteration of the SKROCK sampler is one SK-ROCK step of order s with eta=0.05: the Chebyshev recursion applied to the gradient of the smoothed log-posterior with one Gaussian noise vector per step, for every s >= 1, in both settings and for real and complex parameters. The work of a step is proportional to s.",
     ["inputs", "configurations", "histories"], "all inverse problems, orders s, step sizes, start points and steps",
     "the one test uses a single order and only checks that run() finishes",
     ["pxmcmc/mcmc.py", "pxmcmc/utils.py"], [("SKROCK.chain_step", "pxmcmc/mcmc.py"), ("SKROCK recursion", "pxmcmc/mcmc.py"), ("chebyshev1/2, cheb1der", "pxmcmc/utils.py")], ["recorded chain of SKROCK.run"],
     "property-based testing against an independent SK-ROCK model; noise recovered from the observed gradient evaluations and tested",
     "Reference recursion uses numpy.polynomial.chebyshev; orders 1..60. Assumes the sampler evaluates the gradient through the prior's proxf() and the operator's forward().")
prop("C04", "Burn-in, thinning, tracking and verbosity only select from one trajectory",
     "For a fixed random seed, problem and start point the chain visits one trajectory; burn-in and thinning record exactly nsamples states of it at iterations nburn, nburn+ngap, ... (every iteration when ngap is 0 or 1), and the choice of tracked variables, verbosity, or splitting the run in two does not change any recorded value. Every run terminates after recording nsamples samples.",
     ["inputs", "configurations", "histories"], "all samplers, problems, seeds, nburn, ngap, nsamples, track lists, verbosities and split points",
     "tests use one nburn/ngap/track combination and never compare two runs",
     ["pxmcmc/mcmc.py"], [("run loops and tracking", "pxmcmc/mcmc.py")], ["recorded arrays after run()", "stdout of run()"],
     "metamorphic property-based testing of seeded runs (subsampling, rerun, split, tracking)",
     "Compares runs of the real samplers with each other under one numpy seed; termination is bounded by an evaluation budget.")
prop("C05", "Every recorded statistic belongs to the recorded sample",
     "For each recorded sample, the recorded predictions are the forward map of that sample, the recorded misfit its covariance-weighted squared residual, the recorded prior its prior norm and the recorded log-posterior is -mu*prior - misfit/2; all are real numbers even for complex data or parameters.",
     ["inputs", "configurations", "histories"], "all samplers, problems, error specifications, accept/reject histories and recorded indices",
     "no test reads the recorded statistics",
     ["pxmcmc/mcmc.py"], [("PxMCMC.logpi", "pxmcmc/mcmc.py"), ("tracking in the run loops", "pxmcmc/mcmc.py")], ["recorded logPi, L2s, priors, preds, chain", "logpi()"],
     "property-based testing: recomputation from the recorded chain with a dense reference model",
     "Each recorded sample's statistics recomputed without pxmcmc code, dense problems up to 9 parameters and small spherical problems.")
prop("C06", "PxMALA step-size adaptation follows its schedule and stays within bounds",
     "With tuning on, after iteration i (counting from 0) the step size is multiplied by 1+(a-1/2)/(i+1)^0.75, a being 1 for an accepted and 0 for a rejected proposal, and then kept within [1e-8, 1/2] times the smoothing parameter; the trace holds the initial and every later value. With tuning off the step size never changes, and in neither case do the caller's parameters change.",
     ["histories", "configurations"], "all accept/reject histories, initial step sizes and smoothing parameters",
     "the schedule depends on the whole accept/reject history; no test reads the trace",
     ["pxmcmc/mcmc.py"], [("PxMALA step-size tuning", "pxmcmc/mcmc.py")], ["deltas_trace", "acceptance_trace"],
     "property-based testing: step-size trace replayed from the acceptance trace",
     "Replays the published update from the observed acceptances.")
prop("C07", "Chains start where they are told, and refuse start points that do not fit",
     "A one-dimensional array with one entry per parameter is used as the starting state and is not modified by the run; anything that is not a one-dimensional array raises TypeError and an array of the wrong size raises ValueError before any sample is recorded. Without a start point the chain starts from independent standard Laplace draws (real and imaginary for complex parameters).",
     ["inputs", "configurations"], "all samplers and all start values: arrays of any dtype, layout and size, and non-arrays",
     "tests try one valid and a few invalid start points of one sampler",
     ["pxmcmc/mcmc.py"], [("initial sample handling", "pxmcmc/mcmc.py")], ["first forward evaluation of run()", "exceptions of run()"],
     "property-based testing with valid/invalid start generators and a distribution test of default starts",
     "First state observed through the forward operator.")
prop("C08", "The data-fidelity gradient is the gradient of half the misfit",
     "For every operator, setting and error specification the predictions are the measurement of the image (the sample itself in the analysis setting, the inverse transform of the sample in the synthesis setting), and the reported gradient is the exact derivative of half the covariance-weighted squared residual with respect to the sampled parameters. The spherical operators report the matching number of parameters.",
     ["inputs", "configurations"], "all data, samples, settings, errors, measurements (identity, paths, weak lensing with masks), transforms, L, B, J_min, dirs, spin",
     "tests check shapes and one gradient at a fixed configuration",
     ["pxmcmc/forward.py", "pxmcmc/measurements.py", "pxmcmc/transforms.py"], [("ForwardOperator.forward/calc_gradg", "pxmcmc/forward.py")], ["forward()", "calc_gradg()", "nparams"],
     "property-based testing: explicit matrices and exact second-order expansion of the misfit",
     "Gradient checked against explicit matrices (dense) and <A h, C^-1 r> = <h, grad> plus the exact quadratic expansion (spherical). pys2let trusted.")
prop("C09", "Scalar, vector and matrix data errors mean the same Gaussian",
     "A scalar error, a vector of equal errors and the diagonal covariance matrix of their squares give identical gradients and misfits, a full covariance matrix enters through its inverse, and permuting data and errors together permutes the gradient. Errors whose size does not fit the data, and unknown settings, are refused with TypeError or ValueError.",
     ["inputs", "configurations"], "all error specifications, numbers of data, real and complex data",
     "tests use one scalar error",
     ["pxmcmc/forward.py"], [("inverse covariance construction", "pxmcmc/forward.py")], ["calc_gradg()", "logpi()", "constructor exceptions"],
     "differential/metamorphic property-based testing between error spellings",
     "Compares spellings with each other and with numpy's inverse.")
prop("C10", "Measurement operators are linear and adjoint() is their adjoint",
     "For every measurement operator (identity, path integration, weak lensing in harmonic and pixel space with any mask and galaxy counts) forward and adjoint are linear, map between the declared sizes, and satisfy <y, forward(x)> = <adjoint(y), x> for all x and y.",
     ["inputs", "configurations"], "all operators, sizes, masks, galaxy counts, real and complex x and y",
     "dot tests exist for single random vectors of fixed configurations, never with galaxy counts or rectangular identities",
     ["pxmcmc/measurements.py"], [("forward/adjoint of each Measurement", "pxmcmc/measurements.py")], ["forward()", "adjoint()"],
     "property-based testing: adjoint (dot-product) and linearity identities, explicit matrices",
     "Dot tests over generated operators and vectors.")
prop("C11", "Weak lensing: exact kernel, observed pixels only, invertible at l >= 2",
     "The harmonic shear is the convergence times -sqrt((l+2)(l-1)/(l(l+1))) with l < 2 removed, and the Kaiser-Squires estimator inverts it for l >= 2 and is zero below. The pixel operator returns this shear at exactly the unmasked pixels (those where the mask is not zero), weighted by sqrt(2 n_gal)/0.37 where galaxy counts are given. Bandlimits below 1, masks or signals of the wrong shape and NaN pixel signals raise ValueError.",
     ["inputs", "configurations"], "all bandlimits, signals, masks of any dtype, galaxy counts",
     "tests check only dot products, not the kernel, weights, masks or documented errors",
     ["pxmcmc/measurements.py"], [("WeakLensingHarmonic", "pxmcmc/measurements.py"), ("WeakLensing masking and weighting", "pxmcmc/measurements.py")], ["forward()", "adjoint()", "sks_estimate()", "mask_forward()/mask_adjoint()", "constructor"],
     "property-based testing against the closed-form kernel and pyssht",
     "Kernel in closed form; pyssht spin transforms trusted.")
prop("C12", "Spherical wavelet transforms reconstruct exactly and have true adjoints",
     "For every bandlimit, scale parameter, minimum scale, number of directions, spin and for pixel as well as harmonic inputs, the inverse transform of the forward transform returns a band-limited signal exactly, the transforms are linear, the two adjoints are adjoints, and coefficients are laid out scaling first with the advertised counts. The identity transform returns its input.",
     ["inputs", "configurations"], "all L, B, J_min, dirs, spin, pixel/harmonic, and all signals and coefficient vectors",
     "tests use one configuration (two settings) and one random vector; the harmonic mode is not tested",
     ["pxmcmc/transforms.py", "pxmcmc/utils.py"], [("SphericalWaveletTransform", "pxmcmc/transforms.py"), ("flatten_mlm/expand_mlm", "pxmcmc/utils.py")], ["forward/inverse and their adjoints", "ncoefs, nscal, nwav"],
     "property-based testing: round trip, adjoint and linearity identities, differential against pys2let",
     "Values trusted to pys2let; identities independent of it.")
prop("C13", "A prior's proximal map is the proximal map of that prior",
     "For every prior, threshold T and point x, proxf(x) is the unique minimiser over u of |u-x|^2/2 + T*prior(u): in the synthesis setting, in the analysis setting with any row-orthonormal transform, and for the weighted spherical wavelet priors. The prior is a norm (non-negative, homogeneous, subadditive) and proxf is non-expansive and odd.",
     ["inputs", "configurations"], "all points, real and complex, thresholds, transforms, L, B, J_min, decay exponents",
     "tests compare proxf with hand-written answers for three vectors",
     ["pxmcmc/prior.py", "pxmcmc/utils.py"], [("prior/proxf of L1 and subclasses", "pxmcmc/prior.py"), ("soft", "pxmcmc/utils.py")], ["prior()", "proxf()"],
     "property-based testing: strong-convexity optimality inequality at generated competitors",
     "Optimality tested against generated competitors incl. coordinate perturbations and the closed form.")
prop("C14", "Soft and hard thresholding match their definitions",
     "Soft thresholding reduces the modulus of every entry by its threshold keeping sign or phase, gives exactly zero where the modulus does not exceed the threshold, accepts per-entry thresholds and does not modify its input. Hard thresholding keeps exactly the entries whose magnitude is at least that of the floor(T*n)-th largest (none if that count is zero) and zeroes the others.",
     ["inputs"], "all vectors (real, complex, with zeros, ties, values at the threshold) and thresholds/fractions",
     "tests use one vector and one threshold each",
     ["pxmcmc/utils.py"], [("soft", "pxmcmc/utils.py"), ("hard", "pxmcmc/utils.py")], ["soft()", "hard()"],
     "property-based testing against element-wise definitions",
     "Element-by-element reference.")
prop("C15", "Spherical wavelet priors weigh every coefficient as documented",
     "The spherical L1 prior weighs each wavelet coefficient by the exact quadrature weight of its pixel at the resolution of its scale, and the power-weighted prior by 2 pi^2 sin(theta) l_peak^eta / (power * samples) of its scale (eta factor only for wavelets), in the order in which the wavelet transform lays coefficients out; thresholds are T times the same weights. The analysis setting is refused.",
     ["inputs", "configurations"], "all L, B, J_min, T, eta and coefficient vectors",
     "tests use one configuration and compare the prox with itself",
     ["pxmcmc/prior.py", "pxmcmc/utils.py"], [("S2_Wavelets_L1", "pxmcmc/prior.py"), ("S2_Wavelets_L1_Power_Weights", "pxmcmc/prior.py"), ("bandlimits of the scales", "pxmcmc/utils.py"), ("mw_map_weights", "pxmcmc/utils.py")], ["prior()", "proxf()"],
     "property-based testing against independently computed weights",
     "Weights recomputed from pyssht and the wavelet tiling. dirs > 1 and scales without multipoles are known findings.")
prop("C16", "Quadrature on the sphere is exact and pixel areas tile the sphere",
     "Integration of any band-limited function from its samples returns its exact integral, the quadrature weights add up to 4 pi, and products of functions of half the bandlimit integrate to their inner product. Pixel areas are positive, add up to 4 pi r^2 and each is its share of the ring between neighbouring sample rings; rectangle and cap areas are additive and consistent.",
     ["inputs"], "all bandlimits, functions, radii and angles",
     "tests integrate one function at one bandlimit and sum the areas once",
     ["pxmcmc/utils.py"], [("mw_map_weights, weights_theta, mw_weights", "pxmcmc/utils.py"), ("s2_integrate", "pxmcmc/utils.py"), ("calc_pixel_areas, pixel_area, polar_cap_area", "pxmcmc/utils.py")], ["return values"],
     "property-based testing against harmonic coefficients and additivity relations",
     "pyssht trusted for harmonic transforms.")
prop("C17", "Chebyshev polynomials and derivatives are exact for every order and point",
     "For every order n >= 0 and every real point, inside or outside [-1,1], the functions return T_n, U_n and dT_n/dx; negative orders raise ValueError.",
     ["inputs"], "all orders and points, scalars and arrays",
     "tests use a few orders and points",
     ["pxmcmc/utils.py"], [("chebyshev1, chebyshev2, cheb1der", "pxmcmc/utils.py")], ["return values"],
     "property-based testing against numpy.polynomial and trigonometric identities",
     "Orders up to 3000; outside [-1,1] as far as the values fit a double.")
prop("C18", "Packing and unpacking of coefficients lose and reorder nothing",
     "Flattening puts the scaling coefficients first followed by the wavelet coefficients scale by scale, expanding with the number of scales or of scaling coefficients inverts it exactly in both directions, and giving both or neither count raises ValueError.",
     ["inputs"], "all numbers of scales and coefficients, real and complex values, array layouts",
     "tests use one shape of ones",
     ["pxmcmc/utils.py"], [("flatten_mlm, expand_mlm", "pxmcmc/utils.py")], ["return values"],
     "property-based round-trip testing",
     "Exact comparison.")
prop("C19", "Credible intervals and regions describe the samples they are given",
     "The credible interval range of each parameter is the distance between the alpha/2 and 1-alpha/2 quantiles of its samples, independent of sample order, equivariant under shift and scale and non-increasing in alpha; the wavelet version returns one map per scale holding the ranges of that scale's coefficients. The credible region threshold admits the samples of highest log-posterior, a fraction 1-alpha of them to within one sample.",
     ["inputs"], "all chains, log-posterior traces and confidence levels; all L, B, J_min",
     "no test covers this module",
     ["pxmcmc/uncertainty.py"], [("credible_interval_range, wavelet_credible_interval_range", "pxmcmc/uncertainty.py"), ("credible_region_threshold, in_credible_region", "pxmcmc/uncertainty.py")], ["return values"],
     "property-based testing: independent quantiles, counting, metamorphic relations",
     "Real-valued chains. A scale without multipoles is a known finding.")
prop("C20", "A saved run reads back as the run that was saved",
     "Saving writes <outpath>/<filename>.hdf5, replacing any previous file, holding exactly the tracked statistics (plus acceptances and step sizes of PxMALA) bit for bit, and all run parameters and extra keyword arguments as attributes, whatever their size; the run itself is unchanged.",
     ["inputs", "configurations", "histories"], "all samplers, track lists, problems, file names, pre-existing files and extras",
     "no test covers this module",
     ["pxmcmc/saving.py"], [("save_mcmc", "pxmcmc/saving.py")], ["the HDF5 file"],
     "property-based round-trip testing of real runs through the file",
     "h5py trusted for reading. Crash consistency during a save is not promised and not tested.")
prop("C21", "Figures show the data they were given and leave the data alone",
     "A map figure shows the map (harmonically oversampled to bandlimit 256 when asked and coarser than that) with masked pixels blank, its colour limits follow the given limits, the data, or symmetric limits when centred on zero; wavelet figures show one scale each, in order, on a shared colour scale when asked; evolution figures show the three curves and mark a sample of highest log-posterior; healpix views show healpy's projection, each in a figure of its own, printing nothing and drawing no random numbers. No input array is modified.",
     ["inputs", "configurations"], "all maps, masks, limits, flags, L, B, J_min and traces",
     "no test covers this module",
     ["pxmcmc/plotting.py"], [("plot_map, plot_wavelet_maps", "pxmcmc/plotting.py"), ("plot_evolution, plot_chain_sample", "pxmcmc/plotting.py"), ("mollview", "pxmcmc/plotting.py")], ["matplotlib figure contents"],
     "property-based testing of figure contents against independently computed images",
     "Real-valued C-contiguous maps; coastlines need cartopy, which is not installed. pyssht's projection trusted. dirs > 1 and empty scales are known findings.")
prop("C22", "Sky masks, SNR and quiet healpix wrappers",
     "The sky mask is 0 exactly at samples closer than the given width to the Galactic plane or to the equator and 1 elsewhere, so wider masks cover narrower ones; the signal-to-noise ratio is 20 log10 of the ratio of 2-norms; the healpix wrappers return healpy's results, print nothing, and stdout is restored whether or not the wrapped code raises.",
     ["inputs"], "all bandlimits, widths, arrays, and bodies that print or raise",
     "no test covers these functions",
     ["pxmcmc/utils.py"], [("build_mask", "pxmcmc/utils.py"), ("snr, norm", "pxmcmc/utils.py"), ("suppress_stdout, map2alm, alm2map", "pxmcmc/utils.py")], ["return values", "stdout"],
     "property-based testing against spherical trigonometry, definitions and healpy",
     "Pixels within 0.02 degrees of a mask edge are not judged.")
prop("C23", "Operators, priors and samplers keep no memory of earlier calls",
     "Any call on a forward operator, measurement, transform, prior or seeded sampler returns what it returns on freshly built objects, whatever calls and runs came before on objects sharing data, operators, priors or parameters, and whatever the caller does to earlier results; results handed out earlier are not changed by later calls. Calls never modify their arguments, the data, errors, masks or run parameters, and deterministic calls consume no random numbers. Parameter objects do not depend on one another.",
     ["histories"], "all sequences of calls and sampler runs on shared objects",
     "tests call each object once",
     ["pxmcmc/mcmc.py", "pxmcmc/forward.py", "pxmcmc/measurements.py", "pxmcmc/transforms.py", "pxmcmc/prior.py", "pxmcmc/utils.py"], [("absence of shared mutable state", "pxmcmc/")], ["return values", "arguments", "numpy global random state"],
     "model-based (stateful) testing of call histories against fresh objects",
     "Model is the same code freshly instantiated, so only history dependence and mutation are judged here.")

prop("C24", "The shipped experiments solve the problem their command line describes",
     "The three main scripts run from their documented command line for every algorithm, setting they support, bandlimit, wavelet, step-size, mu and noise option, and save exactly one file: its samples are recorded for the problem described by the input files (topography with reproducible pixel-area noise, path data with their errors scaled by the number of simulations, masked lensing data with galaxy-count errors), its misfit, prior and log-posterior belong to its samples and that data, and the options are recorded as attributes. Runs without a fixed seed differ. The plotting scripts draw every figure and save the mean, best sample, credible ranges and differences of the saved samples after burn-in; each figure shows the map or curve it is named after, and credible ranges are labelled with their level.",
     ["inputs", "configurations"], "all command-line options and input files",
     "no test runs the experiments",
     ["experiments/earthtopography/main.py", "experiments/phasevel/main.py", "experiments/weaklensing/main.py"], [("earthtopography main and plot", "experiments/earthtopography/"), ("phasevel main and plot", "experiments/phasevel/"), ("weaklensing main and plot", "experiments/weaklensing/")], ["the saved HDF5 file", "saved summaries and figures", "printed SNR and error"],
     "property-based testing of the scripts end to end against data and statistics rebuilt from the input files",
     "Chains are cut to a few samples; input files are generated; downloads need the network and are not run.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if not k.startswith("_")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']} --tier thorough",
         "evidence_file": f"evidence/{p['id']}.json", "technique": p["_t"], "level": "exploration", "level_note": p["_n"]}
        for p in P
    ],
    "not_applicable": [],
    "notes": "Pure Python: every check imports /repo's working tree directly (no build step). Hypothesis comes from the pre-installed tooling venv; the code under test runs in /opt/venv. See DESIGN.md.",
}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P))
