"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
PA, DI, AN = "kinisi/parser.py", "kinisi/diffusion.py", "kinisi/analyzer.py"
DA, JA, CA, AR = "kinisi/diffusion_analyzer.py", "kinisi/jump_diffusion_analyzer.py", "kinisi/conductivity_analyzer.py", "kinisi/arrhenius.py"

prop("C01", "Periodic unwrapping reproduces the true continuous motion of every atom",
     "For a trajectory given as ASE Atoms, pymatgen Structures or an MDAnalysis Universe in which every atom moves by less than half of each cell vector between consecutive analysed frames, the displacements the parser reports are the true continuous Cartesian displacements of each atom, whichever periodic image of the atom each frame happens to record. This holds for orthorhombic and triclinic cells of any aspect ratio, for any number of boundary crossings and any trajectory length. It also holds when the cell changes size or shape from frame to frame and positions are recorded inside the current cell.",
     ["inputs", "configurations"], "all trajectories (cells, image choices per atom and frame, hop sizes below half a cell vector, NPT cell histories), the three back ends, any frame sub-sampling",
     "The tests unwrap three tiny stored trajectories and mostly assert shapes or indices; no test compares a displacement with an independently known motion through many boundary crossings, triclinic or varying cells.",
     [PA], [("TOR unwrapping (nearest image in the current cell, accumulated)", "kinisi/parser.py:Parser.get_disp"), ("per back-end reading of cell and fractional coordinates", "kinisi/parser.py:*.get_structure_coords_latt")],
     ["parser.dc", "parser.disp_3d"])

prop("C02", "Time intervals: correct units, within limits, unique, spaced as requested",
     "The intervals an analysis reports are strictly increasing whole multiples of the real time between analysed frames (time_step x step_skip x sub_sample_traj), expressed in picoseconds (the pymatgen routes take femtoseconds, the others picoseconds), there are at most n_steps of them and (with two or more mobile atoms) one array of displacements belongs to each. They start at the smallest multiple not below min_dt (by default one frame spacing) and end at the largest multiple not above max_dt (by default as many spacings as there are analysed frames). Between the ends they are evenly spaced for 'linear' and geometrically spaced for 'logarithmic', truncated to whole frames with repeats removed.",
     ["inputs", "configurations"], "all combinations of time_step, step_skip, sub_sample_traj, min_dt, max_dt, n_steps, spacing and trajectory length, including values whose ratio is not exact in floating point, over the back ends",
     "Tests use time_step 1.0 with integer min_dt only; no test uses sub_sample_traj, max_dt, non-representable steps, or checks units of more than one combination.",
     [PA], [("interval grid", "kinisi/parser.py:Parser.get_time_intervals"), ("unit handling and frame sub-sampling", "kinisi/parser.py:ASEParser/PymatgenParser/MDAnalysisParser.__init__")],
     ["parser.delta_t", "analyzer.dt"])

prop("C03", "Each time window contributes its displacement exactly once",
     "With multi-origin sampling, for each reported interval of tau steps every selected atom contributes the displacement over every window of tau steps in the trajectory, each exactly once, and all atoms of one observation refer to the same window. With single-origin sampling each atom contributes exactly one displacement per interval, the one from the start of the trajectory over tau steps. Nothing is dropped, duplicated, truncated or shifted, however many atoms, frames or intervals there are and whichever subset of intervals is requested.",
     ["inputs", "configurations"], "all displacement histories, atom selections, interval grids (linear, logarithmic, n_steps smaller than the trajectory, min_dt above one frame) and both sampling modes",
     "Tests check only array shapes for one multi-origin example; the contents of the observations, their window alignment and single-origin sampling are never examined.",
     [PA], [("window displacement extraction", "kinisi/parser.py:Parser.get_disps")], ["parser.disp_3d"])

prop("C04", "Drift correction removes exactly the framework's mean motion",
     "The motion analysed is that of the mobile atoms relative to the mean position of the framework: any common translation history added to all atoms leaves every result unchanged. The framework is every atom not selected as mobile unless framework_indices names the atoms to use, and an empty framework_indices list (or no remaining atom) switches the correction off. framework_indices are zero-based together with a species name or a flat list of atoms, and one-based together with molecules.",
     ["inputs", "configurations"], "all trajectories and drift histories (including drifts that wrap many cells), all framework choices (default, subset, empty, none left), all selection modes and back ends",
     "Two stored 4-frame examples with one atom are tested; explicit non-empty framework lists are not tested at all.",
     [PA], [("framework average subtraction", "kinisi/parser.py:Parser.correct_drift"), ("framework selection", "kinisi/parser.py:*.get_indices, _get_framework, _get_molecules")], ["parser.dc", "parser.disp_3d", "analyzer.msd"])

prop("C05", "Exactly the requested atoms are analysed, each once and in order",
     "The mobile set is exactly the atoms whose species is the one requested or is in the requested list, or exactly the atoms listed in specie_indices (zero-based, in the order given), or with sub_sample_atoms=k on a Universe the requested species among every k-th atom. Each selected atom appears once, in trajectory order (or in list order), and its displacements are its own. The order in which the atoms are stored does not affect the mean-squared displacement or its uncertainty.",
     ["inputs", "configurations"], "all compositions and interleavings of species, species lists, index lists in any order and length, sub-sampling rates, back ends",
     "Tests assert the index list of a few stored files; they do not check that the displacements belong to the selected atoms, species lists, unordered lists or atom sub-sampling.",
     [PA], [("selection", "kinisi/parser.py:*.get_indices, _get_framework, MDAnalysisParser.get_structure_coords_latt")], ["parser.indices", "parser.disp_3d"])

prop("C06", "Molecules are followed by their true centre of mass across boundaries",
     "When specie_indices is a list of equally long molecules (one-based atom indices), the motion analysed is that of each molecule's centre, weighted by masses when given and unweighted otherwise, relative to the framework. The centre is correct for every molecule that extends over less than half the cell in each direction, wherever the molecule is, however it is cut by the periodic boundaries and whichever image each atom is recorded in. Atoms belonging to no molecule form the default framework.",
     ["inputs", "configurations"], "all molecule sizes, shapes, masses, positions, orientations and image choices in fixed and changing orthorhombic and triclinic cells, back ends, framework choices",
     "Tests check the first-frame centre of one 3-atom molecule per back end; boundaries, several molecules, motion over time and framework handling are not covered.",
     [PA], [("pseudo-centre-of-mass", "kinisi/parser.py:_get_molecules")], ["parser.disp_3d", "parser.dc"])

prop("C07", "All input routes give the same analysis of the same trajectory",
     "The same physical trajectory presented as ASE Atoms, pymatgen Structures, an Xdatcar object, an XDATCAR file or an MDAnalysis Universe yields the same intervals, mean-squared quantities, uncertainties, displacement distributions and cell volume, up to the precision of the input format. This holds for the diffusion, jump-diffusion and conductivity analyses alike and with frame sub-sampling. The reported volume is that of the first analysed frame's cell.",
     ["inputs", "configurations"], "all trajectories and parser settings, every route and analyzer class",
     "test_analyze.py compares shapes per route on different stored files and cannot even be collected without a missing data file; no test compares routes with one another.",
     [PA, AN, DA, JA, CA], [("five front ends per analyzer", "kinisi/analyzer.py:Analyzer._from_*"), ("unit and coordinate conversion", "kinisi/parser.py")], ["analyzer.dt", "analyzer.msd/mstd/mscd", "analyzer.*_std", "analyzer.dr", "analyzer.volume"])

prop("C08", "MSD, MSTD and MSCD are the defined averages over the requested axes",
     "At each interval the diffusion analysis reports the mean over atoms and windows of the squared displacement, the jump-diffusion analysis the mean over windows of the squared total displacement of the mobile atoms, and the conductivity analysis the mean over windows of the squared charge-weighted total displacement, each using only the Cartesian axes named in dimension (any subset of xyz, either case). Ionic charges may be one number or one value per mobile ion, in the order of the ions. The diffusion analysis covers every interval, the other two the first half of them.",
     ["inputs", "configurations"], "all displacement sets (numbers of atoms, windows, intervals), the seven axis choices, scalar and per-ion charges of either sign, interval sub-sampling",
     "Tests check sizes or positivity of the results on random data for a single set of shapes; values are not compared with the definition and dimension is not exercised for collective quantities.",
     [DI, DA, JA, CA], [("estimators", "kinisi/diffusion.py:MSDBootstrap/MSTDBootstrap/MSCDBootstrap.__init__")], ["bootstrap.n", "bootstrap.dt", "analyzer.msd", "analyzer.mstd", "analyzer.mscd"])

prop("C09", "Reported uncertainties use the number of independent observations",
     "The squared standard deviation reported at an interval is the sample variance (n-1 normalisation) of the observed quantity divided by the number of independent observations. For multi-origin sampling that number is the longest analysed interval divided by the interval, times the number of mobile atoms for the MSD (not for the collective quantities); for single-origin sampling it is the number of mobile atoms. Observations of identical trajectories add up, and sub_sample_dt=k keeps every k-th interval together with its own displacements and its own number of observations.",
     ["inputs", "configurations"], "all displacement sets, sampling modes, interval grids, numbers of identical trajectories, sub_sample_dt values and axis choices",
     "Tests only check that variances exist and are positive, with a constant observation count that hides any misalignment.",
     [DI, PA, AN], [("variance of the mean", "kinisi/diffusion.py:MSD/MSTD/MSCDBootstrap"), ("independent observation counts", "kinisi/parser.py:Parser.get_disps")], ["bootstrap.v", "bootstrap.s", "bootstrap.n_i", "analyzer.msd_std/mstd_std/mscd_std"])

prop("C10", "The covariance used for fitting is the random-walk covariance, well conditioned",
     "The covariance matrix of a fit covers exactly the intervals not shorter than start_dt, is symmetric and positive semi-definite, and for intervals i <= j equals variance_i x observations_i / observations_j, with eigenvalues below (largest eigenvalue)/cond_max raised to that value. With model=True the variances are first replaced by the least-squares fit of a constant times interval^2/observations. Its condition number therefore does not exceed a moderate cond_max, whatever the data.",
     ["inputs", "configurations"], "all variance and observation-count profiles (smooth, noisy, non-positive-definite), start_dt, cond_max and model settings, MSD/MSTD/MSCD",
     "Tests check only that a matrix exists and that one random matrix is changed by reconditioning.",
     [DI], [("populate, recondition, nearest PSD", "kinisi/diffusion.py:Bootstrap.generate_covariance_matrix, _populate_covariance_matrix, minimum_eigenvalue_method")], ["bootstrap.covariance_matrix"])

prop("C11", "The fitted line's samples follow the GLS posterior of the diffusive regime",
     "The gradient and intercept samples are drawn from the Gaussian likelihood of a straight line under the reported covariance matrix, restricted to intervals not shorter than start_dt and to non-negative gradients: their mean and spread agree with the closed-form generalised-least-squares solution and data before start_dt have no influence. The intercept is reported if and only if it was fitted, and otherwise the line passes through the origin. The number of samples is n_walkers x floor(n_samples/thin), gradient and intercept of one sample belong together, and burn-in is discarded.",
     ["inputs", "configurations", "histories"], "all mean-squared curves and uncertainty profiles, start_dt, fit_intercept, model, cond_max, n_samples, n_walkers, n_burn, thin, repeated fits on one object",
     "Tests check that fitting runs and sample counts for one setting; no test compares the samples with the posterior they claim to represent.",
     [DI], [("likelihood and sampler", "kinisi/diffusion.py:Bootstrap.bootstrap_GLS")], ["bootstrap.gradient", "bootstrap.intercept", "bootstrap.flatchain", "analyzer.flatchain"])

prop("C12", "D, D_J and conductivity are the fitted gradient in the documented units",
     "Sample by sample the self-diffusion coefficient is gradient/(2 d) in cm^2/s for d analysed axes, the jump-diffusion coefficient is additionally divided by the number of mobile atoms analysed, and the conductivity is gradient/(2 d) x e^2/(V k_B T) in mS/cm with V the cell volume and T the temperature given. Scaling all positions by a scales D by a^2 and scaling the time step by b scales it by 1/b. Analysing several replicas together (dtype 'identical') estimates the same D, D_J and conductivity as one of them, not a multiple.",
     ["inputs", "configurations"], "all gradients, axis choices, numbers of atoms, temperatures, volumes, charges, numbers of identical trajectories, length and time scales",
     "Tests check that a positive number of samples comes out; unit conversions, dimensionality and replica normalisation are not asserted.",
     [DI, DA, JA, CA, AN], [("conversions", "kinisi/diffusion.py:Bootstrap.diffusion/jump_diffusion/conductivity"), ("replica stacking", "kinisi/analyzer.py:_stack_trajectories, kinisi/conductivity_analyzer.py")], ["analyzer.D", "analyzer.D_J", "analyzer.sigma", "analyzer.distribution"])

prop("C13", "On random walks the estimates are unbiased and the uncertainties calibrated",
     "For simulated random walks with known diffusion coefficient, analysed with default fitting settings in the diffusive regime, the estimate D is unbiased (its median over many walks agrees with the truth up to finite-length effects of a few per cent) and its typical deviation from the truth is statistically consistent with the standard deviation it reports. The same holds for the jump-diffusion coefficient and the conductivity of independent walkers. Reported MSD values scatter around the true 2 d D t consistently with their reported standard deviations.",
     ["inputs", "configurations"], "ensembles of random walks of different lengths, atom numbers, step sizes, axis choices and routes",
     "A calibration statement is about the distribution of results over many trajectories; unit tests see single stored trajectories without known truth.",
     [DI, PA, AN], [("whole pipeline", "parser -> uncertainty -> GLS")], ["analyzer.D", "analyzer.D_J", "analyzer.sigma", "analyzer.msd", "analyzer.msd_std"])

prop("C14", "A given random_state makes results reproducible; progress has no effect",
     "Two analyses of the same data with equal random_state give bit-identical samples (bootstrap resamples, fitted chains, and posterior predictive samples drawn directly afterwards), whatever the state of the global random generator, whatever was analysed before, and in a fresh process. Turning progress bars on or off changes no result. Different seeds give different fitted chains.",
     ["histories", "configurations", "inputs"], "all data, analyzers, fitting and uncertainty options, prior generator states and prior analyses, processes with different hash seeds",
     "Two tests repeat a call in the same process with the same state; no test perturbs the global generator, progress, process or history.",
     [DI], [("seeding", "kinisi/diffusion.py:Bootstrap.bootstrap_GLS, _bootstrap, sample_until_normal")], ["analyzer.flatchain", "analyzer.D", "bootstrap samples", "posterior_predictive"])

prop("C15", "Saving, loading and dictionaries preserve every result at every stage",
     "An analyzer saved and loaded, or converted to a dictionary and back, at any stage (before fitting, after fitting, after refitting, with or without intercept, with bootstrap distributions, any axis choice and sub-sampling) reports exactly the same results, and continuing the analysis on the restored object gives the same outcome as on the original. save writes <name>.hdf replacing only a file extension of the final path component, load accepts the same name, and an existing file is never overwritten: save raises and leaves it untouched. Saving does not change the analyzer.",
     ["histories", "inputs", "configurations"], "all analyzers, stages, options, numbers of intervals (more than 10 and 100), file names with dots, directories, relative paths",
     "The persistence tests live in the file that cannot be collected and compare a few attributes of one default analysis.",
     [AN, DI, DA, JA, CA], [("HDF5 conversion", "kinisi/analyzer.py:_dict_to_group, _group_to_dict, save, load"), ("dictionary forms", "kinisi/diffusion.py:Bootstrap.to_dict/from_dict")], ["analyzer public properties before and after", "files on disk"])

prop("C16", "Posterior predictive samples combine parameter and data uncertainty",
     "posterior_predictive returns n_posterior_samples x n_predictive_samples rows over the intervals not shorter than start_dt, distributed as a fitted line (gradient and intercept drawn together from the samples) plus Gaussian noise with the reported covariance. The distribution property equals, for every interval and every sample, gradient x interval + intercept of that same sample. Both work with and without a fitted intercept and on loaded analyses.",
     ["inputs", "configurations"], "all fitted analyses, start_dt, sample counts, with and without intercept, before and after loading",
     "Only the shape is tested, for one configuration.",
     [DI, AN], [("predictive sampling", "kinisi/diffusion.py:Bootstrap.posterior_predictive"), ("line distribution", "kinisi/analyzer.py:Analyzer.distribution")], ["analyzer.posterior_predictive", "analyzer.distribution"])

prop("C17", "Arrhenius and VTF relations: correct law, posterior and extrapolation",
     "StandardArrhenius and SuperArrhenius describe D(T) = A exp(-Ea/(kB T)) and A exp(-Ea/(kB (T - T0))) with energies in eV and temperatures in K; their maximum-likelihood and sampled parameters recover the parameters that generated the data within the stated uncertainty, and the maximum-likelihood parameters and the prior respect the bounds. distribution and extrapolate evaluate the law for every posterior sample with its own parameters, at the fitted or any other temperature. The default upper bound of T0 is the first temperature of the data being analysed, independent of earlier objects, and given bounds are neither altered nor ignored.",
     ["inputs", "histories"], "all temperature grids, parameter values, error sizes, bounds, orders of construction",
     "Tests use one temperature grid and check types and a loose maximum-likelihood value; no test constructs two objects in sequence or checks extrapolation pairing.",
     [AR], [("laws and wrappers", "kinisi/arrhenius.py")], ["activation_energy", "preexponential_factor", "T0", "distribution", "extrapolate", "bounds"])

prop("C18", "The memory limit is enforced before displacements are stored",
     "If the displacement arrays an analysis with multi-origin sampling would hold need more than memory_limit gigabytes (10^9 bytes), parsing raises MemoryError instead of allocating them, and if they need less, parsing proceeds. The size counted is that of all displacement values of the selected atoms over all requested intervals at the precision of the input. Intervals, sub-sampling and atom selection reduce it accordingly.",
     ["inputs", "configurations"], "all numbers of atoms, frames, intervals and selections, limits just above and just below the true size, back ends and precisions",
     "The memory limit is not tested at all.",
     [PA], [("size accounting", "kinisi/parser.py:Parser.get_disps")], ["MemoryError", "bytes of parser.disp_3d", "peak allocation"])

prop("C19", "Inputs are never modified and analyses do not influence one another",
     "Analysing a trajectory changes neither the frames, structures, universes, index lists, charges, parameter dictionaries nor arrays passed in. Results depend only on the inputs of that call: repeating an analysis, interleaving it with others, reusing the same parameter dictionaries and objects, or refitting one object with other settings gives the same result as doing it alone on fresh objects. A refit replaces the earlier fit completely.",
     ["histories", "inputs"], "all sequences of analyses, fits, saves and queries over shared inputs and objects",
     "Tests build each object once; shared inputs and operation sequences are not exercised.",
     [PA, DI, AN, DA, JA, CA], [("value semantics of the pipeline", "whole package")], ["digests of inputs before and after", "results of interleaved versus isolated runs"])

prop("C20", "Invalid requests are rejected with an error, not analysed as something else",
     "An unknown spacing, sampling mode, trajectory dtype or axis choice, a species that does not occur, a missing selection, a min_dt not shorter than the trajectory, molecules of unequal length, masses not matching the molecule, or atom sub-sampling combined with index selection raises an error. No analyzer object is produced in these cases. The error is raised by every analyzer class and route that accepts the option.",
     ["inputs", "configurations"], "all invalid option values on otherwise valid inputs, every route and analyzer",
     "A few of these are tested on one class in the file that cannot be collected.",
     [PA, AN, DI], [("validation", "kinisi/parser.py, kinisi/analyzer.py, kinisi/diffusion.py")], ["exceptions at the API boundary"])

prop("C21", "Bootstrap resampling and blocking report consistent statistics",
     "With bootstrap=True each interval gets at least n_resamples resampled means, each the mean of as many draws (with replacement) from the observations as there are independent observations, so their mean and variance agree with the observed mean and variance/observations; resampling stops once they are normal or max_resamples is reached. With block=True the reported mean and variance are the mean and squared standard error of the optimal reblocking of the observations. Switching bootstrap on does not change the reported mean-squared values or their standard deviations.",
     ["inputs", "configurations"], "all displacement sets, observation counts, resample settings, axis choices, the three quantities",
     "Tests check sample counts only.",
     [DI], [("resampling", "kinisi/diffusion.py:Bootstrap.sample_until_normal, _bootstrap"), ("blocking", "kinisi/diffusion.py:MSD/MSTD/MSCDBootstrap")], ["bootstrap.to_dict()['distributions'], n_bootstrap, s_bootstrap, v_bootstrap", "bootstrap.n", "bootstrap.v"])

prop("C22", "Displacement distributions and the non-Gaussian maximum are the data's own",
     "For every reported interval dr holds the lengths (over the requested axes) of exactly the displacements observed at that interval, one per atom and window. ngp_max is the interval at which <r^4>/<r^2>^2 of those lengths is largest, and for three axes the non-Gaussian parameter itself is 3<r^4>/(5<r^2>^2) - 1. This holds for all three analyses, with interval sub-sampling and after loading.",
     ["inputs", "configurations"], "all displacement sets including strongly non-Gaussian ones, axis choices, sub-sampling, the three analyzers",
     "One test checks the NGP of a fixed array; dr contents and ngp_max are not compared with the data.",
     [DI, AN], [("NGP and Euclidean displacements", "kinisi/diffusion.py:Bootstrap.ngp_calculation"), ("ngp_max", "kinisi/analyzer.py")], ["analyzer.dr", "analyzer.ngp_max", "bootstrap.ngp"])

prop("C23", "Consecutive pieces join and identical replicas pool without loss",
     "A trajectory cut into consecutive pieces and passed with dtype 'consecutive' gives the same analysis as the whole. Trajectories passed as 'identical' contribute all of their own displacements at every interval exactly once and in their own units: the reported MSD is the average of the single-trajectory MSDs, the displacement distributions are the union, the independent observations add up, and the conductivity analysis averages the MSCD of the cells. This holds for any number of pieces or replicas on every route that accepts them.",
     ["inputs", "configurations"], "all ways of cutting a trajectory, one to many replicas with different histories and drifts, routes and analyzers",
     "Tests pass the same trajectory twice and check shapes, in the file that cannot be collected.",
     [AN, CA], [("dtype handling", "kinisi/analyzer.py:Analyzer._from_*, _stack_trajectories")], ["analyzer.msd/mstd/mscd and *_std", "analyzer.dr", "analyzer.to_dict()['n_o']"])

prop("C24", "Results respect the symmetries of the problem",
     "Shifting a constant-cell trajectory by any constant vector, permuting the Cartesian axes (with the requested dimension), mirroring or rotating it, relabelling the cell vectors, reordering the atoms (with indices and charges), or doubling the cell changes nothing but what the symmetry says. Measuring lengths or times in another scale rescales intervals, mean-squared values, uncertainties, volume and covariance by exactly the corresponding factors. This holds on every route, for every analysis and for every axis choice.",
     ["inputs", "configurations"], "all pairs of a trajectory and its transformed copy, routes, analyses, axis choices, interval settings, constant and varying cells",
     "Tests see a few stored trajectories in one orientation, origin, atom order and unit scale.",
     [PA, DI, AN], [("whole pipeline", "parser -> analyzer -> uncertainty")], ["analyzer.dt, msd/mstd/mscd, *_std, dr, ngp_max, volume, to_dict()['n_o']", "covariance_matrix"])

prop("C25", "Users are warned exactly when an assumption is not met",
     "Every parse of a trajectory in which the cell vectors of some analysed frame do not lie along x, y and z issues a UserWarning about the triclinic cell, and no such warning is issued when all of them do, on every route and call. Every parse through a pymatgen route notes that time_step is in femtoseconds, and no other route does. With bootstrap=True there is one warning for each interval whose resampled means fail the normality test after max_resamples, and none for the others.",
     ["inputs", "configurations"], "all cells and histories of cells, routes, selections, sub-sampling; all displacement sets and resampling settings",
     "No test checks when warnings are issued.",
     [PA, DI], [("cell warning", "kinisi/parser.py:Parser.get_disp"), ("normality warning", "kinisi/diffusion.py:Bootstrap.sample_until_normal")], ["warnings issued while parsing and resampling"])

prop("C26", "Options left out behave as their documented defaults",
     "Leaving out an option of a parser, an uncertainty class, a fit, the predictive sampling or an Arrhenius relation gives exactly the results of stating its documented default: 100 intervals, linear spacing, multi-origin sampling, every frame and atom, one step as shortest and the whole simulation as longest interval, 8 GB, all other atoms as framework; every interval, no bootstrap, no blocking, 1000 resamples, xyz, alpha 1e-3; cond_max 1e16, a fitted intercept, 1000 samples of 32 walkers after 500, thinned by 10; as many posterior samples as there are with 256 predictions each; a charge of one; the stated bounds; progress bars shown. Leaving out a whole dictionary of parameters, passing None or an empty one is the same. This holds on every route and class and whatever the other options are. (Not covered, as documentation and code disagree: model, max_resamples.)",
     ["inputs", "configurations"], "all options, all values of the other options, data sets, routes, classes; None, empty and absent dictionaries",
     "Tests pass most options explicitly, or do not look at what depends on them; the analyzer tests cannot be collected.",
     [PA, DI, AN, "kinisi/arrhenius.py"], [("parser defaults", "kinisi/parser.py:*.__init__"), ("uncertainty and fit defaults", "kinisi/diffusion.py:*Bootstrap.__init__, bootstrap_GLS, posterior_predictive"), ("analyzers", "*_analyzer.py:from_*, diffusion, jump_diffusion, conductivity"), ("Arrhenius bounds", "kinisi/arrhenius.py:*.__init__")], ["everything the parsers, estimates, fits and relations expose", "what is printed"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
