"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Frequency grid and unit conversions are exact",
 "For every ordered wavelength range and number of frequencies N, the computed frequency points are N increasing values running from one over the longest to one over the shortest wavelength (in micrometres), equally spaced for the linear and in constant ratio for the logarithmic distribution, and any other distribution name is rejected with a ValueError. The physical wavelengths reported with them are, point by point, the wavelength in metres of that same frequency. The unit conversion helpers are inverse to each other for every non-zero argument.",
 ["inputs", "configurations"], "all wavelength ranges 0 < min < max, all N >= 1, both distributions, all non-zero scalars or arrays for the conversions",
 "target_frequency_test checks two concrete configurations; every other range, count and distribution is unsampled",
 ["nidn/trcwa/compute_target_frequencies.py", "nidn/trcwa/get_frequency_points.py", "nidn/utils/convert_units.py", "nidn/utils/global_constants.py"],
 [("linspace/logspace between the reciprocal bounds, then sort", "compute_target_frequencies"), ("c/f and 1/f conversions", "convert_units.py")],
 ["compute_target_frequencies", "get_frequency_points"])

prop("C02", "Config validation accepts exactly the well-formed configs",
 "Validation returns normally exactly when all required entries are present, no unknown entry is present, every entry has its documented type, and every documented range and ordering rule (including element-wise positivity of layer thicknesses and source position and non-negativity of the target spectra) holds. Otherwise it raises KeyError for a missing or unknown entry, TypeError for a wrong type and RuntimeError for a value out of range. It never modifies the config.",
 ["inputs", "configurations"], "all configs: any subset of keys, any type per key, any value per key, any list length",
 "the only test validates the unmodified default config; no rejected config is ever tried",
 ["nidn/utils/validate_config.py", "nidn/utils/resources/default_config.toml"],
 [("key, type and range checks", "_validate_config")], ["_validate_config", "compute_spectrum", "run_training"])

prop("C03", "RCWA spectra pair each frequency with its own permittivity",
 "Computing a spectrum with the RCWA solver returns a reflectance list and a transmittance list, in that order and with one entry per target frequency, where entry k depends only on frequency k and the permittivity slice k, with the layers stacked top to bottom in index order between the configured top and bottom media and each given its own configured thickness (or the single shared one). A permittivity grid containing NaN raises ValueError, and a grid whose shape disagrees with the config is rejected. Neither the grid nor the config is modified.",
 ["inputs", "configurations"], "all grids (any Nx, Ny, layers, frequencies), thickness lists of length 1 or one per layer, all top/bottom media",
 "trcwa_test runs a few fixed stacks; it never permutes frequencies or layers, uses per-layer thicknesses, or passes NaN",
 ["nidn/utils/compute_spectrum.py", "nidn/trcwa/compute_spectrum_trcwa.py", "nidn/trcwa/init_trcwa.py", "nidn/trcwa/trcwa.py"],
 [("per-frequency loop", "compute_spectrum_trcwa"), ("layer stack assembly", "_init_trcwa"), ("layer bookkeeping", "TRCWA.Add_LayerUniform/Add_LayerGrid/Init_Setup/GridLayer_geteps")],
 ["compute_spectrum"])

prop("C04", "RCWA solutions satisfy Maxwell's interface conditions",
 "For every stack and frequency, the mode amplitudes the RCWA solver computes make the tangential electric and magnetic fields continuous across every interface, with the prescribed incident wave and nothing incident from the back, and every mode decaying (never growing) away from its interface. The reported reflectance and transmittance are the time-averaged power fluxes of exactly these amplitudes divided by the incident flux, and the amplitudes and Fourier fields reported for a layer and depth are those of the same solution. Consequently, a lossless uniform stack reflects and transmits all power and a stack of uniform layers reproduces the analytic thin-film result.",
 ["inputs"], "all numbers of layers and Fourier orders, all invertible mode matrices, all thicknesses, frequencies and permittivities",
 "three fixed stacks are compared with stored numbers; the interface conditions are never checked as equations",
 ["nidn/trcwa/trcwa.py", "nidn/trcwa/utils/torch_functions.py"],
 [("Redheffer recursion", "GetSMatrix"), ("outgoing amplitudes", "SolveExterior"), ("power flux", "GetZPoyntingFlux"), ("branch choice", "SolveLayerEigensystem_uniform/SolveLayerEigensystem"), ("transverse operator", "MakeKPMatrix")],
 ["TRCWA.RT_Solve"])

prop("C05", "Reciprocal lattice and Fourier factorisation of patterned layers",
 "For every non-degenerate lattice the reciprocal vectors are dual to the lattice vectors, and the Fourier orders kept are distinct, at least one and at most the requested number, ordered by length starting with the zeroth, and contain every order shorter than any order kept. For every grid fine enough to resolve the kept orders (order differences below the grid size), the permittivity operator of a patterned layer is, entry by entry, the discrete Fourier coefficient of the grid at the difference of the two orders, whatever the sign of the permittivity (entries below 1e-14 may be rounded to zero), and its companion is the inverse. A grid that is constant in the plane therefore gives the same spectrum as the equivalent uniform layer.",
 ["inputs"], "all lattices, truncation orders, grid sizes and permittivity grids",
 "the tests use one square lattice, one truncation order and positive permittivities",
 ["nidn/trcwa/utils/kbloch.py", "nidn/trcwa/utils/fft_funs.py", "nidn/trcwa/trcwa.py"],
 [("reciprocal basis", "Lattice_Reciprocate"), ("circular truncation", "Gsel_circular"), ("in-plane wave vectors", "Lattice_SetKs"), ("convolution matrix", "get_conv/Epsilon_fft")],
 ["TRCWA.Init_Setup", "TRCWA.GridLayer_geteps"])

prop("C06", "FDTD time step is the lossy Yee update in every cell",
 "One FDTD time step changes every cell of the electric field, then of the magnetic field, by exactly the leap-frog discretisation of Maxwell's curl equations with that cell's permittivity, permeability and conductivity loss factor, with the difference taken only where the neighbour exists. Boundaries, then sources, then detectors act once per half step, after the field update, and running for n steps performs exactly n such steps. With zero loss and zero fields and no sources, the fields stay zero.",
 ["inputs", "histories"], "all grid shapes, all field and material values, all numbers of steps",
 "fdtd_test compares aggregate R/T on single wavelengths with loose tolerances; no cell update is checked",
 ["nidn/fdtd/grid.py", "nidn/fdtd/objects.py"],
 [("discrete curls", "curl_E/curl_H"), ("field updates", "Grid.update_E/update_H/step/run")],
 ["Grid.E", "Grid.H"])

prop("C07", "FDTD grid is stable and its boundaries only absorb or wrap",
 "Every FDTD grid uses a time step within the Courant limit of its dimensionality and rejects a larger one with ValueError. Every absorbing layer has decay factors in (0,1], non-positive coupling factors, a loss that grows monotonically towards the grid edge and vanishes outside the layer, and applies the convolutional PML recursion to exactly the cells it covers. A periodic boundary makes the two opposite faces identical after every half step, by copying the face whose update saw both neighbours, and changes no other cell.",
 ["inputs", "configurations"], "all grid shapes, spacings, courant numbers, PML thicknesses and sides, all field values",
 "the tests only run one PML/periodic combination and check that a spectrum comes out",
 ["nidn/fdtd/grid.py", "nidn/fdtd/boundaries.py"],
 [("CFL", "Grid.__init__"), ("PML coefficients and recursion", "PML and subclasses"), ("periodic copy", "_PeriodicBoundaryX/Y/Z")],
 ["Grid.time_step", "Grid.E", "Grid.H"])

prop("C08", "FDTD scene realises the configured layer stack",
 "The FDTD scene built for a config places the layers contiguously and in order directly behind the front absorber and free space, each with its own permittivity and with the conductivity that reproduces its imaginary permittivity at the simulated frequency, and leaves every other cell vacuum. Both absorbers have the configured thickness, the reflection detector lies in the free space before the stack and the transmission detector in the free space behind it, each at the configured distance (which must be smaller than the free space), and the free-space scene differs only in having no layers. Source position, period and signal are those of the config and wavelength.",
 ["inputs", "configurations"], "all valid configs (thicknesses, scalings, numbers of layers, source kinds), all permittivities and wavelengths",
 "tests check object counts for one or two configurations, not positions or material values",
 ["nidn/fdtd_integration/init_fdtd.py", "nidn/fdtd/objects.py", "nidn/fdtd/grid.py", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py"],
 [("scene assembly", "init_fdtd"), ("material write-in", "Object/AbsorbingObject._register_grid"), ("scaling", "_compute_fdtd_grid_scaling")],
 ["init_fdtd"])

prop("C09", "R and T coefficients follow from the recorded signals",
 "For every set of recorded signals, the transmission (reflection) coefficient is the mean square of the steady-state part of the material signal (of the material minus free-space signal) divided by that of the free-space signal, taken between the first and the last peak, and the steady-state part is always a suffix of the recorded signal. Coefficients whose sum exceeds one by less than five percent are rescaled to sum to one keeping their ratio, and all others are returned unchanged. A vanishing free-space signal is rejected with ValueError.",
 ["inputs"], "all signal lengths and values, all wavelengths and grid resolutions",
 "one test with one pair of sine signals",
 ["nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py"],
 [("transient removal", "_eliminate_transient_part"), ("peak search and ratios", "_peak_based_coefficient_computation"), ("normalisation", "_check_and_normalize_coefficients")],
 ["calculate_transmission_reflection_coefficients"])

prop("C10", "FDTD spectra compare matching runs per wavelength",
 "Computing a spectrum with the FDTD solver returns a reflection list and a transmission list, in that order, with one entry per frequency point, each obtained from one free-space run and one material run at that wavelength with that wavelength's permittivity slice and the configured number of steps. A single shared layer thickness means that thickness for every layer. The signal used is the detector's z component of the electric field averaged over the detector points at each recorded step.",
 ["inputs", "configurations"], "all numbers of frequencies, layers, steps, permittivity grids and detector recordings",
 "tests use at most a couple of wavelengths and never distinguish which slice or signal was used",
 ["nidn/fdtd_integration/compute_spectrum_fdtd.py", "nidn/utils/compute_spectrum.py", "nidn/fdtd_integration/compute_fdtd_grid_scaling.py"],
 [("per-wavelength loop", "compute_spectrum_fdtd"), ("detector average", "_average_along_detector")],
 ["compute_spectrum"])

prop("C11", "Material permittivities come from the nearest tabulated wavelength",
 "For every material in the database and every requested frequency the stored permittivity is (n + ik) squared of the tabulated entry whose wavelength is nearest to one over that frequency. The permittivity table has one row per material and one column per frequency, for any number (including one) of either, and looking a material up by name returns that material's row. Skipped or unknown names raise KeyError, and an empty frequency list raises ValueError.",
 ["inputs", "configurations"], "all tables, all frequency lists of any length, all skip lists, all names",
 "one test compares one material at a few frequencies",
 ["nidn/materials/material_collection.py", "nidn/trcwa/load_material_data.py"],
 [("nearest entry and squaring", "MaterialCollection._load_material_data"), ("stacking and lookup", "MaterialCollection")],
 ["MaterialCollection"])

prop("C12", "Layer builder fills exactly the described shape",
 "A built layer has one permittivity vector per grid point, equal to the shape material's spectrum at points strictly inside the described square or circle (coordinates equally spaced over the unit square, endpoints included) and to the background material's spectrum everywhere else. A uniform layer has the background spectrum everywhere. Building one layer does not affect layers built before.",
 ["inputs"], "all grid sizes, numbers of frequencies, materials, radii, sizes and centres",
 "no test covers the layer builder's geometry",
 ["nidn/materials/layer_builder.py", "nidn/materials/material_collection.py"],
 [("mask construction", "LayerBuilder.build_*_layer")], ["LayerBuilder"])

prop("C13", "Closest material is a true minimiser",
 "For every permittivity grid the reported distance at a point is the smallest, over all materials in the database, of the frequency-averaged absolute difference between the grid and that material's permittivity, and the reported index is a material attaining it. A grid made of database materials is recovered exactly. The input grid is not modified.",
 ["inputs"], "all grids, all collections, all numbers of frequencies",
 "no test calls it",
 ["nidn/materials/find_closest_material.py", "nidn/materials/material_collection.py"],
 [("distance table, mean and argmin", "_find_closest_material")], ["_find_closest_material"])

prop("C14", "Regression grids have the configured shape and range",
 "For every model and config the regression permittivity grid has the configured number of points, layers and frequencies, and every real and imaginary part lies in its configured range, except that real parts are kept at least 0.01 away from zero when that option is on. A network output of 0 maps to the lower and 1 to the upper end of the range, linearly in between, and with oversampling every block of neighbouring points shares the value of one network sample. A voxel model's own values are passed through, clipped to the range.",
 ["inputs", "configurations"], "all network outputs, all ranges (including non-zero lower imaginary bound), all oversampling factors and sizes, noise on or off",
 "two tests check shapes for one configuration with a zero lower imaginary bound",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/training/utils/voxel.py"],
 [("range mapping", "_regression_model_to_eps_grid"), ("zero avoidance", "_avoid_zero_eps")], ["model_to_eps_grid"])

prop("C15", "Classification grids are convex mixtures of materials",
 "For every model and config the material weights at each grid point and layer are positive, sum to one, order the materials as the frequency-averaged network outputs do, and do not change when all outputs at that point are shifted by the same amount. The permittivity at each frequency is the weighted sum of the materials' permittivities with exactly these weights (real parts then kept 0.01 away from zero if configured). Oversampled points share the weights of their network sample.",
 ["inputs", "configurations"], "all network outputs, all collections, grid sizes, oversampling factors, any number of frequencies",
 "one test checks the shape for one configuration",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/materials/material_collection.py"],
 [("sharpened softmax and mixture", "_classification_model_to_eps_grid")], ["model_to_eps_grid"])

prop("C16", "Training losses measure the distance to the targets",
 "For all spectra the spectrum loss is the mean over frequencies and over the compared channels of the absolute deviation raised to the given exponent, is zero exactly when the produced spectra equal the targets, and first rescales reflectance and transmittance to sum to one, keeping their ratio, at exactly those frequencies where their sum exceeds one, reporting whether this happened. The likelihood regularisation is the mean distance of the material weights to the nearer of zero and one (raised to the exponent), hence zero exactly for one-hot weights. The produced spectra are not modified.",
 ["inputs"], "all spectra lengths and values, all exponents, absorption channel on or off",
 "training_test only checks that a short training run reduces the loss",
 ["nidn/training/losses/spectrum_loss.py", "nidn/training/losses/likelihood_regularization_loss.py"],
 [("loss accumulation and renormalisation", "_spectrum_loss_fn"), ("distance to one-hot", "_likelihood_regularization_loss_fn")], ["run_training"])

prop("C17", "Training keeps the best physical model and survives bad steps",
 "After any training run the model holds the parameters of the (earliest) iteration with the lowest loss among those whose spectrum was physical (no renormalisation needed), or the initial parameters if there was none, and the stored best parameters are not changed by later optimisation steps. A ValueError in the spectrum computation at any iteration never ends the run: the best parameters are restored, the learning rate is halved, and nothing is logged for it. Every other iteration adds exactly one entry to each of the loss logs, the loss being the spectrum loss plus, for classification with regularisation, the weighted regularisation term.",
 ["histories", "fault_sequences", "configurations"], "all numbers of iterations, all loss histories, all subsets of iterations that fail or renormalise, both problem types",
 "the tests train a few iterations on well-behaved problems",
 ["nidn/training/run_training.py"],
 [("best-state bookkeeping, recovery, logs", "run_training"), ("setup order", "_init_training")],
 ["run_training"], [("best_model_state_dict", "parameters of the best physical iteration so far", "run_cfg")])

prop("C18", "FDTD sources and detectors act only where and as configured",
 "At every time step a point or line source changes only the z component of the electric field of the cells it occupies, adding the sample of its configured waveform (sine, windowed or Ricker pulse) for that time, with line sources weighted by their normalised profile. Line and block detectors record the electric and the magnetic field at exactly their cells once per time step, in order, as a copy later steps do not alter, and never change any field. Registering either outside the allowed kind of location raises an error.",
 ["inputs", "histories"], "all positions, periods, amplitudes, waveforms, time steps and field values",
 "tests only count sources and detectors and check one aggregate spectrum",
 ["nidn/fdtd/sources.py", "nidn/fdtd/detectors.py", "nidn/fdtd/waveforms.py"],
 [("source update", "PointSource/LineSource"), ("recording", "LineDetector/BlockDetector"), ("waveforms", "waveforms.py")],
 ["Grid.E", "detector_values()"])

prop("C19", "Networks are queried once per cell at its own coordinates",
 "Every permittivity grid is produced by evaluating the model once for each combination of x, y, layer and frequency, in row-major order, at coordinates that increase with the index and lie in the same symmetric interval for any number of points, spanning all of it as soon as there are two (log-spaced frequencies only have to lie in it), equally spaced, with layers spaced by their cumulative thickness when thicknesses differ. Every available network architecture with any allowed number of hidden layers maps n input points to n rows of the configured output width, each row depending only on its own point, with values between 0 and 1. An unknown model type is rejected with NotImplementedError.",
 ["inputs", "configurations"], "all grid sizes, layer counts, thickness lists, frequency lists, network widths and depths, weights",
 "the tests use the default depth and width and never look at coordinates or row dependence",
 ["nidn/training/model/model_to_eps_grid.py", "nidn/training/model/init_network.py", "nidn/training/utils/nerf.py", "nidn/training/utils/siren.py", "nidn/training/utils/voxel.py"],
 [("coordinate grid", "_get_transformed_grid/_eval_model"), ("architectures", "NERF/Siren/Voxel")], ["model_to_eps_grid"])

prop("C20", "Saved runs load back unchanged",
 "Saving a run writes exactly one new file under the results folder (in the requested subfolder, named after the run and the time) and loading that file returns a run equal to the saved one, including its model's parameters. Saving does not modify the run or any other file. Loading a missing file raises an error instead of returning something.",
 ["inputs", "histories"], "all run contents, names and subfolders; save and load sequences at distinct times",
 "no test saves or loads a run",
 ["nidn/training/save_run.py", "nidn/training/load_run.py"],
 [("pickle dump/load", "save_run/load_run")], ["save_run", "load_run"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
