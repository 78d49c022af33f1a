SFD = "drdmannturb/spectra_fitting/"
S = {}
from spec_g import p as _p, S as _G


def p(id, *a):
    _p(id, *a)
    S[id] = _G.pop(id)


CAL, OPS, LOSS, TAU, DATA, NNM = (SFD + x for x in ("calibration.py", "one_point_spectra.py", "loss_functions.py", "eddy_lifetime.py", "data_generator.py", "../nn_modules.py"))
NNM = "drdmannturb/nn_modules.py"
PAR = "drdmannturb/parameters.py"
p(
    "F01",
    "One-point spectra integrate the sheared model tensor over the whole grid",
    "Each one-point spectrum the model reports (11, 22, 33, 13, 23, 12, in that order) is k1 times the double trapezoidal integral, over the full symmetric (k2, k3) grid built from the configured limits and number of points, of the published sheared "
    "velocity-spectrum tensor (von Karman energy spectrum, or the learned exponents p and q, by default von Karman's) distorted by the model's own eddy lifetime. Diagonal spectra are non-negative, the tensor scales linearly in the spectrum magnitude, and off-diagonal components keep their sign.",
    ["inputs", "configurations"],
    "all wavenumbers, scales, exponents, network weights, eddy lifetime types and integration grids",
    "Tests only check that a calibration runs and that a loss falls; a wrong off-diagonal, a skipped grid half or a wrong exponent still trains.",
    [OPS, TAU, "drdmannturb/common.py"],
    [("quadrature grid and integration", "OnePointSpectra.forward / quad23"), ("spectral tensor", "spectral_tensor_common.* used by forward")],
)
p(
    "F02",
    "Spectral coherence is the normalised lateral cross-spectrum",
    "The model coherence for component u, v or w at streamwise wavenumber k1 and lateral separation s is the squared modulus of the Fourier transform of that component's spectral tensor over k2 (at separation s) and its integral over k3, divided by the squared "
    "one-point value, evaluated with the current parameters and the configured coherence grid. It is one at zero separation, lies between zero and one, is even in the separation and does not depend on the spectrum magnitude.",
    ["inputs", "configurations"],
    "all wavenumbers, separations, scales, grids, eddy lifetime types",
    "Coherence has no numerical test; a wrong normalisation or a grid that ignores the configuration still yields numbers that look plausible.",
    [OPS],
    [("coherence", "OnePointSpectra.SpectralCoherence")],
)
p(
    "F03",
    "Eddy lifetimes follow their closed forms or the rational network",
    "The eddy lifetime of every type is the closed form documented for it (constant; two-thirds law; Mann's hypergeometric form, or its linear-regression approximation; residual network of the configured widths and activations followed by the rational function with learned or fixed exponent nu), "
    "times the time scale. It depends on the wavevector only through k L (componentwise modulus for the network), is even in each component, positive away from zero wavevector, and proportional to the time scale. The regression approximation is fitted to Mann's lifetime, and malformed network descriptions are refused.",
    ["inputs", "configurations"],
    "all wavevectors, scales, network weights, lifetime types and network shapes",
    "Only run-to-completion tests exist for lifetimes; an asymmetric network or a wrong exponent fits training data equally well and fails on generated fields.",
    [OPS, TAU, NNM],
    [("dispatch on lifetime type", "OnePointSpectra.EddyLifetime"), ("network", "TauNet.forward, Rational.forward, SimpleNN.forward"), ("Mann lifetime", "MannEddyLifetime"), ("linear approximation", "OnePointSpectra.init_mann_approximation")],
)
p(
    "F04",
    "Parameter vector round-trips and starts with the logarithms of the scales",
    "A calibration problem's parameter vector is [log L, log Gamma, log sigma, learned exponents if any, network weights]. Before training its first entries are the natural logarithms of the scales of the configuration; writing a vector and reading it back gives the same vector; after writing, "
    "the reported scales are the exponentials of its first three entries and evaluations use them; a vector of the wrong length is refused without changing the model, and the returned vector is a copy. Noisy initialisation leaves the scales as configured and gives the network weights noise of either sign and the given magnitude; the reported number and norm of trainable network parameters are those of the weights in the vector, and are refused for models without a network.",
    ["inputs", "histories", "configurations"],
    "all parameter values, model configurations and read/write histories",
    "Tests read the vector once after a fit; a base-10 logarithm, a swapped pair or a skipped block is invisible there but corrupts every reloaded or warm-started model.",
    [CAL, OPS],
    [("parameter vector", "CalibrationProblem.parameters getter and setter"), ("initialisation", "CalibrationProblem.log_dimensional_scales, initialize_parameters_with_noise; OnePointSpectra.set_scales"), ("reported values", "CalibrationProblem.print_calibrated_params, OnePointSpectra.exp_scales")],
)
p(
    "F05",
    "A saved calibration reloads to the same model",
    "Saving a calibrated problem writes one file in the requested directory whose content is sufficient to rebuild it: a fresh problem built from the stored parameter objects, with the stored parameter vector assigned, has the same spectra, eddy lifetimes and scales as the saved one. "
    "The stored loss settings are the ones used; later changes to the saved object do not alter the stored copy; saving does not alter the object. A checkpoint saved on another device loads on the CPU.",
    ["inputs", "histories", "configurations"],
    "all parameter values, lifetime types and histories of use before and after saving",
    "No test reloads a model into a new problem and compares its predictions across configurations.",
    [CAL, "drdmannturb/common.py"],
    [("pickle content", "CalibrationProblem.save_model"), ("device-independent loading", "CPU_Unpickler.find_class")],
)
p(
    "F06",
    "Training loss is the documented sum of its weighted terms",
    "The training loss equals the documented sum: mean squared log ratio of model to data, plus gamma times the mean squared coherence misfit, plus alpha1 and alpha2 times the penalised first and second log-log derivatives, plus beta times the mean square of the network parameters, each present exactly "
    "when its weight is non-zero. Every evaluation, the initial one included, records its own terms once in order, does not depend on earlier evaluations, and an undefined term is refused with an error instead of being returned.",
    ["inputs", "configurations", "histories"],
    "all spectra, data, weights (zero or not), networks and evaluation histories",
    "Tests look at a final loss below a threshold; a dropped or doubled term still converges.",
    [LOSS],
    [("aggregation", "LossAggregator.eval"), ("terms", "LossAggregator.MSE_term, Pen1stOrder, Pen2ndOrder, Regularization, CoherenceLoss")],
)
p(
    "F07",
    "Training gradients are complete and reach every trainable parameter",
    "The gradient used by training is the derivative of the loss in every trainable parameter (log L, log Gamma, log sigma, exponents, network weights): no part of the model output or loss that depends on a trainable parameter is cut off from differentiation, each optimiser step uses "
    "the gradient of the loss at the current parameters only (gradients are reset in between), and the optimiser is given every trainable parameter.",
    ["inputs", "configurations", "histories"],
    "all parameter values, data, lifetime types and numbers of epochs",
    "A detached branch or a stale gradient still lowers the loss; only the derivative itself shows the difference, and it must hold at every parameter point.",
    [CAL, OPS, TAU],
    [("training loop closure", "CalibrationProblem.calibrate"), ("forward model", "OnePointSpectra.forward, EddyLifetime")],
)
p(
    "F08",
    "Evaluating a model depends only on its parameters and the given wavenumbers",
    "Spectra, coherences, eddy lifetimes and gradients obtained from a problem depend only on its current parameters and the wavenumbers passed: not on earlier evaluations, on other problems, or on the order of calls. Evaluations do not change the parameters, the data, "
    "the configuration objects or tensors owned by the caller.",
    ["histories", "inputs", "configurations"],
    "all call histories, numbers of model objects and inputs",
    "Hidden state (caches, in-place updates, shared module-level buffers) shows only after particular call sequences.",
    [OPS, CAL],
    [("evaluation entry points", "CalibrationProblem.eval, eval_grad; OnePointSpectra.forward, EddyLifetime, SpectralCoherence")],
)
p(
    "F09",
    "Reference spectra follow the Kaimal and von Karman closed forms",
    "The built-in data generators return, for every wavenumber passed, exactly the Kaimal spectra (11, 22, 33 and 13 entries, with reduced frequency k1 z / (2 pi) and scaled by the squared friction velocity) or the von Karman isotropic spectra "
    "(11 from length scale and constant, 22 and 33 related to it by isotropy, premultiplied by k1); all other entries are zero. The wavenumbers are passed through unchanged and calibration trains on exactly these entries.",
    ["inputs"],
    "all wavenumbers, reference heights, friction velocities, length scales and constants",
    "Tests fit one data set; a wrong exponent or coefficient just shifts the fit.",
    [DATA],
    [("generators", "generate_kaimal_spectra, generate_von_karman_spectra")],
)
p(
    "F10",
    "Data, loss and plots pair each component and label with its own model row",
    "With 3, 4 or 6 fitted components, every data entry (11, 22, 33, 13, 23, 12) is compared in the loss with, and plotted next to, the model row of the same component, the 13 spectrum being plotted negated; other component counts are refused. Coherence tables are placed by their separation and "
    "frequency labels whatever the row order; missing cells are not a number and are never trained on; the coherence loss compares each separation and frequency with the model coherence at k1 = factor f / U and that separation (one at zero frequency). Lifetime plots show the direction in their label and coherence plots the data beside the current model. Saving writes each drawn figure under its documented name to the given (else the output) directory, made when absent; without saving nothing is written.",
    ["inputs", "configurations"],
    "all data values, component counts, plotted sources, table orders, labels and missing cells",
    "A swapped pair of components still trains and plots; only tracing each entry shows it.",
    [CAL],
    [("data to loss", "CalibrationProblem.calibrate"), ("plots", "CalibrationProblem.plot, _plot_coherence_data"), ("coherence data", "CalibrationProblem.load_coherence_data, _compute_model_coherence")],
)
p(
    "F11",
    "Training runs the configured schedule and stops on its own criteria",
    "Calibration runs at most the configured number of epochs, each one step of the requested optimiser (LBFGS or Adam) built with the configured learning rate (and number of Wolfe iterations) and annealed along a cosine over these epochs, and ends with the first epoch whose loss is below the configured tolerance. "
    "A loss that is not finite is refused with an error instead of being returned as a fit, while any finite loss is accepted. The reported scales are the exponentials of the final parameters, and automatic adjustments, taken from the recorded losses, never raise the learning rate.",
    ["inputs", "configurations", "histories"],
    "all data, tolerances, learning rates and numbers of epochs",
    "Tests calibrate once with one tolerance and check that it ends; an epoch too many, an ignored tolerance or an infinite loss reported as a fit passes them.",
    [CAL, LOSS],
    [("training loop", "CalibrationProblem.calibrate"), ("learning-rate heuristics", "LossAggregator.should_adjust_learning_rate")],
)
p(
    "F12",
    "Training logs and diagnostics report the recorded losses",
    "Every evaluation of the training loss logs each active term once, under its own tag, with the value that enters the loss and its epoch, to the configured directory; the running averages are exponential moving averages (decay 0.9, starting at the first record) of the terms, and shares and summaries follow from them. "
    "Diagnostics over a window are the mean and standard deviation of the last records of every term, the dominant term, the relative improvement of the later half and the stability; a lower learning rate is suggested only for stagnating, unstable or one-sided losses, and none before the window is filled. The loss figure of run n of the logging directory, counted in the order they were recorded, shows every logged term in its own panel by its own records, in order (the first two may be left out).",
    ["inputs", "histories", "configurations"],
    "all loss values, weights, windows and recorded histories",
    "No test reads a log or a diagnostic; a swapped tag, a diverging average or a window taken from the wrong end is visible only in the record of a particular history.",
    [LOSS],
    [("recording", "LossAggregator.eval, update_running_averages, log_component_ratios"), ("diagnostics", "LossAggregator.get_loss_diagnostics, should_adjust_learning_rate, get_current_loss_info"), ("log destination", "CalibrationProblem.calibrate")],
)
