NOTE = (
    "Static: the source is abstractly interpreted into a gated value graph (joins at branches, summaries for loops, unknown sizes and inputs) and the property is decided on value numbers, whose equality is tested by "
    "randomized valuation of the graph (sound up to a tiny probability of accidental agreement; algebraic identity is judged in exact/real arithmetic, so rounding is out of scope). Trusts the library transfer "
    "functions in vg/ext*.py and the oracle formulas in props/. Concrete are only the model names, small size ranges and tuple lengths listed in the evidence scenarios; a construct the analysis does not model ends in an error, never in a pass."
)
NA = {}


def na(id, title, statement, over, quant, why, files, mech, reason):
    NA[id] = (
        dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
        reason,
    )


na("N01", "Sampled fields have the model's one-point statistics", "Averaged over seeds, the variance, covariance and one-point spectra of generated fields converge to those of the model.",
   ["inputs"], "all seeds and grids, in the limit of many realisations", "Statistical convergence needs many samples and a distributional argument.",
   ["drdmannturb/fluctuation_generation/fluctuation_field_generator.py"], [("sampling", "GaussianRandomField.sample")],
   "a statement about distributions of runtime values in the limit; the deterministic parts (tensor, filter, unit noise) are claimed as G01-G06")
na("N02", "Calibration converges to parameters that fit the data", "After enough epochs, calibration reaches a loss below tolerance and the fitted spectra match the data.",
   ["inputs"], "all data sets and initial parameters", "Convergence of a stochastic non-convex optimisation cannot be sampled exhaustively.",
   ["drdmannturb/spectra_fitting/calibration.py"], [("training loop", "CalibrationProblem.calibrate")],
   "depends on the numerical trajectory of an optimiser on runtime data; no static argument bounds it")
na("N03", "Quadrature over lateral wavenumbers is accurate", "The discretised integrals of the spectral tensor are within a stated error of the exact integrals for every admissible length scale.",
   ["inputs", "configurations"], "all length scales, wavenumbers and integration grids", "Numerical error depends on run-time magnitudes.",
   ["drdmannturb/spectra_fitting/one_point_spectra.py"], [("trapezoidal quadrature", "OnePointSpectra.quad23")],
   "a numerical error bound on run-time quantities; the rule used (which trapezoid, which axes, which grid) is claimed instead")
na("N04", "Repeated runs are bitwise identical across thread counts and FFT plans", "The same seed gives bit-identical fields regardless of thread count, planner timing or library version.",
   ["schedules", "configurations"], "all thread schedules and planner decisions", "Planner timing varies by machine and run.",
   ["drdmannturb/fluctuation_generation/sampling_methods.py"], [("FFTW plans", "Sampling_VF_FFTW.__init__")],
   "rounding behaviour of an external FFT library is outside the source; equality up to rounding is claimed in G05")
