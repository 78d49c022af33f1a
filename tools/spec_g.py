FGD = "drdmannturb/fluctuation_generation/"
S = {}


def p(id, title, statement, over, quant, why, files, mech):
    S[id] = dict(
        id=id,
        title=title,
        statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
    )


COV = [FGD + "covariance_kernels.py", FGD + "nn_covariance.py"]
p(
    "G01",
    "Generated fields are incompressible at every wavevector",
    "For the von Karman, Mann and DRD models, the spectral factor handed to the sampler is orthogonal to the wavevector: contracting it with k from the left gives zero at every wavevector of every grid, "
    "so the turbulence the library generates is divergence-free mode by mode. The factor is not identically zero at non-degenerate wavevectors.",
    ["inputs", "configurations"],
    "all wavevectors (including those with vanishing components), all length, time and energy scales, all trained networks, all grid sizes",
    "Tests sample a field on one grid and look at a divergence norm with a loose tolerance; incompressibility has to hold for every wavevector and every parameter.",
    COV,
    [("square root of the spectral tensor", "VonKarmanCovariance / MannCovariance / NNCovariance .precompute_Spectrum")],
)
p(
    "G02",
    "Spectral factor reproduces each model's velocity-spectrum tensor",
    "The product of the spectral factor with its conjugate transpose equals the published velocity-spectrum tensor of the model (isotropic von Karman; Mann's sheared tensor with Mann's eddy lifetime; the same sheared tensor with the trained "
    "network's lifetime for DRD), for every pair of velocity components. On the plane of zero streamwise wavenumber it equals the limit of that tensor.",
    ["inputs", "configurations"],
    "all wavevectors, all length, time and energy scales, all trained networks",
    "No test compares the factor with the tensor; sampled statistics of a few seeds cannot separate a wrong off-diagonal or a wrong exponent from noise.",
    COV,
    [("tensor factor", "precompute_Spectrum of each covariance class")],
)
p(
    "G03",
    "Spectral factor is finite, Hermitian-symmetric and zero at zero wavevector",
    "The spectral factor has one 3x3 block per grid wavevector, is finite everywhere including wavevectors with one, two or three vanishing components, is exactly zero at the zero wavevector, and takes complex-conjugate values at opposite wavevectors. "
    "Evaluating it changes neither the frequencies nor the model, so a repeated evaluation gives the same result.",
    ["inputs", "configurations"],
    "all grids, all frequency sets, all model parameters",
    "A NaN or a mean component appears only on particular degenerate wavevectors; tests look at one or two grids and at norms of whole fields.",
    COV,
    [("division by zero handling", "precompute_Spectrum of each covariance class")],
)
p(
    "G04",
    "Colouring noise is an exact stateless linear filter on the grid's wavenumbers",
    "Sampling a random field returns the real inverse Fourier transform of the noise spectrum multiplied by the covariance's spectral factor evaluated on that grid's own wavenumbers, for every component and every cell, scaled by the square root of "
    "cell count over domain volume (by the inverse square root of the volume for the complex-FFT and the sine/cosine samplers). The result depends only on the noise passed in that call, which is left alone, not on earlier calls; without one, on independent standard normal draws (one per point and component) scaled to the cell volume.",
    ["inputs", "configurations", "histories"],
    "all grid shapes (odd and even), spacings, noise arrays, spectral factors and call histories",
    "Tests only run one sampler on cubic grids once per object; a transposed axis, a missing half of the spectrum or a buffer kept between calls goes unseen.",
    [FGD + "sampling_methods.py", FGD + "gaussian_random_fields.py"],
    [("frequencies and normalisation", "Sampling_method_freq.__init__"), ("transforms", "Sampling_*.__call__")],
)
p(
    "G05",
    "The seed alone determines the generated field",
    "Two generators built with the same arguments and the same seed (zero included) produce identical fields over any sequence of generate calls, whatever other random activity or other generators the process runs in between, with or without the "
    "low-frequency part; different seeds give different fields, and generators without a seed differ. Every noise cell is a separate draw, and the low-frequency part never reuses the three-dimensional noise.",
    ["histories", "configurations", "inputs"],
    "all models, seeds, block sequences and interleavings with other users of random numbers",
    "Tests compare two runs of one configuration in a quiet process; leakage of global or entropy-seeded randomness needs particular configurations and histories.",
    [FGD + "gaussian_random_fields.py", FGD + "fluctuation_field_generator.py", FGD + "low_frequency/fluctuation_field_generator.py"],
    [("private random streams", "GaussianRandomField.reseed / sample_noise, LowFreqGenerator.__init__")],
)
p(
    "G06",
    "Blocks join seamlessly and block counts compose",
    "Successive blocks are the same fixed window of successive realisations whose noise is the previous noise advanced by exactly one block length with fresh noise appended, so the emitted cells tile one continuous stream, with periodic "
    "wrap-around kept at least three length-times-time scales away. Generating n and then m blocks gives exactly the field of generating n+m blocks.",
    ["histories", "configurations", "inputs"],
    "all grids, blending widths, block counts and splits of the calls, all models, with and without the low-frequency part",
    "Continuity is a relation between consecutive calls; the tests generate a single call and check shapes.",
    [FGD + "fluctuation_field_generator.py"],
    [("noise roll and windows", "FluctuationFieldGenerator.__init__ and _generate_block")],
)
p(
    "G07",
    "Returned field has exactly the requested grid",
    "A fresh generator holds an empty field, and after any sequence of calls totalling B blocks the returned array has shape (B*Nx, Ny, Nz, 3) with N = 2**level + 1 per axis, independently of the model, the scales, the buffers, the blending width and "
    "the low-frequency option. No intermediate step meets incompatible shapes.",
    ["inputs", "configurations", "histories"],
    "all grid levels per axis, dimensions, scales, blending widths, block counts and models",
    "Shape errors depend on rounding of buffers and margins for particular scales and blending widths; tests use a couple of them.",
    [FGD + "fluctuation_field_generator.py"],
    [("buffer arithmetic", "FluctuationFieldGenerator.__init__")],
)
p(
    "G08",
    "Field is unit-RMS turbulence plus mean profile plus low-frequency motion",
    "Each block of the returned field is the block's turbulence divided by its root-mean-square over all components, plus the documented logarithmic or power-law mean profile of height on the streamwise component only, plus, when the "
    "two-dimensional model is configured, its interpolated velocities on the streamwise and lateral components, uniform in height, at the cell's streamwise position in the whole field and centred laterally.",
    ["inputs", "configurations", "histories"],
    "all profiles and profile parameters, grids, blocks and low-frequency configurations",
    "Tests check a few profile values in isolation; nothing checks which component, which height or which streamwise offset they land on in later blocks.",
    [FGD + "fluctuation_field_generator.py"],
    [("assembly", "FluctuationFieldGenerator.generate and _normalize_block")],
)
p(
    "G09",
    "Bad arguments are refused and callers' data is never altered",
    "Generation refuses unknown profiles, non-positive reference heights, speeds and roughness, and a power law without exponent, and a refused call adds nothing to the field; construction refuses unknown models and samplers, missing scales, missing "
    "trained parameters and wrong dimensions; divergence refuses malformed spacing or fields. Arrays, mappings and trained parameters handed in, and fields returned earlier, keep their values through every later operation.",
    ["inputs", "histories"],
    "every documented precondition; all sequences of generation, export and evaluation calls, including several generators sharing the same arrguments".replace("arrg", "arg"),
    "Aliasing and in-place updates surface only in later use of the same arrays; tests drop objects after one call.",
    [FGD + "fluctuation_field_generator.py", FGD + "covariance_kernels.py", FGD + "gaussian_random_fields.py", FGD + "low_frequency/fluctuation_field_generator.py"],
    [("validation", "constructors and generate"), ("copies", "_generate_block, generate")],
)
p(
    "G10",
    "Divergence, export and plots represent the field cell by cell",
    "The divergence evaluator returns the sum of the second-order differences of component i along axis i with the i-th spacing, for the given or the accumulated field; the VTK export writes each component unchanged with spacing equal to domain length over "
    "node count; grid, component and magnitude plots pair every field value with its own coordinates. None of them alters the field.",
    ["inputs", "configurations"],
    "all field shapes, spacings that differ per axis, and field contents",
    "Transposed axes or exchanged components are invisible on cubic grids and in smoke tests that only check that a figure is made.",
    [FGD + "fluctuation_field_generator.py", FGD + "wind_plot.py"],
    [("divergence and export", "evaluate_divergence, save_to_vtk"), ("grids", "create_grid, format_wind_field, plot_velocity_*")],
)
p(
    "G11",
    "A saved DRD model generates fields of the spectrum it was fitted to",
    "A generator built from a saved calibration uses the fitted scales and network: its spectral tensor equals, up to one positive constant common to all wavevectors, the sheared tensor built from the fitted model's own eddy lifetime and length scale at the "
    "wavevector made dimensionless with the reference height, and its buffers follow the fitted scales.",
    ["histories", "inputs", "configurations"],
    "all trained parameters, with or without a learned exponent, all reference heights and wavevectors",
    "The agreement joins three modules (fit, file, generator) and an untested unit conversion; tests load one file and check shapes.",
    [FGD + "fluctuation_field_generator.py", FGD + "nn_covariance.py", "drdmannturb/spectra_fitting/calibration.py", "drdmannturb/spectra_fitting/one_point_spectra.py", "drdmannturb/common.py"],
    [("parameter hand-over", "FluctuationFieldGenerator.__init__"), ("lifetime", "NNCovariance.precompute_Spectrum, OnePointSpectra.EddyLifetime")],
)
LF = [FGD + "low_frequency/fluctuation_field_generator.py"]
p(
    "L01",
    "Low-frequency field is divergence-free synthesis of the 2-D spectrum",
    "The two-dimensional velocities returned are the real stream-function synthesis of the published anisotropic energy spectrum from one white-noise field on the computational grid: every resolved mode is orthogonal to its wavevector, there is no mean, and the "
    "amplitude follows the spectrum with the constant fixed by the variance.",
    ["inputs", "configurations"],
    "all variances, length scales, anisotropy angles, layer heights, grid sizes and noise",
    "Tests compare noisy estimates of one configuration; swapped components, signs and exponents at some angle pass them.",
    LF,
    [("spectral synthesis", "LowFreqGenerator.generate and its compiled helper")],
)
p(
    "L02",
    "Analytic and estimated 2-D spectra use the field's own spectrum and scaling",
    "The analytic one-dimensional spectra are the integrals over lateral wavenumber of the very energy spectrum used for synthesis, with the same constant, anisotropy and component weights; the estimated spectra are the scaled periodogram sums of the returned field at its "
    "positive wavenumbers; asking for them, or for slices, before generation is refused.",
    ["inputs", "configurations"],
    "all physical parameters, wavenumbers, integration limits (either sign), fields and grid shapes",
    "Three copies of one formula must agree for every parameter; tests plot or compare within large statistical bands.",
    LF,
    [("analytic spectra", "LowFreqGenerator.analytical_spectrum"), ("estimator", "LowFreqGenerator.compute_spectrum")],
)
p(
    "L03",
    "Low-frequency computational grid is isotropic, even and large enough",
    "For every configuration the computational grid has equal spacing in both directions, no coarser than the user's, an even number of nodes, and covers both the user's domain and five integral length scales; the user grid is exactly as configured; and the "
    "field delivered is the centred contiguous window of the computed one.",
    ["inputs", "configurations"],
    "all length scales, domain factors and resolution exponents",
    "The rounding of sizes has many cases; tests use a few square configurations.",
    LF,
    [("grid sizing", "LowFreqGenerator.__init__"), ("extraction", "LowFreqGenerator.generate")],
)
p(
    "L04",
    "Low-frequency slices interpolate the delivered field at physical positions",
    "A slice returns, for each pair of target coordinates, the bilinear interpolation of the delivered field on the user's coordinates and zero outside, with the first axis running over streamwise targets, leaving field and targets unmodified; delivered cells are "
    "spaced as those coordinates say.",
    ["inputs", "configurations"],
    "all fields, target coordinates inside and outside, and configurations",
    "Tests interpolate at grid nodes of square fields, where transposition and spacing errors cancel.",
    LF,
    [("interpolation", "LowFreqGenerator.interp_slice"), ("coordinates", "LowFreqGenerator.__init__")],
)
p(
    "L05",
    "2-D field plots and parameter studies report the generator's own results",
    "Velocity images show each component of the last generated field with streamwise position along the horizontal axis, at its coordinates in kilometres, with common colour limits symmetric about zero, and are refused before generation. Spectra figures draw k1 F11 and k1 F22 "
    "(estimates averaged over the realisations, and theory) of the right generator against k1 L. Mesh, domain, grid and anisotropy studies run for every configuration they are given, leave it unmodified, and draw or return for each size or angle the norms and "
    "variances of the fields generated with that very configuration (averaged over the requested number of realisations), whatever the order of completion.",
    ["inputs", "configurations", "schedules"],
    "all configurations, sizes, angles, fields, numbers of realisations and completion orders of the worker processes",
    "No test calls these plots and studies; a transposed image, a swapped component or results paired with another size look plausible.",
    [LF[0], FGD + "low_frequency/large_plot.py"],
    [("field images", "LowFreqGenerator.plot_velocity_fields"), ("studies", "large_plot.mesh_independence_study, domain_size_study, length_AND_grid_size_study, anisotropy_study"), ("spectra figures", "large_plot.plot_spectra_comparison, recreate_fig2")],
)
p(
    "A01",
    "Every name, attribute and call in the package resolves, on every path",
    "Everything the package exports can be imported, and every name, attribute, enumeration member and call used inside it, including on rarely taken paths, refers to something that exists and accepts the given arguments. The shipped examples use only "
    "interfaces that exist, with arguments they accept.",
    ["programs", "inputs"],
    "all modules, functions and statements of the package and of the examples, whether or not a test reaches them",
    "A mistyped attribute or a missing argument in a branch no test takes compiles and fails only for the user who gets there.",
    ["drdmannturb", "examples"],
    [("package surface", "drdmannturb.__init__"), ("command and plotting paths", "CalibrationProblem"), ("examples", "examples")],
)
