"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["src/bijx/" + f for f in files],
            state=[dict(name=n, meaning=m, where="src/bijx/" + w) for n, m, w in state],
            mechanism=[dict(name=n, where="src/bijx/" + w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Every bijection inverts itself, values and log-density, in both directions",
  "For every invertible bijection the library offers and every nesting of them, applying forward and then reverse (or reverse and then forward) at any point of the domain returns the original point and the original log-density up to rounding. Inverting a bijection swaps the two directions exactly, and inverting twice is the original. Neither direction changes the event shape contract: round trips return arrays of the original shape.",
  ["inputs", "configurations", "programs"],
  "all bijections (scalar, spline, radial, coupling, Fourier, shape-only, autoregressive/one-directional excluded), all parameter values reachable by the constructors, all nestings, all batch shapes, both directions",
  "tests sample a handful of points per bijection with default initial parameters and usually check forward-then-reverse only with a scalar log-density; nestings, negative scales, batch ranks and starting log-densities are not enumerated",
  ["bijections/base.py", "bijections/scalar.py", "bijections/analytic.py", "bijections/splines.py", "bijections/radial.py", "bijections/coupling.py", "bijections/meta.py", "bijections/fourier.py"],
  [("Bijection.forward/reverse/invert, Inverse, Chain", "bijections/base.py"), ("ScalarBijection fwd/rev/log_jac", "bijections/scalar.py"), ("solve_cubic", "bijections/analytic.py"), ("apply(reverse=...)", "bijections/coupling.py")],
  ["return values of forward/reverse/invert"])

p("C02", "Log-densities obey change of variables per batch element",
  "For every bijection, forward(x, ld) returns ld minus the log absolute determinant of the Jacobian of the map on one event, and reverse returns ld plus the corresponding quantity, separately for every batch element. The change is summed over all event dimensions and never mixes or broadcasts across batch elements, and it does not depend on the incoming log-density.",
  ["inputs", "configurations"],
  "all bijections, parameters, event ranks and sizes, batch shapes (including size one), incoming log-densities",
  "tests compare with an autodiff Jacobian for a few bijections at a few points; composite shapes, negative scales, parameters that broadcast against the event, and non-zero incoming densities are sampled sparsely or not at all",
  ["bijections/scalar.py", "bijections/analytic.py", "bijections/splines.py", "bijections/radial.py", "bijections/coupling.py", "bijections/fourier.py", "utils.py"],
  [("ScalarBijection._sum_log_jac over event axes", "bijections/scalar.py"), ("ShapeInfo.event_axes", "utils.py"), ("SpectrumScaling.apply", "bijections/fourier.py")],
  ["returned log-density versus the Jacobian of the returned point"])

p("C03", "Composed bijections act exactly as the sequence of their parts",
  "Chaining bijections applies them first to last going forward and last to first in reverse, adding up their log-density changes; scanning over a stack of layers, freezing, partially applying, conditionally inverting and inverting a composition change nothing but what they announce. Each part of a chain receives exactly the keyword arguments addressed to it plus the common ones. Shape-only layers move elements without changing any value or the log-density.",
  ["programs", "inputs", "configurations"],
  "all programs built from the composition operators over any layers, any depth, any keyword routing, both directions",
  "tests exercise a few fixed chains; order, routing and inversion of nested programs is a property of all programs",
  ["bijections/base.py", "bijections/meta.py"],
  [("Chain, ScanChain, Inverse, CondInverse, Frozen, Partial", "bijections/base.py"), ("MetaLayer, Reshape, ExpandDims, SqueezeDims", "bijections/meta.py")],
  ["returned points and log-densities of compositions", "order in which the parts are called"])

p("C04", "Masked coupling keeps passive entries and splits events without loss",
  "A coupling layer leaves the conditioning entries exactly unchanged, transforms the remaining ones with parameters that depend on the conditioning entries only, and agrees between its split and multiplicative forms. A mask partitions the event: splitting and merging is the identity on every entry, flipping exchanges the two parts, and masks describe exactly the set of indices they were built from.",
  ["inputs", "configurations"],
  "all masks over small event shapes, ranks of event, inner bijections, batch shapes, both directions, split and multiplicative modes",
  "tests use a few masks (mostly 1-D and checkerboard); dependence on the wrong half or a lost index is only visible for particular masks and ranks",
  ["bijections/coupling.py"],
  [("BinaryMask", "bijections/coupling.py"), ("GeneralCouplingLayer", "bijections/coupling.py"), ("checker_mask", "bijections/coupling.py")],
  ["forward/reverse outputs", "Jacobian sparsity", "mask split/merge results"])

p("C05", "All parameter representations of a module reconstruct the same module",
  "Turning a module's parameters into a flat array, a flat list, a dictionary of leaves, a full state or a mapping and reconstructing from any of them yields a module with exactly the same parameters and behaviour, leaf for leaf, with the documented sizes, shapes and dtypes. Batched parameter representations reconstruct a batch of modules, each equal to the module obtained from its own slice. Reconstructing never modifies the module it was built from.",
  ["inputs", "configurations", "histories"],
  "all module structures (any leaves, shapes, scalars, mixed dtypes), all representations and conversions between them, all parameter batch shapes",
  "tests use a few network modules; ordering mistakes only show when leaves share a shape or size, and batched behaviour when batch and leaf shapes interact",
  ["bijections/coupling.py"],
  [("ModuleReconstructor.from_array/from_leaves/from_dict/from_params/as_dict", "bijections/coupling.py"), ("autovmap and unconcatenation of parameters", "bijections/coupling.py")],
  ["parameters of the reconstructed module", "outputs of vmapped/reconstructed modules"],
  [("params_sizes/params_shapes/leaves order", "the layout of the flat array", "bijections/coupling.py")])

p("C06", "Event and batch shape bookkeeping is consistent for any partial information",
  "Given any consistent partial description of event rank, event shape, channel dimensions and spatial shape, shape inference reports every fact the description determines and nothing it does not; given an array it returns the one completion consistent with both, and it rejects arrays that contradict a known event shape and descriptions that leave the event rank open with an error. Splitting a shape, computing event, channel and batch axes, flattening batch dimensions and undoing it, and reshaping to a canonical event are consistent with each other and lossless.",
  ["inputs", "configurations"],
  "every subset of the descriptors, every array shape up to a small rank, every batch rank",
  "tests check a few well-formed combinations; the case analysis has many branches that are reached only by particular subsets of given information",
  ["utils.py"],
  [("ShapeInfo._infer_missing/process_event/process_and_flatten/process_and_canonicalize", "utils.py"), ("effective_shape helpers", "utils.py")],
  ["ShapeInfo attributes and results of its methods, or the error raised"])

p("C07", "Distributions sample what they score",
  "Every distribution returns samples of shape batch plus event together with the exact log-density that log_density assigns to these samples, deterministically in the random key; log_density evaluates one value per batch element and equals the closed form for the stated parameters. A transformed distribution samples by pushing base samples forward and scores by pulling back through the same bijection with the same arguments.",
  ["inputs", "configurations"],
  "all distributions, event shapes, batch shapes, parameters, keys, and keyword arguments of the transformation",
  "tests check shapes and a few densities; agreement of sampler and density must hold for every parameter and shape, and tests never vary keyword arguments",
  ["distributions.py"],
  [("Distribution.sample/log_density", "distributions.py"), ("Transformed", "distributions.py"), ("ArrayDistribution._infer_batch_dims", "distributions.py")],
  ["samples, returned log-densities, log_density values"])

p("C08", "Mixtures are the weighted sum of their components",
  "The density of a mixture is the sum of component densities weighted by its normalized weights, for every weight vector, component family and batch shape. Each sample comes from one component, with the marginal frequency given by the weights, and sampling reports the mixture density rather than the component's. Component covariances and scales act in the density exactly as they act in sampling.",
  ["inputs", "configurations"],
  "all component counts, dimensions, weights, covariance representations, batch shapes and keys",
  "tests check shapes and single cases; a swapped axis or an unnormalized weight shows only for particular component/dimension combinations",
  ["distributions.py"],
  [("MixtureStack", "distributions.py"), ("GaussianMixture", "distributions.py"), ("MultivariateNormal/DiagonalNormal", "distributions.py")],
  ["log_density, sample"])

p("C09", "Buffered samplers deliver every drawn sample exactly once, in order",
  "Across any sequence of requests a buffered sampler hands out the samples of its buffer in order, each exactly once, together with its own log-density, and draws a new buffer only when the previous one is exhausted. Whatever batch shapes are requested, every delivered pair is one the underlying distribution produced, and nothing is repeated or skipped.",
  ["histories", "inputs", "configurations"],
  "all request histories (single and batched), buffer sizes, with and without jit, event shapes",
  "the tests request a few samples and check shapes; order and exactly-once are properties of histories longer than one buffer",
  ["samplers.py"],
  [("BufferedSampler.sample", "samplers.py"), ("BufferedSampler.log_density", "samplers.py")],
  ["sequence of returned samples and log-densities", "calls reaching the underlying distribution"],
  [("buffer/buffer_index/buffer_log_densities", "samples not handed out yet", "samplers.py")])

p("C10", "Independence Metropolis-Hastings makes exactly the right accept decisions",
  "At every step the chain moves to the proposal exactly when the uniform draw is below the ratio of target over proposal density of the new point relative to the old one, and otherwise stays, keeping position and its cached log-densities together. The reported acceptance, proposal and state information describes that same step, a rejected step leaves the state untouched, and the first state is accepted as initialized.",
  ["histories", "inputs"],
  "all sequences of proposals, target values (including infinite), random draws, and initial states",
  "tests run short chains and check acceptance rates or shapes; a swapped ratio term or stale cached density is compatible with both",
  ["mcmc.py"],
  [("IMH.init/propose/step", "mcmc.py"), ("IMHState, IMHInfo", "mcmc.py")],
  ["states and infos returned per step"],
  [("IMHState", "current position with its log-densities", "mcmc.py")])

p("C11", "Fourier representations of real fields are lossless and count modes once",
  "Converting a real field between real space, half-complex spectrum and independent real degrees of freedom and back in any order is the identity, for every lattice shape and every channel layout. Each independent mode of the lattice is represented exactly once, dependent ones are its conjugates, momentum grids match the transform used, and spectral scaling multiplies each mode by its own factor.",
  ["inputs", "configurations"],
  "all lattice shapes (even, odd, mixed, one to several dimensions, size-one axes), channels, batch shapes, conversions between any two representations",
  "tests use a few square lattices; self-conjugate modes and the double-counted edge planes differ between parities and dimensions",
  ["fourier.py", "bijections/fourier.py"],
  [("FourierMeta masks", "fourier.py"), ("FourierData conversions", "fourier.py"), ("fft_momenta", "fourier.py"), ("SpectrumScaling, FreeTheoryScaling", "bijections/fourier.py")],
  ["converted arrays, mode counts, momenta"])

p("C12", "Symmetric convolutions respect the lattice symmetry",
  "Kernel entries are tied exactly when a symmetry of the group maps one cell to the other, with one free parameter per orbit, and unfolding and folding kernels is lossless. The resulting convolution commutes with every lattice symmetry in the group and with all periodic translations. Resizing a kernel keeps the represented function where it can, and the index helpers enumerate each neighbour exactly once.",
  ["inputs", "configurations"],
  "all kernel shapes (odd, even, anisotropic), dimensions one to four, symmetry groups, channel counts, lattice sizes at or above and below the kernel",
  "tests check a few square odd kernels; orbit mistakes appear for even, anisotropic or higher-dimensional kernels only",
  ["nn/conv.py"],
  [("kernel_d4/kernel_equidist orbits", "nn/conv.py"), ("ConvSym, fold/unfold", "nn/conv.py"), ("resize_kernel_weights", "nn/conv.py"), ("conv_indices", "nn/conv.py")],
  ["orbits, unfolded kernels, convolution outputs"])

p("C13", "Gauge lattice symmetries form a group and leave the Wilson action invariant",
  "Translations, axis permutations, reflections and rotations of a gauge field permute and conjugate its links consistently: they compose as the underlying lattice symmetries, invert exactly, and preserve plaquette content, so the Wilson action is unchanged by all of them and by every gauge transformation. Gauge transforming by a product is transforming twice, and the action and gauge transformations of a batch are those of each field.",
  ["inputs", "configurations", "programs"],
  "all lattice shapes, dimensions two to four, gauge groups, compositions of symmetries, site-dependent gauge transformations, batch shapes",
  "tests check invariance of a few operations on a symmetric lattice; offset mistakes cancel on symmetric inputs or on a lattice of one size",
  ["lattice/gauge.py", "lattice/general.py"],
  [("swap_axes, flip_axis, rotate_lat, roll_lattice", "lattice/gauge.py"), ("apply_gauge_sym", "lattice/gauge.py"), ("wilson_action", "lattice/gauge.py")],
  ["transformed fields, action values"])

p("C14", "Scalar lattice observables equal their defining sums",
  "Actions, kinetic and potential terms, correlators and their derived quantities of a scalar field equal the defining sums over sites, neighbours and translations, for every lattice shape and coupling. Actions are invariant under all lattice symmetries and correlators move along with them, mapping them over a batch computes them field by field, and the free action is the one whose Boltzmann weight the free-theory scaling samples.",
  ["inputs", "configurations"],
  "all lattice shapes including size one and two axes and anisotropic ones, integer fields, couplings, averaging options",
  "tests compare with direct formulas on one or two lattices; transposed axes or a missed neighbour show only on anisotropic ones",
  ["lattice/scalar.py", "lattice/general.py"],
  [("kinetic_term, poly_term, phi4_term, Phi4Theory", "lattice/scalar.py"), ("cyclic_corr, cyclic_tensor, two_point, two_point_central, correlation_length", "lattice/scalar.py")],
  ["returned observable values"])

p("C15", "Fixed-step integrators cover the interval with their exact update rule",
  "Fixed-step solvers advance exactly from the start to the end time, the stages and weights of each step being those of the stated tableau, whatever the step size, number of steps and direction. Returned values are exactly those of that discretised flow; integrating back retraces the path and the adjoint gives its gradients, both to the order of the method. Lie group steps apply the tableau's exponentials in order, stay on the group, and apply the requested projections.",
  ["inputs", "configurations", "histories"],
  "all tableaus, step sizes (dividing the interval or not), signs of time, pytrees of states, fields and arguments",
  "tests integrate smooth problems with tolerances that hide a wrong stage or a wrong last step",
  ["solvers.py", "cg.py"],
  [("odeint_rk4", "solvers.py"), ("crouch_grossmann, crouch_grossmann_step, ButcherTableau", "cg.py"), ("backward ODE / custom vjp", "cg.py"), ("odesolve_diffrax", "solvers.py")],
  ["end states, the times and states at which the vector field is evaluated, gradients"])

p("C16", "Continuous flows invert and integrate the divergence of their own field",
  "A continuous-time flow transports a point along its vector field from its start to its end time and changes the log-density by minus the time integral of the field's divergence along that path; reverse undoes both. Each call may override the time interval, batches are transported pointwise, and fields that report a divergence report the divergence of the velocity they return.",
  ["inputs", "configurations"],
  "all solvers offered, vector fields, time intervals (any sign and length), batch shapes, extra arguments",
  "tests use the unit interval and a few fields; sign, time scaling and divergence mistakes are invisible for autonomous or divergence-free ones",
  ["bijections/continuous.py", "bijections/conv_cnf.py", "solvers.py"],
  [("ContFlowDiffrax, ContFlowRK4, ContFlowCG", "bijections/continuous.py"), ("AutoJacVF", "bijections/continuous.py"), ("ConvVF", "bijections/conv_cnf.py")],
  ["returned points and log-densities"])

p("C17", "Lie group operations agree with the group's geometry",
  "Projections onto an algebra are linear idempotent maps onto exactly that algebra, contractions are the stated inner products for every batch shape, and group samples are group elements with the documented invariance. All ways of differentiating a function on the group agree with the directional derivative along every algebra generator, with the same value and auxiliary output.",
  ["inputs", "configurations"],
  "unitary and special unitary groups of several sizes, all generators, batch shapes, pytrees of groups, functions",
  "tests check a few random points at one group size; conventions interact with batch dimensions and adjoints",
  ["lie.py"],
  [("contract, scalar_prod, adjoint, skew_traceless_cot", "lie.py"), ("grad, value_and_grad, curve_grad, path_grad, path_div", "lie.py"), ("sample_haar, construct_su_matrix", "lie.py")],
  ["projected matrices, gradients, inner products, samples"])

p("C18", "Scalar maps are strictly monotone onto their stated ranges",
  "Each elementwise transformation is strictly monotone on its domain, maps into its stated range for every parameter value, honours the lower bounds on widths, heights and slopes it was configured with, and acts as the stated extension outside its core interval. Polynomial roots used to invert them are actual roots for all coefficients.",
  ["inputs", "configurations"],
  "all scalar bijections and splines, all parameter values, ordered inputs including knots, boundaries and large magnitudes",
  "tests draw generic inputs; monotonicity and bin lookup break only at knots, boundaries and degenerate parameters",
  ["bijections/scalar.py", "bijections/splines.py", "bijections/analytic.py"],
  [("rational_quadratic_spline", "bijections/splines.py"), ("solve_cubic, CubicRational, SinhConjugation, CubicConjugation", "bijections/analytic.py"), ("scalar transforms", "bijections/scalar.py")],
  ["images of ordered inputs, derivatives, knots"])

p("C19", "Bridges to flowjax preserve points and log-densities",
  "Wrapping a bijection or distribution from one library for use in the other gives the same points in both directions, with the log-density conventions of the receiving library, including conditioning variables and batch shapes. Wrapping and unwrapping returns an object with the same behaviour, and a wrapped object can be composed, inverted, compiled, vectorized and sampled like any other of the receiving library.",
  ["inputs", "configurations"],
  "all wrapped bijections and distributions, conditional or not, batch shapes, both directions",
  "tests wrap a few objects; a sign or shape mismatch is per object and direction",
  ["flowjax.py"],
  [("FlowjaxToBijxBijection, BijxToFlowjaxBijection", "flowjax.py"), ("distribution wrappers", "flowjax.py"), ("to_flowjax/from_flowjax", "flowjax.py")],
  ["points, log-densities, samples"])

p("C20", "Batching, compilation and serialization do not change results",
  "Evaluating any bijection or distribution on a batch equals evaluating it on each element, for every batch rank including none and size one; compiling, vectorizing, or splitting and merging a module through its state equals calling it directly. Evaluation never alters a module's parameters.",
  ["inputs", "configurations"],
  "all bijections and distributions, batch shapes, under jit, vmap and split/merge",
  "tests fix one batch shape per test, so accidental dependence on the batch layout is not exposed",
  ["utils.py", "bijections/base.py", "bijections/scalar.py", "bijections/coupling.py", "distributions.py"],
  [("ShapeInfo, effective_shape", "utils.py"), ("nnx module pytrees", "bijections/base.py")],
  ["outputs per batch element"])

p("C21", "Parameter selection freezes exactly what is frozen",
  "Constants and frozen parts are never selected as trainable parameters and everything else is, in every nesting, and selecting, updating and merging parameters changes only the selected ones. Parameters given as arrays, variables, initializers or shapes are wrapped consistently, and adding noise to a module perturbs only its parameters of the chosen kind.",
  ["configurations", "programs", "histories"],
  "all nestings of frozen and trainable parts, all kinds of parameter arguments, update histories",
  "tests freeze one layer; leakage appears only for nested or shared structures",
  ["utils.py", "bijections/base.py"],
  [("Const, FrozenFilter, Frozen", "utils.py"), ("default_wrap, noise_model", "utils.py")],
  ["selected states and values after updates"])

p("C22", "Diagnostics equal their definitions and respect their bounds",
  "The effective sample size lies between one over n and one, does not depend on an overall normalization of either density, and equals its definition; the reverse Kullback-Leibler estimate equals the mean log ratio; and moving averages equal the average over each window. All are invariant under reordering where their definition is.",
  ["inputs"],
  "all sample counts, log-density values including equal, very different and shifted ones, window sizes",
  "tests use a handful of vectors; overflow, shift dependence and window alignment need extreme or structured inputs",
  ["utils.py"],
  [("effective_sample_size, reverse_dkl, moving_average", "utils.py")],
  ["returned values"])

p("C23", "Embeddings and feature maps compute the functions they document",
  "Embeddings map each scalar to its documented feature vector for every batch shape, respect periodicity and boundary values, and linear reductions combine exactly those features. Non-linear lattice features depend pointwise on the field, their reported divergence is the derivative of the features they return, and networks return outputs of the documented shape for every input.",
  ["inputs", "configurations"],
  "all embedding classes, feature counts (even and odd), ranges, batch shapes, input values including boundaries",
  "tests check shapes and a few values at one feature count; parity and boundary cases are not covered",
  ["nn/embeddings.py", "nn/features.py", "nn/nets.py"],
  [("KernelGauss, KernelLin, KernelFourier, KernelReduced, PositionalEmbedding", "nn/embeddings.py"), ("FourierFeatures, PolynomialFeatures, ConcatFeatures", "nn/features.py"), ("MLP, ResNet", "nn/nets.py")],
  ["embedding vectors, features, divergences, output shapes"])

with open("/verif/properties.jsonl", "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
