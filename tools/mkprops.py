"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=["src/bijx/" + f for f in files],
            mechanism=[dict(name=n, where="src/bijx/" + w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("P01", "Elementwise bijections match their formulas and are exactly invertible",
"""Every elementwise bijection (Gaussian CDF, tangent, sigmoid, tanh, exponential, softplus, power, sinh, affine, scaling,
shift, beta stretch, cubic rational, sinh- and cubic-conjugation, monotone rational-quadratic spline), for every valid parameter
value, maps each input of its domain to the value of its documented formula, strictly monotonically and inside its documented range.
Applying the reverse map to the result recovers the input, and applying the forward map to the reverse of any point of the range
recovers that point.""",
["inputs", "configurations"],
"""all valid parameters (including negative scales, parameters that are transformed, learnable or fixed, scalar or per-element), all real
inputs in the numerically resolvable part of the domain, including zero, negative values, tails, points at and outside spline interval
boundaries and exactly on knots""",
"""Tests evaluate the default parameters on a fixed handful of normal draws; wrong branches (interval boundaries, tails, negative scales,
non-default parameters) need specific inputs and parameter combinations.""",
["bijections/scalar.py", "bijections/analytic.py", "bijections/splines.py"],
[("fwd/rev pairs", "bijections/scalar.py:GaussianCDF..BetaStretch"), ("cubic root solver", "bijections/analytic.py:solve_cubic"),
 ("spline segment search and quadratic root", "bijections/splines.py:rational_quadratic_spline")],
["forward/reverse return values"])

p("P02", "Elementwise log-density changes equal the true log-Jacobian",
"""For every elementwise bijection, valid parameters and input, the forward direction changes the log-density by exactly minus the sum over
all event elements of log|dy/dx| of the map it actually applies, and the reverse direction by the exact opposite at the corresponding point.
The value is finite and accurate also far in the tails wherever the map itself is.""",
["inputs", "configurations"],
"""all valid parameters and inputs as in the round-trip property; event shapes of any rank; any incoming log-density value""",
"""Tests compare Jacobians for default-initialised modules at a few random points; sign and factor errors that vanish at the default
parameters or in the bulk are invisible to them.""",
["bijections/scalar.py", "bijections/analytic.py", "bijections/splines.py"],
[("log_jac formulas", "bijections/scalar.py:log_jac"), ("sum over event dimensions", "bijections/scalar.py:sum_log_jac"),
 ("analytic log gradients", "bijections/analytic.py:log_grad_sinh_nonlinearity, log_grad_cubic_nonlinearity"),
 ("spline derivative", "bijections/splines.py:rational_quadratic_spline")],
["log-density returned by forward/reverse", "automatic differentiation of the forward map"])

p("P03", "Bijections act independently on each sample of any batch shape",
"""Applying any bijection to a batch with arbitrary leading batch dimensions gives, for each sample, exactly what applying it to that sample
alone gives, for both the transformed value and the log-density, and the log-density keeps the batch shape.
This includes scalar events, empty batch shapes, batches of size one or zero and batch sizes that coincide with event sizes, and holds whether event
dimensions are inferred from the log-density's rank or fixed by the bijection.""",
["inputs", "configurations"],
"""all provided bijections (elementwise, spline, coupling, radial, spectral, Fourier, meta, composed, continuous flows), batch shapes of rank 0 to 3, event shapes, directions""",
"""Tests use one or two batch shapes per class; broadcasting errors surface only when batch and event sizes coincide, for rank-0 batches,
or for several batch dimensions.""",
["bijections/scalar.py", "bijections/splines.py", "bijections/coupling.py", "bijections/radial.py", "bijections/fourier.py", "bijections/meta.py", "bijections/base.py", "bijections/continuous.py"],
[("event rank inferred from log-density", "bijections/scalar.py:sum_log_jac"), ("autovmap decorations", "bijections/splines.py, bijections/coupling.py, bijections/radial.py")],
["forward/reverse return values and shapes"])

p("P04", "Composing, inverting and wrapping bijections obeys function algebra",
"""A chain applies its parts left to right (reverse: right to left) and accumulates their log-density changes, a scanned stack equals the chain
of its layers, inversion swaps the two directions and inverting twice restores the original, a conditional inverse behaves as original or inverse
according to its flag, and freezing changes no value.
Shape-only layers change neither values nor log-density and undo each other, a partial application binds keyword arguments exactly as
documented, and keyword arguments (global, or per element of a chain) reach each layer, in both directions.""",
["inputs", "programs", "configurations"],
"""all expression trees built from chains, inversions, conditional inverses, frozen wrappers, scanned stacks, partials and shape layers
over elementary bijections, with any keyword-argument routing""",
"""The space of compositions is unbounded; tests check a few two-element chains and single wrappers.""",
["bijections/base.py", "bijections/meta.py"],
[("chaining and argument lists", "bijections/base.py:Chain"), ("scan over stacked layers", "bijections/base.py:ScanChain"),
 ("inverse wrappers", "bijections/base.py:Inverse, CondInverse"), ("shape layers and partial", "bijections/meta.py")],
["forward/reverse results compared with an interpreter of the expression tree"])

p("P05", "Coupling layers are bijective, keep the passive part, exact Jacobian",
"""A coupling layer, for any mask, conditioner network and inner bijection, and for both mask modes (splitting by index or multiplying), leaves
the passive elements unchanged, changes the active ones by the inner bijection with parameters that depend only on the passive ones, is undone by its reverse,
and reports the exact log-determinant of its Jacobian.
It never modifies the arrays passed to it.""",
["inputs", "configurations"],
"""all boolean masks (checkerboard, from indices, from boolean arrays; both parities; unequal halves), one- and multi-dimensional events, scalar, spline and vector
inner bijections, conditioners, batch shapes, split and multiplicative mode""",
"""Tests use one 4-element or 4x4 mask and smooth conditioners; leaks between halves and wrong Jacobians depend on the mask, mode and event shape.""",
["bijections/coupling.py"],
[("split/merge by mask", "bijections/coupling.py:BinaryMask.split, merge"), ("parameter injection", "bijections/coupling.py:GeneralCouplingLayer._apply")],
["layer outputs, dense Jacobian by automatic differentiation"])

p("P06", "Binary masks partition events losslessly",
"""A binary mask splits every event array into two parts that together contain each element exactly once in a fixed order, merging the parts
(in the same arrangement) restores the array exactly, also with extra channel dimensions, and the element counts are consistent.
Construction from indices and from a boolean array agree, flipping exchanges the parts, multiplying by the mask or by its complement zeroes exactly the other part, and checkerboard
masks alternate between neighbouring sites of any shape.""",
["inputs", "configurations"],
"""all boolean arrays of any rank, index specifications (flat or per dimension), batch shapes, numbers of extra channel dimensions""",
"""Tests look at a few 2- to 4-element masks; index arithmetic errors need particular shapes, ranks and channel layouts.""",
["bijections/coupling.py"],
[("index selection", "bijections/coupling.py:BinaryMask"), ("checkerboard", "bijections/coupling.py:checker_mask")],
["split/merge results, masks and counts"])

p("P07", "Module parameters can be flattened, replaced and rebuilt losslessly",
"""For every module, the parameter description (shapes, data types, sizes, total size) matches its actual parameters, and rebuilding the module from
parameters given as a flat array, as lists of arrays, as dictionaries or as a state gives a module that behaves identically to the original with those parameters set.
Rebuilding with batched parameters applies each parameter set to its own input exactly as a loop over the batch would.""",
["inputs", "programs", "configurations"],
"""all parameterised modules (bijections, nested compositions, networks), parameter values, dtypes, batch shapes of parameters and inputs, all representations""",
"""Tests use one spline and one linear module; orderings and offsets only go wrong for several parameters of different shapes and nested modules.""",
["bijections/coupling.py"],
[("parameter flattening", "bijections/coupling.py:ModuleReconstructor.from_params"), ("automatic vectorisation", "bijections/coupling.py:AutoVmapReconstructor")],
["rebuilt modules' outputs and parameter values"])

p("P08", "Radial transformations keep directions and have exact Jacobians",
"""A radial transformation moves every point of a vector space along the ray from its centre, the new distance being the image of the old one (after scaling) under its
scalar bijection, is undone by its reverse, and reports the exact log-determinant in the given dimension, for any centre, scaling and strictly increasing scalar map of the half-line.
The conditional variant does the same with the scalar map determined by the direction only, and the ray wrapper restricts a bijection of the line to the half-line it fixes.""",
["inputs", "configurations"],
"""all dimensions, centres, scalings (per-dimension or common), scalar maps and chains of them, batch shapes, points near to and far from the centre""",
"""Tests use a single dimension, zero centre and a few random points.""",
["bijections/radial.py"],
[("radial map", "bijections/radial.py:Radial.apply, RadialConditional.apply"), ("half-line restriction", "bijections/radial.py:RayTransform")],
["outputs and dense Jacobians"])

p("P09", "Spectral scaling is diagonal in momentum space with exact Jacobian",
"""Scaling a real field's spectrum multiplies each Fourier mode by the scale at its momentum, gives a real field, is undone by its reverse,
and changes the log-density by minus the log-determinant of that linear map, counting each independent mode once and each channel.
With the free-field spectrum the scales are the documented function of mass, lattice momenta, finite size and dimension, so that white noise becomes a field with the free propagator.""",
["inputs", "configurations"],
"""lattice shapes of rank 1 to 3 with odd and even sides, channel dimensions, masses (fixed or learnable), lattice and continuum momenta, spectra positive or negative and symmetric under momentum reversal""",
"""Tests use square even lattices and near-trivial spectra, for which independent-mode counting and momentum ordering errors cancel.""",
["bijections/fourier.py"],
[("spectrum multiplication", "bijections/fourier.py:SpectrumScaling.scale, apply"), ("free spectrum", "bijections/fourier.py:FreeTheoryScaling")],
["outputs, dense Jacobian of the map on small lattices"])

p("P10", "Fourier representations of real fields convert without loss",
"""All representations of a real field's spectrum (real space, half-spectrum, independent complex modes, independent real degrees of freedom) convert into each other in any
order and back to the original field exactly, and agree with the discrete Fourier transform of the field.
The independent real degrees of freedom number exactly the lattice sites, every momentum and conjugate-mode pairing recorded for them agrees with the transform's own modes,
and momentum grids are the documented ones (folding, lattice or continuum, half-spectrum or full).""",
["inputs", "configurations", "programs"],
"""lattice shapes of rank 1 to 3, odd and even sides including size 1 and 2, channel dimensions, batch shapes, sequences of conversions""",
"""Tests use few small shapes; conjugate pairings on self-conjugate planes differ for every parity pattern of the sides.""",
["fourier.py", "bijections/fourier.py"],
[("mode bookkeeping", "fourier.py:FourierMeta"), ("conversions", "fourier.py:FourierData"), ("momenta", "fourier.py:fft_momenta")],
["converted arrays, momentum arrays"])

p("P11", "Continuous flows agree with the exact flow, in both directions",
"""A continuous-flow bijection, with any of the solver back-ends, maps a point to the solution of its differential equation at the end of the time interval, up to the accuracy of its
solver, changes the log-density by minus the integrated divergence, and its reverse undoes it.
This holds for every time interval, for intervals overridden at the call, for time-dependent fields, keyword arguments, and any step size, also if it does not divide the interval.""",
["inputs", "configurations"],
"""linear and nonlinear time-dependent vector fields with known flows, time intervals of any length (and, where supported, direction), overrides, step sizes, batch and event shapes, solver back-ends""",
"""Tests integrate over the unit interval with step sizes that divide it and compare forward with reverse only, so errors symmetric in both directions stay invisible.""",
["bijections/continuous.py", "solvers.py", "cg.py"],
[("augmented state integration", "bijections/continuous.py:solve_flow"), ("time overrides", "bijections/continuous.py:reverse, solvers.py:DiffraxConfig.optional_override")],
["flow outputs and log-densities compared with closed-form solutions"])

p("P12", "Fixed-step integrators have their nominal order and correct gradients",
"""The fixed-step integrators return the solution at exactly the requested end time for any step size, converge to the exact solution with the order of the method as the step shrinks,
and use the final shorter step correctly.
Their gradients with respect to initial values and parameters converge to the gradients of the exact solution, and all coefficient tableaux satisfy the order conditions they claim.""",
["inputs", "configurations"],
"""nonlinear, non-autonomous and matrix-valued equations, random initial values and parameters, time intervals, step sizes, all provided coefficient tableaux, pytree states""",
"""Tests check one or two equations at a single step size with loose tolerances; a wrong stage time or coefficient degrades only the order.""",
["solvers.py", "cg.py"],
[("RK4 with adjoint", "solvers.py:odeint_rk4"), ("Crouch-Grossmann with adjoint", "cg.py:crouch_grossmann"), ("tableaux", "cg.py:ButcherTableau")],
["solutions, gradients by automatic differentiation"])

p("P13", "Matrix-group integration stays on the group and follows its convention",
"""Integrating a differential equation whose velocity is a Lie-algebra element acting on a group-valued state keeps the state in the group (unitary, and of unit determinant
where the velocity is traceless) to machine precision for any number of steps, and for constant velocity gives exactly the exponential acting from the declared side.
Mixed states integrate every component as its own type, and requested projections return group elements and leave group elements unchanged.""",
["inputs", "histories", "configurations"],
"""state sizes, batch shapes, left and right actions, algebra-valued vector fields (constant, time-dependent, state-dependent), step sizes, numbers of steps, projection options, nested state structures""",
"""Tests run a few steps of one small matrix equation; drift and side-convention errors need non-commuting velocities and many steps.""",
["cg.py"],
[("exponential update", "cg.py:Matrix.reduce, cg_stage"), ("projections", "cg.py:Unitary, UnitaryDeriv")],
["states after integration"])

p("P14", "Learned convolutional vector fields report their exact divergence",
"""The lattice convolution vector field, for any feature maps, time embeddings, kernel symmetries and parameter values, returns together with the velocity the exact trace of the velocity's
Jacobian with respect to the field, for each sample of a batch.
It commutes with lattice translations and with the symmetries of its kernel; the automatic-divergence wrapper and the nonlinear feature layers likewise report exact divergences.""",
["inputs", "configurations"],
"""lattice shapes, kernel sizes, feature maps and their combinations, embedding sizes, reduced or unreduced dimensions, parameter values away from initialisation, times, batch shapes""",
"""At initialisation the field is zero, so tests that do not randomise parameters see zero divergence; each configuration has its own divergence formula.""",
["bijections/conv_cnf.py", "bijections/continuous.py", "nn/features.py"],
[("analytic divergence", "bijections/conv_cnf.py:ConvVF.__call__"), ("feature Jacobians", "nn/features.py:NonlinearFeatures.__call__"), ("dense divergence", "bijections/continuous.py:AutoJacVF")],
["velocity and divergence, dense Jacobian"])

p("P15", "Symmetric convolutions are the periodic convolutions they claim to be",
"""A symmetric convolution equals the periodic convolution with its unfolded kernel, commutes with translations and with every symmetry its parameter sharing claims, for all lattice shapes and kernel sizes.
Sites share a parameter exactly if a claimed symmetry (or equal distance) relates them, unfolding and folding kernels are inverse on symmetric kernels, and resizing a kernel keeps its centre, its symmetry and,
when enlarging, the total weight.""",
["inputs", "configurations"],
"""lattice ranks 1 to 3, odd and even lattice and kernel sizes up to the lattice size, channel counts, symmetry choices (none, square group, distance), batch shapes""",
"""Tests use 2-D lattices and one kernel size; even sizes, wrap-around edges and full-size kernels follow separate code.""",
["nn/conv.py"],
[("orbits", "nn/conv.py:gather_orbits, kernel_d4, kernel_equidist"), ("fold/unfold/resize", "nn/conv.py:fold_kernel, unfold_kernel, resize_kernel_weights"), ("layer", "nn/conv.py:ConvSym")],
["outputs versus direct summation"])

p("P16", "Densities are the documented normalised densities, and samples follow them",
"""For every distribution (independent normal or uniform, diagonal and full multivariate normal), all parameters and batch shapes, the log-density of a point is the documented normalised density
independent of the rest of the batch, and parameter accessors (covariance, variances, mean) describe that same density.
Samples have the requested batch and event shape, carry exactly the log-density the distribution assigns to them, are reproducible from the random key, independent across the batch, and follow the density.""",
["inputs", "configurations"],
"""dimensions, means, covariances given in every supported form (dimension, covariance, Cholesky or variances, also with negative factors), batch shapes, random keys, explicit or stored random state""",
"""Tests compare a standard normal with one reference value; wrong normalisation or covariance appears only for general parameters and shapes.""",
["distributions.py"],
[("Cholesky parameterisation", "distributions.py:MultivariateNormal"), ("independent components", "distributions.py:IndependentNormal, IndependentUniform"), ("diagonal", "distributions.py:DiagonalNormal")],
["log-densities against a reference library, sample statistics"])

p("P17", "Mixture distributions are the weighted sums of their components",
"""The log-density of a mixture is, for every point and any batch shape, the log of the weighted sum of its components' densities with weights normalised from the given unnormalised logits (or as documented), stable also
when components are far apart.
Samples come from component k with its weight, each sample independently, with the log-density of the whole mixture.""",
["inputs", "configurations"],
"""numbers of components, weights, means, covariances (full, diagonal, default), component types, batch shapes, random keys, far-tail points""",
"""Tests use two equal components at one point; weight normalisation and component selection need unequal weights and many samples.""",
["distributions.py"],
[("stacked components", "distributions.py:MixtureStack"), ("Gaussian mixtures", "distributions.py:GaussianMixture")],
["log-densities, sample statistics"])

p("P18", "Transformed distributions are the exact pushforward of their prior",
"""A distribution transformed by a bijection samples by transforming prior samples, assigns to each of its samples exactly the log-density it returned with it, and
gives every point the prior's log-density at the preimage minus the log-determinant, so its total probability is one.
This holds for all priors, bijections and batch shapes, for transformed distributions used as priors, and keyword arguments reach the bijection.""",
["inputs", "programs", "configurations"],
"""priors, bijections and compositions of them, batch shapes, random keys, keyword arguments, nesting of transformed distributions""",
"""Tests check shapes and one chain; sign errors cancel when only samples of the same object are compared.""",
["samplers.py"],
[("pushforward", "samplers.py:Transformed")],
["samples and log-densities, numerical integration"])

p("P19", "Buffered sampling yields each buffered sample once, in step with its density",
"""Sampling through a buffer returns samples of the underlying distribution paired with their own log-densities, uses every buffered entry exactly once before refilling, never repeats an entry, and refills exactly when the buffer is exhausted.
Requests for batches, explicit random keys and log-density queries give what the underlying distribution gives, and any history of such calls keeps this so.""",
["histories", "inputs", "configurations"],
"""arbitrary interleavings of single-sample requests, batch requests, keyed requests and density queries; buffer sizes from 1; underlying distributions; eager and compiled use""",
"""Tests draw a few samples; index errors show up only at the buffer's boundary after particular call histories.""",
["samplers.py"],
[("buffer and index", "samplers.py:BufferedSampler")],
["sequence of returned samples, number of draws from the underlying distribution"])

p("P20", "Independence Metropolis-Hastings follows its acceptance rule at every step",
"""Each step draws a proposal from the sampler and accepts it with probability min(1, ratio of importance weights), keeping the previous state otherwise; the reported acceptance, proposal and probability and the new state's
log-densities are mutually consistent, for every history of steps, also with infinite or extreme log-weights.
As a result the chain leaves the target distribution invariant, runs identically when compiled or scanned, and is a function of the random keys alone.""",
["histories", "inputs", "configurations"],
"""sampler/target pairs incl. zero-density regions and extreme weight ratios, random keys, chain lengths, batched chains, discrete toy targets with exact stationary laws""",
"""Tests run a short chain for a Gaussian and check the acceptance rate loosely; a wrong ratio direction or a stale log-density still yields plausible rates.""",
["mcmc.py"],
[("transition", "mcmc.py:IMH.step"), ("initial state", "mcmc.py:IMH.init")],
["states and infos of every step, empirical versus exact transition frequencies"])

p("P21", "Random group elements are Haar distributed elements of SU(N)",
"""Sampled matrices are unitary with determinant one to machine precision, for every group size, batch shape and random key, are independent across the batch, and their distribution is invariant under multiplication by fixed group elements (moments of traces and entries
agree with the exact Haar values).
The corresponding distribution object has the documented event shape, constant zero log-density with the right batch shape, and lattice configurations have one independent group element per link.""",
["inputs", "configurations"],
"""group sizes 2 and above, batch shapes, lattice shapes, random keys""",
"""Tests check unitarity for one size; a missing phase correction or a shared draw passes such tests but changes the distribution.""",
["lie.py"],
[("QR with phase correction", "lie.py:sample_haar, _haar_transform"), ("quaternion sampling for N=2", "lie.py:sample_haar"), ("distribution", "lie.py:HaarDistribution")],
["sampled matrices and their moments"])

p("P22", "Eigenangle densities are the exact Haar eigenvalue law",
"""The density of eigenvalue angles is the squared Vandermonde density of Haar measure: symmetric under permutations and common sign flips of the angles, zero at coinciding eigenvalues, and integrating to one over the documented domain with the documented normalisation, for every N.
Matrices constructed from angles have exactly those eigenvalues and unit determinant, and evaluation on grids agrees with pointwise evaluation at correctly shaped and constrained grid points.""",
["inputs", "configurations"],
"""group sizes 2 to 4, angles, batch shapes, grid sizes, density functions, normalisation domains""",
"""Tests spot-check N=2 and 3 for shape and positivity; normalisation and constraint errors need integration or general N.""",
["lie.py"],
[("density", "lie.py:compute_haar_density"), ("normalisation", "lie.py:_haar_eigenangle_normalization_constant"), ("matrices from angles", "lie.py:construct_su_matrix_from_eigenvalues"), ("grids", "lie.py:create_eigenvalue_grid, evaluate_density_on_eigenvalue_grid")],
["densities, integrals, matrices"])

p("P23", "Lie-group derivatives equal derivatives along one-parameter curves",
"""For any smooth function on matrices, the algebra-valued gradient is an algebra element whose pairing with any direction is the derivative of the function along the corresponding one-parameter subgroup, from the declared side; value-gradient-divergence, curve derivatives and path derivatives (first, second,
divergence) equal the corresponding derivatives along the exponential curves for all generators given.
Options (argument position, returned value, auxiliary output, side) change nothing else, and matrix contraction, adjoint and scalar product match their index definitions.""",
["inputs", "programs", "configurations"],
"""functions (traces of words, real and imaginary parts, several arguments, vector-valued), group elements of several sizes, generator sets, directions, option combinations, pytrees of group elements""",
"""Tests differentiate one or two trace functions; factors of two, sides and orderings matter only for non-commuting data and higher order.""",
["lie.py"],
[("cotangent projection", "lie.py:skew_traceless_cot, grad"), ("curve derivatives", "lie.py:curve_grad"), ("path derivatives", "lie.py:path_grad, path_grad2, path_div"), ("contraction", "lie.py:contract")],
["derivatives versus finite differences / nested automatic differentiation along exponentials"])

p("P24", "Gauge action and gauge-lattice symmetries are exact",
"""The Wilson action equals the sum over all sites and planes of the real plaquette traces with the documented sign and normalisation, for every dimension, lattice shape and group size, with batches evaluated sample by sample, and the log-probability is its negative.
It is invariant under arbitrary local gauge transformations, lattice translations, axis exchanges, reflections and rotations, each of which maps links to the correctly relocated, re-oriented and conjugated links and composes as the symmetry group does.""",
["inputs", "configurations"],
"""dimensions 2 to 4, unequal side lengths including size 1 and 2, group sizes, couplings, arbitrary group-valued links, all axes and sequences of symmetry operations""",
"""Tests use square 2-D lattices; wrong shifts or orientation only break invariance for general links, unequal sides or more dimensions.""",
["lattice/gauge.py", "lattice/general.py"],
[("plaquettes", "lattice/gauge.py:wilson_action, wilson_log_prob"), ("symmetries", "lattice/gauge.py:swap_axes, flip_axis, rotate_lat, apply_gauge_sym"), ("translations", "lattice/general.py:roll_lattice")],
["actions, transformed lattices versus brute-force loops"])

p("P25", "Scalar-field observables equal their defining lattice sums",
"""Correlators, the two-point function (averaged or not, central or plain), correlation length, kinetic, polynomial and quartic terms equal their defining sums over periodic lattice sites, for every lattice rank, shape (odd, even, unequal, size 1) and field, real or complex where documented.
The action is invariant under translations, reflections and axis permutations of the field.""",
["inputs", "configurations"],
"""lattice ranks 1 to 3 (4), shapes, ensembles of fields, pytrees where accepted, polynomial coefficients, couplings""",
"""Tests compare a few values on small square lattices; index direction and normalisation errors vanish for symmetric or square data.""",
["lattice/scalar.py"],
[("correlators", "lattice/scalar.py:cyclic_corr, cyclic_tensor, cyclic_corr_mat, two_point"), ("action terms", "lattice/scalar.py:kinetic_term, poly_term, phi4_term, phi4_term_alt")],
["returned arrays versus direct numpy loops"])

p("P26", "Conversion to and from FlowJAX preserves every map and density",
"""Wrapping a bijection or distribution for the other library, or converting back and forth, preserves its forward and inverse maps, log-determinants (with the right sign convention), log-densities, samples' log-densities, shapes and conditioning inputs.
Converting a wrapped object back returns the original behaviour, and batched inputs give per-sample results. A converted object can be compiled, split and merged, differentiated and composed like any other of its library.""",
["inputs", "programs", "configurations"],
"""FlowJAX bijections/distributions (with and without conditioning, chains) and their counterparts here, event shapes, batch shapes, conditions, round trips of conversion""",
"""Tests convert a few fixed examples; the sign conventions differ between the libraries and per-direction mistakes are masked by round trips.""",
["flowjax.py"],
[("adapters", "flowjax.py:FlowjaxToBijxBijection, BijxToFlowjaxBijection, FlowjaxToBijxDistribution, BijxToFlowjaxDistribution"), ("entry points", "flowjax.py:to_flowjax, from_flowjax")],
["outputs on both sides"])

p("P27", "Embeddings and network layers compute their documented functions",
"""Scalar embeddings (Gaussian, piecewise linear, Fourier, positional, reduced) return for inputs of any shape the documented feature vectors with the documented feature count, range rescaling and normalisation, element by element.
Feature layers and the simple networks produce outputs of the declared shape that equal the documented composition, act on each sample of a batch independently, and convolutional networks with periodic padding commute with lattice translations.""",
["inputs", "configurations"],
"""feature counts, value ranges, option flags, inputs of any shape inside and outside the range, layer sizes, activations, batch shapes""",
"""Tests check output shapes of one configuration each.""",
["nn/embeddings.py", "nn/features.py", "nn/nets.py"],
[("embeddings", "nn/embeddings.py"), ("features", "nn/features.py"), ("networks", "nn/nets.py")],
["feature arrays versus reference formulas"])

p("P28", "Sampling diagnostics and shape utilities compute what they define",
"""Effective sample size and reverse KL estimates equal their defining formulas for all log-densities, are invariant under constant shifts as appropriate, bounded, and stable for extreme values; moving averages equal windowed means.
Shape descriptions split any array shape into batch, spatial and channel parts consistently, however specified; flattening and canonicalising only reshape, without reordering or losing elements, and equal descriptions hash equally.""",
["inputs", "configurations"],
"""log-density arrays of any size and magnitude including -inf, windows, event shapes with any combination of given event shape, dimension and channel counts, array shapes""",
"""Tests use small well-behaved arrays and a couple of shapes.""",
["utils.py"],
[("diagnostics", "utils.py:effective_sample_size, reverse_dkl, moving_average"), ("shape bookkeeping", "utils.py:ShapeInfo")],
["returned values"])

p("P29", "Everything is functionally pure: compile, split, vectorise, freeze alike",
"""Every bijection and distribution gives the same result, and the same derivatives of it, eagerly, compiled, vectorised, after splitting into and merging from its state, and after copying; repeated calls give identical results and calls never alter parameters.
Parameters given as plain arrays, shapes, variables or fixed constants become trainable, trainable, kept and non-trainable respectively; frozen parts expose no trainable parameters, and noise added to a model changes exactly the selected parameters.""",
["programs", "inputs", "configurations"],
"""all provided bijections and distributions and compositions of them, parameter specifications, filters, noise scales, random keys, transformation combinations""",
"""Tests compile a few classes; state that is captured at trace time, mutated, or mis-registered as pytree only shows in combinations of transformations.""",
["utils.py", "bijections/base.py", "bijections/fourier.py", "distributions.py", "fourier.py"],
[("parameter wrapping", "utils.py:default_wrap, Const"), ("freezing", "bijections/base.py:Frozen, utils.py:FrozenFilter"), ("noise", "utils.py:noise_model")],
["results under different transformations, parameter states"])

p("P30", "Derivatives used for training and for forces are exact and finite",
"""Losses built from values and log-densities of bijections (both directions), from densities and fixed-key samples of distributions, from lattice actions, diagnostics and networks have derivatives with respect to inputs and parameters equal to the limit of difference quotients, in reverse, forward and second order where these modes are supported.
Derivatives stay finite and follow the documented formula over the resolvable domain of each map, outside, at the ends and on the knots of splines; frozen and constant parts take no part in trainable-parameter derivatives.""",
["programs", "inputs", "configurations"],
"""all differentiable bijections, distributions, actions, diagnostics, networks; parameters, inputs including tails, knots and boundaries, losses, differentiation modes""",
"""Tests differentiate a few objects at benign points; guarded branches (jnp.where), custom derivative rules and stop-gradients produce nan or wrong gradients only at special inputs or through one argument.""",
["bijections/scalar.py", "bijections/splines.py", "bijections/analytic.py", "bijections/fourier.py", "bijections/continuous.py", "distributions.py", "lattice/scalar.py", "lattice/gauge.py", "nn/embeddings.py"],
[("custom derivative rules", "solvers.py:_rk4_odeint, cg.py:_crouch_grossmann"), ("guarded branches", "bijections/splines.py, bijections/radial.py")],
["derivatives of scalar losses"])

p("P31", "Single precision agrees with double precision",
"""With the default 32-bit types every function of the library returns 32-bit results of the same structure and shape that equal the double-precision results for the same inputs and parameters up to single-precision rounding: forward and inverse bijections and their log-density changes (also far from the origin), log-densities, Fourier representations, lattice and gauge observables, group functions, integration, networks and embeddings, diagnostics, and gradients.
Random samples in single precision are finite, in the support of the distribution or in the group, follow the law, and carry their log-density.""",
["inputs", "configurations"],
"""all provided bijections, distributions, lattice functions, group functions, integrators and networks, parameters and single-precision inputs of any magnitude in the domain, eager or compiled evaluation""",
"""Nearly all tests enable double precision or use loose tolerances; guards (eps), thresholds and cancellations that are harmless in double precision show in single precision for some inputs only.""",
["bijections/splines.py", "bijections/scalar.py", "bijections/analytic.py", "distributions.py", "fourier.py", "lie.py", "cg.py", "solvers.py", "lattice/scalar.py", "lattice/gauge.py", "nn/conv.py", "nn/embeddings.py", "utils.py"],
[("guards scaled by machine precision", "bijections/splines.py:rational_quadratic_spline"), ("thresholds", "bijections/analytic.py, lattice/scalar.py"), ("types of arrays made inside", "fourier.py, nn/conv.py, distributions.py")],
["returned values, types and derivatives under 32-bit types"])

p("P32", "Inconsistent specifications are rejected, consistent ones accepted",
"""Where sizes, shapes, types or modes given by the user contradict each other or are unknown, an error is raised at construction or first use instead of a result computed from a guess: parameter specifications, sampling without random numbers, dimensions of means, covariances and scales, shapes of reshaping, masking and coupling layers, parameters of rebuilt modules, Runge-Kutta schemes, velocities and arguments of integrators, conversions to and from FlowJAX and their conditions, symmetric kernels and their orbits, lattice functions, Fourier representations, matrix products, group generators and event shapes.
The corresponding consistent specifications are accepted.""",
["inputs", "configurations"],
"""specifications of every part of the library, random sizes and shapes, with at most one inconsistency of random kind""",
"""Tests probe a handful of errors; numpy-style broadcasting and clamped indexing turn a missing or weakened check into silently wrong numbers for some sizes only.""",
["utils.py", "distributions.py", "bijections/meta.py", "bijections/coupling.py", "cg.py", "solvers.py", "flowjax.py", "nn/conv.py", "nn/embeddings.py", "lattice/scalar.py", "lattice/gauge.py", "fourier.py", "lie.py"],
[("parameter specifications", "utils.py:default_wrap"), ("coupling layers and masks", "bijections/coupling.py:GeneralCouplingLayer, BinaryMask, ModuleReconstructor"), ("schemes", "cg.py:ButcherTableau")],
["exceptions raised or not"])

with open("/verif/properties.jsonl", "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for r in P: jsonschema.validate(r, s)
    print("valid", len(P))
except ImportError:
    print("no jsonschema", len(P))
