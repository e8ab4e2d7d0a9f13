"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os

P = []
G = "gconv/geometry/groups/"
KER = "gconv/gnn/kernels/kernel.py"
MOD = "gconv/gnn/modules/gconv.py"
LAYERS = ["gconv/gnn/modules/gconv_sen/gconv_se2.py", "gconv/gnn/modules/gconv_sen/gconv_se3.py",
          "gconv/gnn/modules/gconv_en/gconv_e2.py", "gconv/gnn/modules/gconv_en/gconv_e3.py"]
KERNELS = ["gconv/gnn/kernels/kernel_sen/kernel_se2.py", "gconv/gnn/kernels/kernel_sen/kernel_se3.py",
           "gconv/gnn/kernels/kernel_en/kernel_e2.py", "gconv/gnn/kernels/kernel_en/kernel_e3.py",
           "gconv/gnn/kernels/kernel_sen/kernel_so3.py"]


def add(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))


add("C01", "Lifting convolutions are equivariant",
    "For every lifting layer (SE2, E2, SE3, E3), transforming the input image or volume by any symmetry g of the sampling lattice (for E2/E3 including the improper elements the library defines) and left-multiplying the output group grid by g gives exactly the original output, transformed by g in space and unchanged along the group axis. In particular, on a grid closed under g the output is the original one, moved in space and permuted along the group axis, with no change of sign or scale. This holds for every kernel size, channel grouping, stride, padding, padding mode, dilation, sampling mode and mask setting for which g maps the sampled output positions to themselves, and commutes with translations of the input.",
    ["inputs", "configurations"],
    "all lattice symmetries (4 in SE2, 8 in E2, 24 in SE3, 48 in E3) x layer configurations x a basis of all inputs (one-voxel impulses) x on- and off-lattice group grids",
    "test_equivariance runs one SE3 layer on one input and asserts nothing (it plots); the other tests check shapes only.",
    [KER, MOD] + LAYERS + KERNELS,
    [("spatial action of the inverse element on the kernel coordinates, then sampling of the stored weights", KER + " GLiftingKernel.forward"),
     ("group axis folded into the channel axis of an ordinary convolution", MOD + " GLiftingConvNd.forward")],
    observe=["returned features and grid of GLiftingConv{SE2,E2,SE3,E3}"])

add("C02", "Group convolutions are equivariant",
    "For every separable and full group convolution (SE2, E2, SE3, E3) and every convolution built on a subgroup-only kernel, acting with a lattice symmetry g on the input (moving it in space and left-multiplying the input grid) and left-multiplying the output grid by g gives the original output moved in space by g. This holds for input and output grids of equal or different sizes, on or off the lattice, and for all hyper-parameters that respect the lattice. The sampled group-axis weights depend on an input element h and output element k only through the relative element k^-1 h.",
    ["inputs", "configurations"],
    "all lattice symmetries x layer kinds x (in-grid, out-grid) pairs incl. different sizes x configurations x impulse basis inputs",
    "No test compares outputs for two related inputs; shape tests always use equal in and out grids.",
    [KER, MOD] + LAYERS + KERNELS,
    [("kernel sampled at the relative group element and the relative position", KER + " GSeparableKernel/GSubgroupKernel/GKernel.forward"),
     ("group axis folding", MOD + " GSeparableConvNd/GConvNd.forward")],
    observe=["returned features of GSeparableConv*/GConv*", "weights returned by the kernels"])

add("C03", "Stacked layers stay equivariant and pooled features are invariant",
    "Any network built by composing a lifting layer, group convolutions, normalisation, activation, spatial pooling and wrapped element-wise modules commutes with the lattice symmetries, and after group or global pooling (max or average) over a grid closed under the symmetry its features are invariant. This holds for every order and depth of composition in evaluation mode, and for the improper elements of the E layers as well as rotations. A transformed batch also gives invariant pooled features in training mode.",
    ["programs", "inputs"],
    "all layer sequences up to a depth bound over the layer alphabet x all lattice symmetries x the four groups",
    "Tests instantiate single layers and never compose them; composition is where axis and sign errors accumulate or cancel.",
    [MOD, "gconv/gnn/modules/pooling.py", "gconv/gnn/modules/normalization.py", "gconv/gnn/modules/activations.py", "gconv/gnn/modules/wrappers.py"] + LAYERS,
    [("every module maps (features, grid) to (features, grid) and acts identically on all group slices", "gconv/gnn/modules/*.py")],
    observe=["features returned by stacks of public modules"])

add("C04", "Layers compute the group convolution for every hyper-parameter",
    "Given the kernel a layer samples, its output equals the textbook group convolution of the input: for every output channel, output group element and output position, the sum over the input channels of its channel group, all input group elements and all kernel taps, plus the bias. Stride, integer/tuple/'same'/'valid' padding, padding mode, dilation and channel groups mean what they mean for an ordinary convolution and are applied exactly once. A separable layer equals a group-axis mixing followed by a depth-wise spatial convolution.",
    ["inputs", "configurations"],
    "product of kernel kinds, group sizes, channel groups, strides, paddings, padding modes, dilations, bias, kernel and image sizes against a naive loop model",
    "The tests use padding='same', stride 1, dilation 1, zeros padding only, and check the shape of the result.",
    [MOD], [("convolution call and axis folding", MOD), ("padding set-up", MOD + " GroupConvNd.__init__")],
    observe=["features returned by every conv layer"])

add("C05", "Kernels sample their stored weights at the transformed coordinates",
    "The spatial kernel returned for group element h is the stored weight function interpolated at h^-1 applied to the kernel coordinates, multiplied by the mask and by 1/|det h|; the group part for output element k and input element h is the stored group signal interpolated at k^-1 h. Every stored weight entry drives exactly one (output channel, input channel) connection, the same one for all group elements, and the result is linear in the stored weights. The returned axes are (out channel, out element, in channel per group[, in element], space).",
    ["inputs", "configurations"],
    "all kernel classes x a basis of the weight space (one-hot weights) x grids of different sizes x groups x mask x sampling modes, against an independent sampler",
    "Kernel tests check shapes with equal in and out grids, so swapped or mixed axes are invisible.",
    [KER] + KERNELS, [("sampling and reshaping of the weights", KER)],
    state=[("weight / weight_H", "stored weight samples on the reference grid", KER)],
    observe=["tensors returned by the kernel modules"])

add("C06", "Output group axis and returned grid always correspond",
    "Slice i of a layer's group axis always belongs to element i of the grid it returns: re-ordering or restricting the requested output grid re-orders or restricts the slices, and re-ordering the input grid together with the input's group axis changes nothing. With grid permutation enabled, the returned grid is the requested (or default) grid left-multiplied by one valid random group element, and the features equal those of the same layer asked for that grid explicitly; with it disabled the requested grid is returned unchanged. If no grid is requested, lifting and E layers use their own reference grid and SE group layers the input grid.",
    ["inputs", "configurations"],
    "all permutations and sub-grids of small grids x layers x enumerated answers of the random generator",
    "Tests check only that the returned grid equals the given one with permutation off; the random case and the correspondence of slices are never observed.",
    LAYERS + [KER, MOD], [("random translate of the output grid", LAYERS[0] + " (and siblings) forward"), ("group axis ordering", KER)],
    observe=["(features, grid) returned by all twelve layers"])

add("C07", "Group operations obey the group laws",
    "The product, inverse, identity and determinant operations of SO(2), O(2), SO(3) (matrices and quaternions) and O(3) form a group: associative, with two-sided inverses and identity, multiplicative determinant, and closed on the documented parameterisation (unit sign, orthonormal rotation, unit quaternion). The element-wise (broadcasting) and the all-pairs products agree. Batched calls equal the element-wise calls for every leading shape the operations document.",
    ["inputs"],
    "all words up to a length bound over generators of finite subgroups (C_n, C_n x Z2, octahedral, icosahedral, full octahedral), every state and transition compared with exact integer arithmetic",
    "The group tests check output shapes of single products of one grid, and do not even collect at this commit.",
    [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py"],
    [("product / inverse / det functions", G)],
    observe=["return values of the group functions"])

add("C08", "Actions on space are homomorphic, orthogonal and sign-correct",
    "Acting on vectors with a product equals acting with the factors in turn, the identity acts trivially, the inverse undoes the action, and lengths and angles are preserved, for SO(2), O(2), SO(3) and O(3) on grids of any spatial shape. The determinant reported for an element is the determinant of the linear map by which it acts on space, so improper elements really are reflections. Angle and matrix forms of the same element act identically.",
    ["inputs"],
    "all pairs of finite-subgroup elements x basis vectors and coordinate grids of several shapes, against exact integer matrices",
    "Only the shape of one action result is checked.",
    [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py"],
    [("left_apply_to_R2/R3", G)], observe=["return values of the action functions"])

add("C09", "Rotation parameterisations convert without changing the rotation",
    "Converting a rotation between matrix, quaternion, Euler angles, logarithm, and (on the sphere) spherical, Euclidean and Euler forms, in any chain, always describes the same rotation or point, including gimbal lock, half turns, the identity and antipodes. Quaternion and axis conventions are consistent across all functions and with the actions on space. The result does not depend on how rotations are batched, nor on the other rotations in the batch.",
    ["inputs", "programs"],
    "all conversion chains up to a length bound over an exhaustive lattice of angles including all degenerate ones, plus all pairs in a batch",
    "No test converts anything; degenerate rotations are a measure-zero set that random samples never hit.",
    [G + "so3.py", G + "s2.py", G + "so2.py"],
    [("conversion functions", G + "so3.py"), ("sphere conversions", G + "s2.py")],
    observe=["return values of the conversion functions"])

add("C10", "Named finite groups are exactly those groups",
    "The identity, Klein, tetrahedral, octahedral, icosahedral and cyclic grids contain exactly 1, 4, 12, 24, 60 and n distinct unit elements, are closed under product and inverse, contain the identity, and form the group they are named after (element orders and, for cyclic groups, rotation about the named axis in equal steps). The smaller named groups are contained in the larger ones as subgroups. Axis names are accepted in either case and anything else is rejected.",
    ["inputs", "configurations"],
    "all elements and all pairs of every named group, all cyclic orders up to a bound and all axes",
    "No test touches these tables; one wrong sign in 60 rows goes unnoticed.",
    [G + "so3.py"], [("tables of quaternions", G + "so3.py")], observe=["returned grids"])

add("C11", "Grid generators always return valid grids",
    "For every requested size, subgroup split and parameterisation, the uniform and random grid generators return exactly that many valid elements in the documented layout (angles in range, unit quaternions, proper rotation matrices, sign before rotation with proper elements first), whatever the random generator answers. Uniform grids have distinct, well separated elements; planar ones are equally spaced starting at zero. The same request describes the same kind of grid whether or not it is served from the built-in table, and unsupported parameterisations are rejected.",
    ["configurations", "inputs"],
    "all sizes up to a bound x parameterisations x subgroup splits x enumerated random answers, plus every entry of the built-in grid table",
    "Tests look at the shape of one grid of 8 elements.",
    [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py", G + "s2.py", G + "_grid_cache.py"],
    [("uniform_grid / random_grid", G), ("built-in table", G + "_grid_cache.py")], observe=["returned grids"])

add("C12", "Grid requests are independent of history",
    "What a grid request returns does not depend on what callers did with earlier results: modifying a returned grid, or loading a checkpoint into a layer that uses a default grid, never changes later requests, other layers, or the built-in table. A grid stored in the cache by one request is what later requests for the same size and parameterisation return, in that parameterisation, and other sizes and parameterisations are unaffected. Saving without permission to overwrite keeps the first stored grid.",
    ["histories"],
    "all operation sequences up to a depth bound over request / cache / save / overwrite / mutate-result / build-layer / load-checkpoint with small sizes, against a dictionary model",
    "A test never issues a second request after touching the first result; the table is shared process-wide mutable state.",
    [G + "_grid_cache.py", G + "so3.py", G + "o3.py"],
    [("table look-up and store", G + "_grid_cache.py"), ("cached return in uniform_grid", G + "so3.py")],
    state=[("grid table", "process-wide dict of grids by type, parameterisation and size", G + "_grid_cache.py")],
    observe=["so3.uniform_grid, o3.uniform_grid, layer outputs"])

add("C13", "Interpolation on groups is exact at nodes and symmetric",
    "Sampling a signal given on grid nodes returns the stored values at the nodes, is linear in the signal, acts on every signal channel separately, does not depend on the order of nodes or queries, and is unchanged when nodes and queries are left-multiplied by the same element. Nearest-neighbour mode returns the value of a closest node, radial-basis mode the Gaussian interpolant of the given half-height width, barycentric mode a convex combination; for O(2) and O(3) proper and improper queries use only proper and improper nodes. Quaternion and matrix inputs, and q and -q, give the same result, and unknown modes are rejected.",
    ["inputs", "configurations"],
    "all sub-grids of finite groups up to a size as node sets x all elements as queries x one-hot signals x modes x widths, against an independent float64 interpolant",
    "One shape test per group; values are never checked.",
    ["gconv/geometry/interpolation.py", G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py"],
    [("interpolate_RBF / interpolate_NN / interpolate_BCC", "gconv/geometry/interpolation.py"), ("grid_sample", G)],
    observe=["return values of grid_sample and interpolate_*"])

add("C14", "Geodesic distances and density-based widths are right",
    "Geodesic distances are symmetric, zero only for the same rotation, invariant under multiplication on either side, and equal to the true angle (half the rotation angle for quaternions); the nearest-neighbour distance of an element ignores the element itself. When no sampling width is given, every group kernel uses 0.8 times the mean nearest-neighbour distance of its reference grid (per subgroup for E kernels), so sampled weights stay finite and do not vanish between grid elements; a given width is used as is.",
    ["inputs", "configurations"],
    "all pairs and triples of finite-group elements, all reference grid sizes up to a bound x kernel classes, widths recovered from the sampled weights",
    "Shape tests pass even when the layer returns NaN or zero weights for every off-grid element.",
    [G + "so2.py", G + "so3.py", G + "s2.py"] + KERNELS,
    [("nearest_neighbour_distance", G), ("default width", KERNELS[0] + " (and siblings)")],
    observe=["distance functions", "weights returned by kernels"])

add("C15", "Pooling reduces exactly the documented axes",
    "Spatial pooling (max, average and their adaptive forms, 2d and 3d, with any window, stride, padding, dilation or ceil mode) acts on every channel and group slice exactly as the ordinary pooling layer would, keeps the channel and group axes, and returns the grid unchanged. Group pooling reduces only the group axis and global pooling the group and all spatial axes, returning a tensor of maxima or means. Group and global pooling do not depend on the order of the group elements.",
    ["inputs", "configurations"],
    "all pooling classes x window/stride/padding/ceil configurations x shapes x impulse inputs and orderings, against a loop model",
    "No test imports a pooling module.",
    ["gconv/gnn/modules/pooling.py"], [("pooling forwards", "gconv/gnn/modules/pooling.py")],
    observe=["return values of the pooling modules"])

add("C16", "Normalisation, activations and wrappers treat all group slices alike",
    "Batch and instance normalisation use one mean, variance and affine pair per channel computed jointly over group and space (and batch, for batch norm); running statistics after any sequence of training and evaluation calls are those of the ordinary layer on the folded input. Activations and wrapped modules act element-wise, and all of them return the grid unchanged and commute with any permutation of group elements and positions. A wrapped module's parameters and train/eval state are those of the wrapper.",
    ["histories", "configurations", "inputs"],
    "all train/eval/forward/reset histories up to a depth x module classes x options, against a reference model of the statistics",
    "No test imports these modules.",
    ["gconv/gnn/modules/normalization.py", "gconv/gnn/modules/activations.py", "gconv/gnn/modules/wrappers.py"],
    [("folding of the group axis", "gconv/gnn/modules/normalization.py"), ("wrapping", "gconv/gnn/modules/wrappers.py")],
    observe=["return values and buffers of the modules"])

add("C17", "Layers are pure and independent of each other",
    "A forward pass never changes its inputs, the grids given to it, the layer's parameters and buffers, or any other layer, and repeating it gives the same result. In any interleaving of constructing, calling, re-initialising, changing weights of, copying, moving to another precision and training-stepping several layers, each layer behaves as if it were alone. Results reflect the current weights, never those of an earlier call.",
    ["histories"],
    "all operation sequences up to a depth bound over two or three live layers, each compared with the same operations on an isolated copy",
    "Each test builds a layer and calls it once; stale caches and shared state need a second call.",
    [KER, MOD] + LAYERS + KERNELS,
    [("kernel sampled afresh in every forward", KER), ("per-instance buffers and keyword dictionaries", KER + " GroupKernel.__init__")],
    state=[("buffers and sampling keyword dicts", "per-instance configuration", KER)],
    observe=["features returned by layers over a history"])

add("C18", "Concurrent use gives the same results as serial use",
    "Any interleaving of forward passes by several threads through one shared layer, through different layers, or of grid requests, gives each caller exactly the result it would get alone. No interleaving deadlocks, raises, or leaves the layer or the grid table changed, and of several threads that store a grid without permission to overwrite the first one wins.",
    ["schedules"],
    "all two-thread interleavings at source-line granularity of library code up to a preemption bound",
    "No test uses threads; interpreter schedules that expose shared scratch state are rare.",
    [KER, MOD, G + "so3.py", G + "_grid_cache.py"],
    [("no mutable state is written during forward", KER + ", " + MOD)],
    observe=["values returned to each thread"])

add("C19", "Saved state restores the layer exactly",
    "Loading a layer's saved state into a newly built layer with the same arguments (strictly, with no missing or unexpected entries), or copying or pickling the layer, yields a layer with the same reference grid and the same outputs for the same grids, for every layer kind and configuration. Restoring one layer never changes another one.",
    ["histories", "configurations"],
    "all layer kinds x configurations x save/load/copy/pickle/perturb histories up to a depth",
    "No test saves or loads anything.",
    [KER, MOD] + KERNELS, [("registered parameters and buffers", KER + " GroupKernel.__init__")],
    state=[("grid_H, grid_Rn, mask, weights, bias", "state_dict entries", KER)],
    observe=["state_dict round trips"])

add("C20", "Gradients are the exact derivatives of the outputs",
    "For every layer and every trainable parameter and input, the gradient of the output is the exact derivative: each weight entry's gradient equals the response of the layer to that entry alone, the bias gradient is the number of positions, and the input gradient is the adjoint of the layer's linear map. Every parameter of a layer influences its output, and pooling, normalisation, activation and wrapper modules pass gradients as the ordinary modules do. Re-initialisation draws new finite values for all parameters.",
    ["inputs", "configurations"],
    "all weight entries and all input entries of small layers (complete by multilinearity) x layer kinds x configurations",
    "No test calls backward; a detached or in-place-modified kernel still has the right shape.",
    [KER, MOD, "gconv/geometry/interpolation.py"], [("differentiable sampling", KER)],
    observe=["autograd results"])

add("C21", "Constructor arguments mean what they document",
    "Every documented constructor argument takes effect: disabling the mask removes it, a provided reference grid overrides the group kernel size, an integer group kernel size means that size for rotations and reflections, sampling modes and padding modes select the named method, and bias adds one learnable value per output channel. Invalid combinations (non-divisible channel groups, bad padding strings or modes, 'same' with stride, non-positive group sizes, unknown modes) are rejected with an error instead of computing something else. Documented import paths expose the documented modules, needing only the declared dependencies.",
    ["configurations"],
    "the full product of small argument domains for all layer classes, valid and invalid, against a table model of the documented meaning",
    "Tests pass a handful of combinations and look at shapes; a silently ignored argument keeps the shape.",
    [MOD, KER] + LAYERS + KERNELS, [("argument validation", MOD + " GroupConvNd.__init__"), ("forwarding to kernels", LAYERS[0] + " (and siblings)")],
    observe=["constructors and forward results"])

add("C22", "Results follow device, precision and memory layout of their inputs",
    "Every grid, mask and group constructor creates its result on the requested device, layers keep working after conversion to double precision with outputs in that precision that agree up to rounding, and no module depends on the memory layout (contiguity, channels-last, expanded or sliced views) or batch composition of its inputs. Splitting a batch and concatenating the results equals processing it whole.",
    ["configurations", "inputs"],
    "all constructors x devices (including the allocation-free device), all layers x precisions x memory layouts x batch splits",
    "Tests use contiguous float32 CPU tensors only.",
    [G + "so2.py", G + "o2.py", G + "so3.py", G + "o3.py", "gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py", "gconv/gnn/modules/normalization.py"] + LAYERS,
    [("device arguments", G), ("reshaping", MOD)], observe=["dtype, device and values of results"])

add("C23", "Coordinate grids and masks match the sampling convention",
    "For every size, the 2d and 3d coordinate grids are centred, symmetric under all lattice symmetries, span [-1, 1], and are ordered so that resampling an image (with aligned corners) on the untransformed grid reproduces it without moving, mirroring or transposing it, and resampling on the grid rotated by a lattice symmetry gives exactly the rotated image. The spherical mask is binary, symmetric, and keeps exactly the positions within the unit ball (up to a 10 percent margin); a kernel of any size keeps at least its innermost positions, so no layer is masked to zero.",
    ["configurations", "inputs"],
    "all sizes up to a bound x all lattice symmetries x impulse images",
    "Grids and masks are only used indirectly in shape tests.",
    ["gconv/gnn/functional/grid.py", "gconv/gnn/functional/mask.py"],
    [("create_grid_R2/R3", "gconv/gnn/functional/grid.py"), ("masks", "gconv/gnn/functional/mask.py")],
    observe=["returned grids and masks", "layers with kernel sizes 1, 2, ..."])

add("C24", "Repulsion honours its contract",
    "Repulsion returns a grid of the same shape that stays finite and requires no gradient, for every step count, step size, random answer and metric with finite slope, and is the described gradient descent on the mean energy, perturbed by noise that scales with alpha and fades linearly; it leaves the given grid untouched unless asked to work in place, in which case exactly that grid is updated. With zero noise it is deterministic, never moves elements without steps, gives results that do not depend on previous calls or the surrounding gradient mode, and lowers the repulsion energy for small steps. Elements keep their order.",
    ["configurations", "histories", "inputs"],
    "all combinations of steps, in-place flag, metric, noise answers and starting grids up to small bounds, and call sequences up to a depth, against a reference gradient descent",
    "No test calls it; it runs only for sizes that are not in the built-in table.",
    ["gconv/geometry/repulsion.py"], [("SGD loop with decaying noise", "gconv/geometry/repulsion.py")],
    observe=["returned grid, the given grid"])

add("C25", "Custom groups plugged into the base classes get a correct convolution",
    "A user who supplies the documented group operations (inverse, product, action, sampling, optionally determinant and mask) for any finite group acting linearly on the plane or space gets lifting, separable, subgroup and full kernels and layers that are equivariant under that group; for sets of elements with non-unit determinant, such as scalings, the kernels are those of the definition, divided by the absolute determinant. Supplied operations are called with the documented shapes and keyword arguments, and omitted optional ones default to no effect. Layers of different custom groups do not influence each other.",
    ["programs", "configurations", "inputs"],
    "several small user-defined groups (true dihedral, non-abelian, anisotropic, scalings) x kernel kinds x layer kinds x grids of different sizes x optional operations present or absent",
    "No test builds a custom kernel; the tutorial only prints shapes.",
    [KER, MOD, "gconv_tutorial.ipynb"], [("generic kernels and layers", KER + ", " + MOD)],
    observe=["features returned by custom layers"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
