"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why, anchors=a))

prop("C01", "Model bookkeeping of params, gradients, dims and references is a state machine",
 "For every sequence of operations on a model, its dimensions, parameters, gradients and references read back exactly what was last written: present, registered-but-unset and unknown names are told apart, a set dimension cannot silently change, gradient increments add up (to gradients and parameters of that one model only), and reading, querying or failing operations change nothing. "
 "Unknown names and unset values are reported as errors by the strict getters and as None by the lenient ones. With a parameter proxy, every write and gradient reaches the proxy once and it answers every read.",
 ["histories"], "all operation sequences up to a depth over one and two models with colliding names, every argument drawn from a small alphabet",
 "the tests call a handful of straight-line sequences; the property is about every history of set/increment/force/unset operations",
 ["thinc/model.py", "thinc/backends/_param_server.py"],
 [("ternary has_*/get_*/maybe_get_*/set_*", "thinc/model.py"), ("parameter and gradient storage, increment", "thinc/backends/_param_server.py")],
 [("_params/_grads", "arrays keyed by (model id, name)", "thinc/backends/_param_server.py")])

prop("C02", "Serialization round-trips any model tree, through bytes, dict and disk",
 "Saving a model and loading the result into an equally built model reproduces its dimensions, parameters, attributes, node references, wrapped external models and predictions; saving again gives identical data. "
 "This holds whatever the tree looks like: shared layers, unset parameters, unset dimensions, references, custom attribute types, several wrapped models.",
 ["programs", "configurations"], "all small model trees/DAGs (node kinds x sharing x refs x attrs x shims) and every way through bytes, dict and disk",
 "the tests round-trip a few fixed models, mostly trees without sharing or references",
 ["thinc/model.py", "thinc/shims/shim.py", "thinc/shims/pytorch.py", "thinc/util.py"],
 [("to_dict/from_dict/to_bytes/from_bytes/to_disk/from_disk", "thinc/model.py"), ("shim serialization", "thinc/shims")])

prop("C03", "Compatibility checks predict loading, and damaged model files never load",
 "The check whether data is compatible with a model answers yes only for data that then loads without error and round-trips, and answers no when the model cannot hold the data as it is: when the number of layers or of external models, the value of a set dimension or the shape of a set parameter differs, when the data has a dimension or parameter the model lacks, and, when strict, when a name or a comparable attribute differs. "
 "A model file cut short at any byte is refused with an error and leaves the model that tried to load it unchanged.",
 ["programs", "crash_points"], "all ordered pairs of small models for the compatibility check, and every proper prefix of each model file for the damage part",
 "the tests check four hand-picked incompatible pairs and no damaged file",
 ["thinc/model.py"], [("can_from_dict/can_from_bytes/can_from_disk, from_dict", "thinc/model.py")])

prop("C04", "Copies and clones are faithful and independent",
 "A copy of a model computes the same predictions and gradients as the original, has the same structure (same sharing of layers, same dimensions, attributes and node references, pointing into the copy), and gets fresh ids. "
 "Afterwards no operation on one of the two (parameter, gradient, dimension, attribute, layer or reference changes, training steps) is observable on the other.",
 ["programs", "histories"], "all small model DAGs; after copying, every single mutation on either side",
 "the tests copy two or three models and look at one parameter",
 ["thinc/model.py", "thinc/layers/clone.py", "thinc/backends/_param_server.py"],
 [("copy with node memo", "thinc/model.py"), ("clone layer", "thinc/layers/clone.py")])

prop("C05", "Tree traversal and edits keep the layer graph and references consistent",
 "Walking a model yields every reachable node exactly once in the requested order (breadth-first, depth-first pre- or post-order). Removing a node takes it out of all layer lists and unsets exactly the references that no longer point into the tree; replacing a node puts the new one at every place, and in every reference, where the old one was, and leaves everything else unchanged. Wrapping every node, or changing attributes by node name, reaches exactly the nodes it should.",
 ["programs", "histories"], "all layer DAGs up to a number of nodes, all reference assignments up to a number of references, every node removed or replaced, and sequences of two edits",
 "the tests use one or two hand-drawn trees",
 ["thinc/model.py"], [("walk, remove_node, replace_node, set_ref", "thinc/model.py")])

prop("C06", "Temporary overrides end with their block, however the block ends",
 "Blocks that temporarily replace parameters, the current backend, the operator bindings or the data validation switch restore the previous state when they end, also when the body, or the replacement itself, raises, when blocks nest, and for every layer and wrapped model in the tree. Inside the block the replaced state is in effect.",
 ["fault_sequences", "programs"], "all nestings of override blocks up to a depth, with an exception at every possible point",
 "the tests leave every block normally",
 ["thinc/model.py", "thinc/backends/__init__.py", "thinc/util.py", "thinc/shims/pytorch.py"],
 [("use_params, define_operators", "thinc/model.py"), ("use_ops, set_current_ops", "thinc/backends/__init__.py"), ("data_validation", "thinc/util.py")])

prop("C07", "Concurrent threads do not disturb each other",
 "Under every thread interleaving: models created or copied concurrently get distinct ids, and so do external model wrappers; the current backend and the operator bindings chosen in one thread are never seen by another; and several threads predicting with the same model get the same results as one thread alone.",
 ["schedules"], "all interleavings (at line and at bytecode granularity in the library) of two or three small threads up to a preemption bound",
 "the tests run two threads freely once or twice",
 ["thinc/model.py", "thinc/backends/__init__.py", "thinc/shims/shim.py", "thinc/optimizers.py"],
 [("id counter under lock; thread-local operators", "thinc/model.py"), ("context/thread ops state", "thinc/backends/__init__.py"), ("shim ids", "thinc/shims/shim.py")])

prop("C08", "Backpropagation returns the true gradient for every layer and composition",
 "For every layer and every composition of layers, the callback returned by a training-mode forward pass maps an output gradient to the derivative of the forward function with respect to the input, and adds the derivative with respect to each parameter to that parameter's gradient, for every input shape including empty batches and empty sequences where the layer accepts them (layers that end in a softmax take the derivative with respect to its logits, as documented).",
 ["programs", "inputs"], "every built-in layer configuration and every combinator expression up to a depth over all small batch shapes; the oracle is numerical differentiation along every coordinate",
 "the tests check a few layers with sampled shapes and mostly compare shapes, not derivatives; compositions are not checked",
 ["thinc/layers", "thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx"],
 [("forward/backprop pairs", "thinc/layers/*.py"), ("combinator backprops", "thinc/layers/{add,chain,concatenate,residual,tuplify,siamese,map_list}.py")])

prop("C09", "Forward and backward passes leave the caller's data alone and commute",
 "Neither a forward pass nor a backprop callback changes the arrays it was given (inputs, output gradients) or outputs handed out earlier, and callbacks of several pending forward passes can be called in any order relative to each other and to further forward passes: input gradients, and the accumulated parameter gradients, come out the same as when each pass is done on its own.",
 ["histories", "programs"], "all interleavings of begin/backprop events of up to three passes, over every layer and small compositions including aliasing ones",
 "the tests run one forward followed by its backward",
 ["thinc/layers", "thinc/model.py"],
 [("closures holding per-call state; inc_grad", "thinc/layers/*.py, thinc/model.py")])

prop("C10", "Prediction is pure and repeatable",
 "Predicting does not change the model's parameters, gradients, dimensions, attributes or serialized form, nor the input, and returns the same output as any other non-training forward pass with the same parameters, whatever predictions or training passes happened before; nor does it change what any later training pass, seeded alike, computes. For layers without noise a training-mode forward pass returns that output as well (a softmax told not to normalize predicts the scores instead).",
 ["histories"], "all histories of predict / begin_update / finish / resize events up to a depth, on every layer",
 "the tests predict once after training",
 ["thinc/model.py", "thinc/layers"], [("predict / is_train plumbing", "thinc/model.py and all layers")])

prop("C11", "Batching does not change results: every item is processed independently",
 "For models over lists of sequences, ragged or padded batches and plain rows, the output for each item equals the output when that item is processed in a batch of its own, for every batch composition: any number of items, any lengths including zero where accepted, any order. The same holds for input gradients, and all supported batch representations give the same results.",
 ["inputs"], "all length vectors up to a size and their permutations, for every sequence layer and wrapper and every representation",
 "the tests use one batch with lengths sampled once",
 ["thinc/layers", "thinc/backends/ops.py"],
 [("with_array/with_list/with_padded/with_ragged/with_flatten transforms", "thinc/layers"), ("sequence kernels", "thinc/backends")])

prop("C12", "Conversions between sequence representations lose nothing",
 "Flattening, padding, ragged and padded conversions are exact inverses for every list of sequences, including empty lists and zero-length sequences, extra padding between sequences, and any data type: contents, order, lengths, feature shape and data type survive. Padded batches are sorted by decreasing length, padding is zero, and the number of active sequences per step matches the lengths.",
 ["inputs"], "all length vectors up to a size and value, feature shapes, data types, padding widths",
 "the tests use a few sampled shapes, and empty sequences only in single cases",
 ["thinc/backends/ops.py", "thinc/layers"],
 [("flatten/unflatten/pad/unpad/list2padded/padded2list", "thinc/backends/ops.py"), ("list2ragged, ragged2list, list2padded, padded2list, list2array layers", "thinc/layers")])

prop("C13", "Indexing batches is like indexing a list of sequences",
 "Indexing or slicing a ragged batch, padded batch, pair of sequences or argument container with an integer, slice (any bounds and step), or integer sequence selects exactly the items that the same index selects from the corresponding list, in the same order, keeping each item's data, length and feature shape, and the result is itself a well-formed batch (padded ones sorted by length, with matching per-step sizes).",
 ["inputs"], "all containers up to a number of items and lengths, and all integer, slice and sequence indices over that range",
 "the tests try three indices on one fixed batch",
 ["thinc/types.py"], [("__getitem__ of Ragged, Padded, Pairs; ArgsKwargs", "thinc/types.py")])

prop("C14", "Compiled array kernels agree with their mathematical definition",
 "Every numeric operation of the CPU backend (matrix products, activations, reductions, windowing, max-pooling and their backward forms) returns what its mathematical definition gives, in the input's float type, for every shape including empty ones, every memory layout and both precisions; it agrees with the generic backend implementation, changes its arguments only when asked to work in place, and refuses lengths that do not fit the data.",
 ["inputs"], "all operations x all small shapes and length vectors x layouts x float types x in-place flags, with values on both sides of every branch threshold",
 "the tests sample shapes with hypothesis, C-contiguous only, mostly one precision",
 ["thinc/backends/numpy_ops.pyx", "thinc/backends/cpu_kernels.hh", "thinc/backends/ops.py", "thinc/backends/cblas.pyx"],
 [("kernels", "thinc/backends/cpu_kernels.hh"), ("wrappers and generic fallbacks", "thinc/backends/numpy_ops.pyx, ops.py")])

prop("C15", "Embedding, hashing and id-mapping are exact for every id",
 "Looking up, hashing, counting n-grams of, remapping and scattering updates to integer ids gives the documented row or value for every id pattern (duplicates, boundary ids, empty batches, every supported integer type and column), gradients of repeated ids add up, ids outside a table are refused instead of reading or writing foreign memory, and keys that are missing map to the default.",
 ["inputs"], "all small id arrays over an alphabet of boundary values, all table sizes up to a bound, all integer types",
 "the tests use a handful of fixed id arrays",
 ["thinc/layers/hashembed.py", "thinc/layers/embed.py", "thinc/layers/remap_ids.py", "thinc/layers/premap_ids.pyx", "thinc/layers/sparselinear.pyx", "thinc/backends/numpy_ops.pyx", "thinc/backends/ops.py"],
 [("gather_add, scatter_add, hash, ngrams", "thinc/backends"), ("Embed, HashEmbed, remap_ids, premap_ids, SparseLinear", "thinc/layers")])

prop("C16", "Optimizers follow their update rule over any training history",
 "For every sequence of updates over several parameters and schedule steps, the optimizer changes each parameter exactly as its published rule prescribes from that parameter's own history (SGD, Adam, RAdam, with weight decay, L2, clipping, learning-rate scaling and averages), zeroes the gradient it consumed, and never lets one parameter's history influence another's. Updating a model touches every parameter with a gradient exactly once and no other.",
 ["histories", "configurations"], "all histories of update/step/score events over colliding keys up to a depth, for every combination of options, against a reference written from the published rules",
 "the tests run a couple of updates and check that loss falls",
 ["thinc/optimizers.py", "thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/model.py"],
 [("Optimizer.__call__, _adam, _radam", "thinc/optimizers.py"), ("adam kernel, clip_gradient", "thinc/backends"), ("finish_update", "thinc/model.py")])

prop("C17", "Schedules yield the documented value at every step",
 "Each schedule's value at a step is the documented closed form, whatever steps were asked before, and iterating over it yields the same values step by step; a plateau schedule's rate depends only on the history of distinct evaluations, shrinking exactly when the allowed number of evaluations without improvement is used up. A list or generator used as schedule gives its items in order and repeats the last one.",
 ["histories", "inputs"], "all step query orders and score histories up to a length, all small parameters of each schedule",
 "the tests compare the first few values of each schedule",
 ["thinc/schedules.py", "thinc/optimizers.py"], [("schedule functions, plateau state, generator wrapping", "thinc/schedules.py, thinc/optimizers.py")])

prop("C18", "Losses and their gradients agree with their definition for every target form",
 "For every accepted way of writing the targets (class ids, names, one-hot rows, distributions, missing values, negative-prefixed names, label smoothing, sequences of those) the loss and its gradient are those of the equivalent one-hot target matrix, missing entries contribute nothing, the gradient matches the documented normalization, and malformed predictions or targets are refused.",
 ["inputs"], "all small target vectors over the label alphabet in each form x options x guesses",
 "the tests cover one example per form",
 ["thinc/loss.py", "thinc/util.py"], [("CategoricalCrossentropy, SequenceCategoricalCrossentropy, L2Distance, CosineDistance", "thinc/loss.py"), ("to_categorical", "thinc/util.py")])

prop("C19", "Minibatching partitions the data exactly",
 "Splitting data into minibatches yields every item exactly once, aligned across parallel sequences, in order (or, shuffled, in some order), with every batch of the requested size (constant, list or schedule of sizes) except the last of the data; the announced number of batches is right for constant sizes, and iterating again starts over.",
 ["inputs"], "all data lengths and size sequences up to a bound, all container types, all shuffles (the random source is enumerated), all buffer sizes",
 "the tests check one or two sizes",
 ["thinc/backends/ops.py", "thinc/util.py", "thinc/types.py"], [("minibatch, multibatch, _get_batch, get_batch_sizes", "thinc/backends/ops.py")])

prop("C20", "Initialization completes every dimension and parameter consistently",
 "Initializing a model from any sufficient mix of explicit dimensions and sample data sets every dimension it needs and creates every parameter with the shape those dimensions imply, in agreement with the data the model then accepts and produces; contradictory dimensions or sample data are refused, and initializing again keeps dimensions and shapes.",
 ["configurations", "programs"], "every layer and combinator composition x every subset of dimensions given explicitly x sample data given or not",
 "the tests initialize most layers once, with all dimensions or all data",
 ["thinc/model.py", "thinc/layers"], [("init callbacks", "thinc/layers/*.py"), ("Model.initialize", "thinc/model.py")])

prop("C21", "Transparent wrappers do not change the wrapped computation",
 "Wrapping a layer for debugging, profiling, deduplicating rows, selecting an item, mapping over lists, or sharing weights between inputs gives the results and gradients of the plain computation on every input; callbacks are invoked exactly once per phase in the right order, and resizing an output layer keeps all existing weights and fills new rows as documented.",
 ["inputs", "histories"], "all small inputs with every duplicate pattern, every wrapper over every small inner layer, all sequences of resizes up to a depth",
 "the tests wrap one layer and run one input",
 ["thinc/layers/uniqued.py", "thinc/layers/with_debug.py", "thinc/layers/with_nvtx_range.py", "thinc/layers/with_getitem.py", "thinc/layers/siamese.py", "thinc/layers/map_list.py", "thinc/layers/resizable.py", "thinc/layers/tuplify.py", "thinc/layers/noop.py", "thinc/layers/with_cpu.py", "thinc/layers/array_getitem.py"],
 [("wrapper forward/backprop", "thinc/layers")])

prop("C22", "Dropout is exactly a scaled mask, used identically forward and backward",
 "In training mode dropout multiplies each element by either zero or one over the keep probability, decided by the random source alone, keeping shape, lengths and type in every batch representation, and the backward pass multiplies by the very same mask. With rate zero, when disabled, or outside training it is the identity, and the same holds for the dropout built into other layers.",
 ["inputs", "histories"], "every outcome of the random source for small arrays, every representation, enabled/disabled/rate changes between forward and backward",
 "the tests check shapes and one rate",
 ["thinc/layers/dropout.py", "thinc/backends/ops.py", "thinc/layers/hashembed.py", "thinc/layers/embed.py", "thinc/model.py"],
 [("get_dropout_mask", "thinc/backends/ops.py"), ("Dropout", "thinc/layers/dropout.py"), ("set_dropout_rate", "thinc/model.py")])

prop("C23", "Wrapped PyTorch models behave like native layers",
 "A PyTorch module wrapped as a layer returns the module's outputs and autograd gradients for every nesting of inputs and outputs, trains through the optimizer like a native layer (each parameter updated once per step and its gradient cleared), can have its weights swapped temporarily, and survives copying and saving; the gradient scaler follows its documented grow/back-off rule for every history of overflows.",
 ["histories", "programs"], "all histories of forward/backward/update/swap/copy/save events up to a depth on small modules, all input nestings up to a depth, all overflow histories of the scaler",
 "the tests run single steps and compare shapes",
 ["thinc/shims/pytorch.py", "thinc/shims/pytorch_grad_scaler.py", "thinc/shims/torchscript.py", "thinc/layers/pytorchwrapper.py", "thinc/layers/torchscriptwrapper.py", "thinc/util.py"],
 [("PyTorchShim", "thinc/shims/pytorch.py"), ("conversion of nested arguments", "thinc/layers/pytorchwrapper.py, thinc/util.py"), ("PyTorchGradScaler", "thinc/shims/pytorch_grad_scaler.py")])

prop("C24", "Configs build the same model as code, and round-trip as text",
 "Any registered layer, optimizer, schedule, initializer or loss built from a config equals the one built by calling it with the same arguments, for nested blocks in any arrangement; a config survives writing to text and reading back, with every value kept, and settings that are unknown, missing or of the wrong type are refused.",
 ["programs", "configurations"], "all registered functions, nested config trees up to a depth and values over an alphabet of types, and every single-argument corruption",
 "the tests use fixed example configs",
 ["thinc/config.py", "thinc/layers", "thinc/optimizers.py", "thinc/schedules.py"],
 [("registry, Config", "thinc/config.py")])

prop("C25", "The LSTM computes the standard recurrence on every batch",
 "The LSTM layer's output for each sequence is the standard recurrence (every depth, both directions, the layer's initial state) applied to that sequence alone, whatever other sequences are in the batch, and its backward pass returns the derivative with respect to the inputs and to the weights.",
 ["inputs", "configurations"], "all length vectors up to a size, depths 1-2, one and two directions, all input representations; the oracle is a direct scalar recurrence in double precision and its derivative",
 "the tests check shapes and that training converges",
 ["thinc/layers/lstm.py", "thinc/backends/numpy_ops.pyx", "thinc/backends/ops.py"],
 [("lstm_forward_training, backprop_lstm", "thinc/backends/numpy_ops.pyx"), ("LSTM, PyTorchLSTM", "thinc/layers/lstm.py"), ("bidirectional", "thinc/layers/bidirectional.py")])

prop("C26", "Data validation accepts exactly what the declared types allow",
 "With data validation on, a layer initialized with data of the wrong kind, rank or number type for its declared input or output is refused with a validation error before any of its code runs, matching data is accepted and passed on as it is, and results are the same as with validation off; the switch holds for the innermost block of the current thread.",
 ["inputs", "configurations"], "every pair of declared type and data value over an alphabet of ranks, number types and containers; every layer of the library and every composition with its own data; all nestings and interleavings of the switch",
 "the tests try three mismatches",
 ["thinc/util.py", "thinc/types.py", "thinc/model.py"],
 [("validate_fwd_input_output", "thinc/util.py"), ("validate_array", "thinc/types.py")])

prop("C27", "Seeded runs replay exactly, and nothing draws random numbers unasked",
 "After fix_random_seed(s) every sequence of random operations (building and initializing layers, drop-out, shuffled batches, wrapped PyTorch modules, training) gives exactly the results it gave the last time, whatever ran before, in every thread and process and with either backend's initial weights; the seed reaches Python's, numpy's and PyTorch's random sources and defaults to 0. "
 "Predicting, copying, saving and training without drop-out draw no random numbers, and each layer's weights come from its documented default initializer.",
 ["histories", "configurations"], "all programs of random operations up to a length, replayed from several seeds after several earlier histories, in other threads and processes; every layer for what it may draw",
 "no test calls fix_random_seed twice and compares",
 ["thinc/util.py", "thinc/initializers.py", "thinc/backends/ops.py", "thinc/layers"],
 [("fix_random_seed", "thinc/util.py"), ("random draws in initializers, drop-out masks and shuffling", "thinc/initializers.py, thinc/backends/ops.py")])

prop("C28", "The static type checks report exactly the mismatched layers and array shapes",
 "With the mypy plugin, combining layers with chain, concatenate, add or a combinator declared the same way reports exactly the layers whose declared output does not fit the next layer's declared input (for chain) or whose input or output types differ from their neighbour's (for add and concatenate), at those layers, and gives the combination the input and output types it has, for any number of layers and nesting. "
 "The declared types of indexing (by integers, slices and integer arrays), summing and adding arrays are the ranks and number types numpy produces, and the layers' declared types are those of the data they take and return.",
 ["programs", "configurations"], "every pair of declared layer types over an alphabet, every position of a mismatch in combinations of up to 8 layers, nestings of depth 2, and every array expression up to rank 4",
 "the tests check four small modules against recorded output",
 ["thinc/mypy.py", "thinc/types.py", "thinc/layers"],
 [("function_hook, check_chained, check_intoin_outtoout", "thinc/mypy.py"), ("declared overloads of array types", "thinc/types.py")])

prop("C29", "GPU operations compute what the CPU operations compute, however the threads run",
 "Every array operation of the GPU backend (activations, softmax, maxout, layer norm, windows, gathering, padding, flattening, reductions over sequences, hashing, gradient clipping and their backward passes) returns the values, shapes and number types the CPU backend returns for the same input, whatever the layout, number type or size of the arrays. "
 "Each CUDA kernel gives that result for every number of blocks and threads and every order in which the threads run, writes only inside its outputs and relies on no memory it has not written.",
 ["inputs", "schedules"], "all small batches, ragged lengths, number types and memory layouts; all launch configurations up to a size, all thread orders of small launches and each thread alone for races",
 "the tests skip the GPU without a GPU, and one run on a GPU sees one schedule of one launch configuration",
 ["thinc/backends/cupy_ops.py", "thinc/backends/_custom_kernels.py", "thinc/backends/_custom_kernels.cu", "thinc/backends/_murmur3.cu"],
 [("CUDA kernels", "thinc/backends/_custom_kernels.cu, thinc/backends/_murmur3.cu"), ("launch wrappers", "thinc/backends/_custom_kernels.py"), ("CupyOps", "thinc/backends/cupy_ops.py")])

prop("C30", "A model works on the GPU as it does on the CPU, and moves between them unchanged",
 "A layer or model built on, moved to, copied on or loaded on the GPU has the parameters, predictions, gradients and dimensions it has on the CPU, never mixes host and GPU arrays, and returns GPU arrays for GPU input. "
 "Any history of moving (Model.to_gpu/to_cpu and the optimizer's), copying, saving, loading, training, accumulating and swapping in averages ends with the same parameters as on the CPU alone; moving keeps values and number types; losses, the helper functions and with_cpu work for GPU arrays; and the current backend follows require_gpu, prefer_gpu, require_cpu, set_current_ops and use_ops.",
 ["inputs", "histories"], "every native layer and wrapper with every small batch and way to get onto the device; all sequences of moves, training steps and other events up to a depth; all sequences of backend switches",
 "the tests skip the GPU without a GPU and never train across a move",
 ["thinc/model.py", "thinc/optimizers.py", "thinc/backends", "thinc/layers", "thinc/loss.py", "thinc/util.py"],
 [("to_gpu, to_cpu", "thinc/model.py, thinc/optimizers.py"), ("with_cpu", "thinc/layers/with_cpu.py"), ("require_gpu, prefer_gpu", "thinc/util.py"), ("CupyOps", "thinc/backends/cupy_ops.py")])

prop("C31", "Making, converting and reshaping arrays keeps elements, shapes and types",
 "Ops.asarray, as_contig, to_numpy, reshape and alloc with all their shortcuts by dimension and type give arrays of the requested shape and number type that hold the elements of their source in order, whatever it is: an array of any layout or type, nested or mixed lists and tuples, or a PyTorch tensor. "
 "xp2torch and torch2xp are each other's inverse, with and without gradients. to_categorical writes each class with its smoothing and refuses impossible settings, get_width gives the width of every batch type, copy_array copies, and the is_*_array functions recognise exactly their type. The source is never changed, and newly allocated arrays are zero and unshared.",
 ["inputs"], "all small shapes x number types x memory layouts x containers x conversion functions x backends; all class vectors and settings up to a size",
 "the tests convert a few contiguous float arrays; the property is about every layout, type, size (zero included) and container",
 ["thinc/backends/ops.py", "thinc/backends/numpy_ops.pyx", "thinc/util.py"],
 [("asarray, as_contig, to_numpy, reshape, alloc", "thinc/backends/ops.py"), ("xp2torch, torch2xp, to_categorical, get_width, copy_array, is_*_array", "thinc/util.py")])

prop("C32", "The C table of BLAS routines computes them, and each is replaced separately",
 "Each routine of the C BLAS table that NumpyOps.cblas() returns (saxpy, daxpy, sscal, dscal, sgemm, dgemm), called from C, computes its BLAS definition for every size (zero included), stride, leading dimension, transposition and factor, and writes nothing but its result. "
 "Setting a routine in a table changes exactly that routine of that table: no other routine, no other table, no later table and no backend that does not use it. Array operations on a backend that supplies its own table run on that table, call its routines within their contract and give the same results; backends without a table refuse.",
 ["inputs", "histories"], "all small sizes, strides, leading dimensions, transpositions and factors; all histories of replacing routines up to a depth; all small operations on replaced tables",
 "the table is only reachable from C, so no Python test calls or replaces its routines",
 ["thinc/backends/cblas.pyx", "thinc/backends/cblas.pxd", "thinc/backends/numpy_ops.pyx"],
 [("CBlas and its getters and setters", "thinc/backends/cblas.pyx"), ("callers", "thinc/backends/numpy_ops.pyx")])

prop("C33", "Failures leave no trace",
 "When any layer raises, before or after its work, in a prediction, a training pass, its backprop or its initialization, exactly that exception reaches the caller; the parameters, dimensions, attributes, references, inputs, current backend, validation switch and gradient mode are as before (after a failed backprop, apart from gradients already added), and repeating the operation gives what it would have given without the failure. "
 "When the optimizer fails during an update, every parameter has either been updated completely, with its gradient cleared, or not been touched. When copying or saving fails, the model is unchanged and a file saved before under that name is still there.",
 ["crash_points", "histories"], "every node of every layer and composition x before and after its forward pass, callback, initialization x every operation x earlier histories; every optimizer call; every attribute, reference and wrapped model when saving",
 "the tests check that some errors are raised, not what they leave behind",
 ["thinc/model.py", "thinc/layers", "thinc/shims", "thinc/optimizers.py"],
 [("Model.__call__, predict, begin_update, initialize, finish_update, to_disk, copy", "thinc/model.py"), ("forward passes and callbacks", "thinc/layers")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
