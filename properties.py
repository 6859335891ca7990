"""The properties: source of properties.jsonl and MANIFEST.json (bin/gen_meta.py)."""
BASE = "haiku/_src/base.py"
COMMON = ("Every obligation of the listed contracts is discharged for all inputs on each run, from the source in /repo; "
          "jax, numpy and the standard library are assumed contracts; the executable form of the property runs on the "
          "real code as counterexample search and as bounded stand-in for what the evidence lists as undecided. ")


ARRAYS = ("Arrays have a fixed rank per case (at most 5) and symbolic sizes; arithmetic is over the reals, divisors are "
          "taken to be non-zero, sums are linear, and transcendental functions, reshapes and random draws are functions "
          "of their arguments and nothing else. ")


def P(id, title, statement, over, text, why, files, mech, note="", na=None):
  return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
              note=COMMON + note, na=na)


PROPS = [
    P("C01", "get_parameter: create once at init, return the given value at apply",
      "During init, the first hk.get_parameter for a (module, name) runs the initializer exactly once with the "
      "requested shape and dtype, records that value under the current module and returns it, every later request "
      "returns the same value without running an initializer, and no other entry changes. During apply, the value "
      "the caller passed in is returned unchanged, no initializer runs, the parameters are never modified, and a "
      "parameter that was not passed in is an error. A stored value whose shape differs from the requested shape is "
      "always rejected.",
      "inputs", "all parameter names, module paths, shapes, dtypes, initializers and prior store contents",
      "tests use a few fixed names and stores; the claim is over every store content, name collision and initializer "
      "outcome, including initializers that fail",
      [BASE], [("get_parameter", BASE + ":get_parameter"), ("run_creators", BASE + ":run_creators")]),
    P("C02", "get_state/set_state: last write wins, initial value never changes",
      "hk.get_state returns the value most recently set for that (module, name) in this run (or the value passed to "
      "apply, or, when the entry does not exist yet, the result of running init exactly once), and it is an error if "
      "none of these exists. hk.set_state changes only that entry and never its initial value, so init returns the "
      "first value each entry ever had and apply returns the last one, for exactly the entries in the store. State "
      "access never touches parameters.",
      "histories", "all sequences of get_state and set_state on all names, modules and prior state contents",
      "the difference between initial and current value only shows after particular histories on particular entries",
      [BASE], [("get_state", BASE + ":get_state"), ("set_state", BASE + ":set_state"),
               ("extract_state", BASE + ":extract_state")]),
    P("C03", "init and apply are pure: results depend on arguments only",
      "Calling init or apply of hk.transform / transform_with_state runs the function once with the given arguments, "
      "params, state and rng and nothing else: equal arguments give equal results, the caller's mappings are never "
      "modified, and calls (nested, repeated or failing) never see each other's parameters, state, rng or custom "
      "creators/getters. init returns exactly the parameters and initial state the function created, apply returns "
      "the function's output and the given state updated by what it wrote. without_state and without_apply_rng only "
      "drop the state (an error if it was used) and the rng argument.",
      "histories", "all functions f, params, state, rng arguments and all nestings and failures of calls",
      "leaks between calls need a particular nesting, failure point or aliasing between the caller's and the "
      "library's structures",
      ["haiku/_src/transform.py", BASE],
      [("transform_with_state", "haiku/_src/transform.py:transform_with_state"),
       ("without_state", "haiku/_src/transform.py:without_state"), ("new_context", BASE + ":new_context"),
       ("HaikuContext", BASE + ":HaikuContext")]),
    P("C04", "PRNGSequence: keys handed out deterministically, never reused",
      "For every sequence of next/take/reserve operations, a PRNGSequence (and hk.next_rng_key(s)) never hands out "
      "the same key twice, never hands out a key it has split or will split, and hands out reserved keys first, in "
      "the order they were reserved. take(n) returns exactly n keys and reserve(n) adds exactly n to the reserve. "
      "Saving and restoring the internal state continues the sequence exactly where it was.",
      "histories", "all interleavings of next, take, reserve and internal_state round trips, all counts, all seeds",
      "key reuse only appears after particular mixes of reservation and consumption, and every draw still looks random",
      [BASE], [("PRNGSequence", BASE + ":PRNGSequence"), ("next_rng_key", BASE + ":next_rng_key"),
               ("reserve_rng_keys", BASE + ":reserve_rng_keys")],
      "jax.random.split is assumed free (no two distinct derivations give the same key)."),
    P("C05", "Module names are canonical, unique and reproducible",
      "The name of a new hk.Module is its given (or snake-cased class) name under the path of the module and method "
      "that create it, numbered so that no two modules created in one scope ever have the same name; explicitly "
      "numbered names are kept, and rejected only if already taken. Every call of a method numbers its submodules "
      "afresh, so repeated calls, init and apply produce the same names. Names that are not identifiers are "
      "rejected.",
      "histories", "all names and all sequences of module creations, method calls and failures in all scopes",
      "collisions need particular mixes of explicit numbers, automatic numbers and nested scopes",
      ["haiku/_src/module.py", BASE],
      [("unique_and_canonical_name", "haiku/_src/module.py:unique_and_canonical_name"),
       ("Module.__init__", "haiku/_src/module.py:Module"), ("Frame.module", BASE + ":Frame")]),
    P("C06", "Variables belong to the module whose method runs; scopes are balanced",
      "While a module method runs (constructor, __call__, any method, property or name_scope body), parameters, state "
      "and new modules are created under that module, and after it returns or raises, under its caller again; "
      "@transparent methods use the scope of their caller. params_dict and state_dict contain exactly the entries of "
      "the module, of modules named below it and of modules that ran inside it, with their current values.",
      "histories", "all nestings of method calls, scopes and failures, all names and all store contents",
      "a scope left open by one failure path, or a prefix that is not a path prefix, goes unnoticed in small tests",
      ["haiku/_src/module.py", BASE],
      [("wrap_method", "haiku/_src/module.py:wrap_method"), ("name_scope", "haiku/_src/module.py:NameScope"),
       ("params_or_state_dict", "haiku/_src/module.py:params_or_state_dict")]),
    P("C07", "Creators, getters, interceptors: registration order, once, in their extent",
      "Custom creators, getters, method interceptors and method hooks run exactly for the operations inside their "
      "context manager, the outermost first, each once per operation, with the arguments the previous one passed on; "
      "one that does not call next stops the rest, and the result is what the outermost returns. Creators run only "
      "when a value is created (and what they return is what is stored), getters on every read without changing the "
      "stored value. Exceptions propagate, leave nothing registered and no hook or scope open.",
      "histories", "all behaviours of the callbacks (values passed on, stopping, failing), stores, names and nestings",
      "ordering and extent errors need several callbacks, one of which stops, fails or registers another",
      [BASE, "haiku/_src/module.py", "haiku/_src/data_structures.py"],
      [("run_creators", BASE + ":run_creators"), ("run_getters", BASE + ":run_getters"),
       ("run_interceptors", "haiku/_src/module.py:run_interceptors"),
       ("_module_method_call", "haiku/_src/module.py:_module_method_call"),
       ("Stack", "haiku/_src/data_structures.py:Stack")],
      "The contracts unroll 0 to 3 registrations of each kind (bounded); callbacks calling next more than once are "
      "out of scope."),
    P("C08", "FlatMapping is an immutable mapping and a faithful pytree",
      "The result of to_immutable_dict (the type of every params/state structure haiku returns) has exactly the "
      "entries of the mapping it was made from, at every level, and never changes afterwards, whatever happens to "
      "the source, its copies or the dicts obtained from it with to_mutable_dict. Iteration, len, in, [], ==, hash, "
      "repr, copying, pickling and jax tree functions behave as for that mapping: equal contents are equal, hash "
      "equal and have the same tree structure, and flatten/unflatten and tree_map round-trip.",
      "histories", "all nested mappings, all mutations of the source, all pytree operations on the result",
      "aliasing shows only when someone mutates the source after freezing, or flattens before reading",
      ["haiku/_src/data_structures.py"],
      [("FlatMapping", "haiku/_src/data_structures.py:FlatMapping"),
       ("to_immutable_dict", "haiku/_src/data_structures.py:to_immutable_dict"),
       ("to_mutable_dict", "haiku/_src/data_structures.py:to_mutable_dict")]),
    P("C09", "partition, filter, map and merge route every entry exactly once",
      "hk.data_structures.partition sends every (module, name, value) entry to exactly one side, "
      "the one the predicate chose, filter keeps exactly the entries satisfying the predicate, and map keeps every "
      "key and applies the function once to each entry. merge contains exactly the union of the entries, the last "
      "structure winning on duplicates, so merge(partition(p, x)) == x. Arguments are never modified and results are "
      "immutable.",
      "inputs", "all structures, predicates, functions and numbers of merged structures",
      "lost or duplicated entries show only for particular overlaps of modules and names",
      ["haiku/_src/filtering.py"],
      [("partition", "haiku/_src/filtering.py:partition"), ("filter", "haiku/_src/filtering.py:filter"),
       ("map", "haiku/_src/filtering.py:map"), ("merge", "haiku/_src/filtering.py:merge")]),
    P("C10", "hk.lift stores inner parameters under its own name and finds exactly those again",
      "During init a lifted init function runs once with the given arguments, its parameters are returned unchanged and "
      "are stored in the outer transform under '<lift's module name>/<inner module>', and a clash with an existing entry is "
      "an error rather than an overwrite. During apply the inner init does not run, and the lift returns, as an immutable "
      "structure, exactly the entries of the outer parameters under its own name with that prefix removed. No other entry "
      "of the outer parameters is read into the result or changed.",
      "inputs", "all inner and outer parameter structures, module names (including names that are prefixes of each other) "
                "and nestings of lifts",
      "prefix and collision mistakes show only for particular combinations of names",
      ["haiku/_src/lift.py"],
      [("pack_into_dict", "haiku/_src/lift.py:pack_into_dict"), ("unpack_from_dict", "haiku/_src/lift.py:unpack_from_dict"),
       ("LiftingModule", "haiku/_src/lift.py:LiftingModule")]),
    P("C11", "hk.jit, remat, grad, vmap, named_call thread params, state and rng through",
      "Inside a transform, the function wrapped by hk.jit, hk.remat, hk.named_call, hk.grad, hk.value_and_grad or hk.vmap "
      "sees exactly the params, state and rng its caller sees, runs once, and leaves its caller with exactly the params, "
      "state and rng it left itself, with the result (value, aux, gradient, stacked output) of the jax transform. "
      "hk.eval_shape discards every change, and a function that fails leaves nothing behind in the caller's frame. "
      "jit, remat and the gradients are refused outside of a transform.",
      "programs", "all functions (any sequence of parameter, state and rng use), during init and apply, with and without rng",
      "a lost update shows only for a particular mix of entries that exist, are new, change or stay the same inside the "
      "wrapped function",
      ["haiku/_src/stateful.py"],
      [("thread_hk_state_in_kwargs", "haiku/_src/stateful.py:thread_hk_state_in_kwargs"),
       ("difference", "haiku/_src/stateful.py:difference"), ("update_recursive", "haiku/_src/stateful.py:update_recursive"),
       ("temporary_internal_state", "haiku/_src/stateful.py:temporary_internal_state"),
       ("value_and_grad", "haiku/_src/stateful.py:value_and_grad"), ("vmap", "haiku/_src/stateful.py:vmap")],
      note="jax.jit, remat and named_call are assumed to call the function they are given, value_and_grad to return its "
           "value, vmap to run one lane for all; hk.difference and update_recursive are proved on arbitrary stores and "
           "used through their contracts. "),
    P("C12", "hk.cond, switch, scan, fori_loop, while_loop equal the Python control flow",
      "hk.cond and hk.switch give the result, params, state and rng of the chosen branch alone. hk.scan (either "
      "direction), hk.fori_loop and hk.while_loop give the carry, outputs, params, state and rng of running the body once "
      "per iteration in order, each iteration seeing what the previous one left, also during init, where the first "
      "iteration runs directly so that params and state exist. A while_loop is refused during init, and so is a loop "
      "condition that changes state or uses rng.",
      "programs", "all bodies, branches, predicates, indices, lengths and bounds, during init and apply, with and without rng",
      "needs the state of one iteration to matter to the next, at init and apply, at lengths 0, 1 and more",
      ["haiku/_src/stateful.py"],
      [("stateful_branch", "haiku/_src/stateful.py:stateful_branch"), ("cond", "haiku/_src/stateful.py:cond"),
       ("switch", "haiku/_src/stateful.py:switch"), ("scan", "haiku/_src/stateful.py:scan"),
       ("fori_loop", "haiku/_src/stateful.py:fori_loop"), ("while_loop", "haiku/_src/stateful.py:while_loop")],
      note="The functions handed to jax.lax.scan, fori_loop and while_loop are verified at an arbitrary iteration and the "
           "loops themselves are assumed contracts; hk.switch with one to three branches; during init fori_loop with at "
           "least one trip (the code runs the body once in any case). "),
    P("C13", "Convolutions: padding, replication and axes match the documented geometry",
      "For every number of spatial dimensions, kernel, stride and rate, hk.pad.* return the documented (before, after) "
      "padding of the effective kernel (kernel-1)*rate+1, scalar arguments apply to every dimension and sequences "
      "element by element, and any other length is rejected. ConvND, ConvNDTranspose and DepthwiseConv2D use weights "
      "of the documented shape and compute that convolution of the input (channels first or last, grouped, masked, "
      "batched or not), plus a per-channel bias.",
      "inputs", "all spatial ranks, sizes, kernels, strides, rates, paddings, data formats and channel counts",
      "tests sample small square kernels; geometry errors show only for even, dilated, asymmetric or high-rank windows",
      ["haiku/_src/conv.py", "haiku/_src/pad.py", "haiku/_src/utils.py", "haiku/_src/depthwise_conv.py"],
      [("pad functions", "haiku/_src/pad.py:same"), ("create", "haiku/_src/pad.py:create"),
       ("dimension numbers", "haiku/_src/conv.py:to_dimension_numbers"),
       ("replicate", "haiku/_src/utils.py:replicate"), ("ConvND", "haiku/_src/conv.py:ConvND")]),
    P("C14", "Reshape, Flatten, BatchApply, Sequential, to_module keep every element in place",
      "hk.Reshape and hk.Flatten keep the first preserve_dims dimensions and lay the remaining elements out in row-major "
      "order in the target shape with one inferred -1, and leave an input without further dimensions as it is. "
      "hk.BatchApply calls the function once with the first num_dims dimensions of every large enough array argument merged, "
      "and splits the first dimension of every output back. hk.Sequential feeds each layer's output to the next, with extra "
      "arguments only for the first, hk.expand_apply adds and removes a unit axis, and hk.to_module runs the function.",
      "inputs", "all shapes, target shapes, preserve_dims, num_dims, nested arguments, layers and functions",
      "misplaced elements and wrongly merged dimensions show only for particular ranks, sizes and nestings",
      ["haiku/_src/reshape.py", "haiku/_src/basic.py"],
      [("Reshape", "haiku/_src/reshape.py:Reshape"), ("BatchApply", "haiku/_src/basic.py:BatchApply"),
       ("Sequential", "haiku/_src/basic.py:Sequential"), ("to_module", "haiku/_src/basic.py:to_module"),
       ("expand_apply", "haiku/_src/basic.py:expand_apply")], note=ARRAYS),
    P("C15", "Linear, Bias, MLP, Embed, attention and dropout compute the documented functions",
      "hk.Linear computes x w + b with w of shape [input_size, output_size] in the dtype of the input and default stddev "
      "1/sqrt(input_size); hk.Bias adds (times the multiplier) a bias over exactly bias_dims; hk.nets.MLP alternates linear "
      "layers, dropout and activations and reverse() mirrors it. hk.Embed returns the row of each id in either lookup style, "
      "hk.MultiHeadAttention is scaled, masked dot-product attention per head, and hk.dropout keeps elements scaled by "
      "1/(1-rate) or zeroes them. Inputs that do not fit these definitions are rejected.",
      "inputs", "all inputs, sizes, parameters, options and random keys",
      "tests look at shapes and a few values; a wrong axis, scale, mask or head mixing survives them",
      ["haiku/_src/basic.py", "haiku/_src/bias.py", "haiku/_src/nets/mlp.py", "haiku/_src/embed.py", "haiku/_src/attention.py"],
      [("Linear", "haiku/_src/basic.py:Linear"), ("Bias", "haiku/_src/bias.py:Bias"), ("MLP", "haiku/_src/nets/mlp.py:MLP"),
       ("Embed", "haiku/_src/embed.py:Embed"), ("MultiHeadAttention", "haiku/_src/attention.py:MultiHeadAttention"),
       ("dropout", "haiku/_src/basic.py:dropout")], note=ARRAYS),
    P("C16", "BatchNorm and ExponentialMovingAverage keep the documented statistics",
      "hk.ExponentialMovingAverage returns and stores hidden*decay + value*(1-decay), divided by 1-decay^count if debiasing, "
      "ignoring the decay during warmup, and changes nothing with update_stats=False. hk.BatchNorm normalises with the batch "
      "mean and variance over all axes but the channels (or over the given axes, across replicas if asked) in training or "
      "with test_local_stats, and with the stored averages otherwise, then applies scale and offset. Its averages are updated "
      "exactly once per training call and never otherwise.",
      "histories", "all sequences of training, evaluation and local-statistics calls, all inputs, decays, formats and axes",
      "needs several calls in particular modes, and inputs whose statistics differ between axes",
      ["haiku/_src/batch_norm.py", "haiku/_src/moving_averages.py", "haiku/_src/utils.py"],
      [("BatchNorm", "haiku/_src/batch_norm.py:BatchNorm"),
       ("ExponentialMovingAverage", "haiku/_src/moving_averages.py:ExponentialMovingAverage")], note=ARRAYS),
    P("C17", "LayerNorm, InstanceNorm, GroupNorm normalise exactly over the documented axes",
      "hk.LayerNorm subtracts the mean and divides by sqrt(variance + eps) over exactly the given axes (int, sequence or "
      "slice, negative or not), hk.InstanceNorm over the spatial axes of each example and channel, and hk.GroupNorm over the "
      "given axes within each group of channels, for channels first or last. The result is multiplied by the learned or given "
      "scale and shifted by the offset; learned ones start at one and zero, per channel. Contradictory scale or offset "
      "arguments and indivisible channel counts are rejected.",
      "inputs", "all inputs, ranks, axes, formats, group counts, eps, scales and offsets, also on later calls of other sizes",
      "a wrong axis is invisible on symmetric or small inputs and shows only for particular formats and ranks",
      ["haiku/_src/layer_norm.py", "haiku/_src/group_norm.py", "haiku/_src/utils.py"],
      [("LayerNorm", "haiku/_src/layer_norm.py:LayerNorm"), ("InstanceNorm", "haiku/_src/layer_norm.py:InstanceNorm"),
       ("GroupNorm", "haiku/_src/group_norm.py:GroupNorm")], note=ARRAYS),
    P("C18", "Recurrent cores compute their gates; unrolling and wrapping thread the state",
      "hk.VanillaRNN, LSTM, GRU and ConvNDLSTM compute their documented update of the input and previous state with weights of "
      "the documented shapes, and initial_state gives zeros of the right sizes (batched or not). hk.dynamic_unroll and "
      "hk.static_unroll feed the core each time step in order, pass each step's state to the next, and return the outputs "
      "in order with the final state, for time-major and batch-major sequences. "
      "hk.ResetCore replaces exactly the flagged states by the initial ones, and hk.DeepRNN feeds each layer the output (and, "
      "with skip connections, the input) and returns every new state in its place.",
      "histories", "all inputs, states, sequence lengths, batch sizes, reset patterns and layer sequences",
      "swapped gates, lost states and reset errors show only in the values after several steps and particular masks",
      ["haiku/_src/recurrent.py"],
      [("LSTM", "haiku/_src/recurrent.py:LSTM"), ("GRU", "haiku/_src/recurrent.py:GRU"),
       ("dynamic_unroll", "haiku/_src/recurrent.py:dynamic_unroll"),
       ("static_unroll", "haiku/_src/recurrent.py:static_unroll"), ("ResetCore", "haiku/_src/recurrent.py:ResetCore"),
       ("DeepRNN", "haiku/_src/recurrent.py:_DeepRNN")], note=ARRAYS),
    P("C19", "Pooling windows cover exactly the spatial axes and averages count valid elements",
      "hk.max_pool and hk.avg_pool take an int or short window or stride to mean one for the batch and channel axes and the "
      "given size elsewhere, and a full one as it is. max_pool is the maximum over each window, and avg_pool the sum "
      "over each window divided by the number of elements that lie inside the input (for SAME padding) or by the window size "
      "(for VALID). Other paddings, sizes and channel axes are rejected.",
      "inputs", "all inputs, ranks, windows, strides, paddings and channel axes",
      "wrong windows and counts show only for particular channel axes, asymmetric windows and border elements",
      ["haiku/_src/pool.py"],
      [("_infer_shape", "haiku/_src/pool.py:_infer_shape"), ("max_pool", "haiku/_src/pool.py:max_pool"),
       ("avg_pool", "haiku/_src/pool.py:avg_pool")], note=ARRAYS),
    P("C20", "Initializers draw from the documented distributions, one fresh key each",
      "Every initializer in hk.initializers returns an array of the requested shape and dtype. Constant and Identity are "
      "exactly that, RandomNormal, RandomUniform and TruncatedNormal use one key from hk.next_rng_key and exactly the "
      "given parameters, and VarianceScaling and UniformScaling scale by the documented function of fan-in, fan-out, mode and "
      "distribution. Orthogonal gives a scaled, sign-corrected orthonormal basis with the given axis kept apart, and "
      "invalid modes, distributions, scales and ranks are rejected.",
      "inputs", "all shapes, dtypes, scales, modes, distributions, axes and random keys",
      "tests check shapes and rough moments; a wrong fan, factor or key reuse survives them",
      ["haiku/_src/initializers.py"],
      [("_compute_fans", "haiku/_src/initializers.py:_compute_fans"),
       ("VarianceScaling", "haiku/_src/initializers.py:VarianceScaling"),
       ("Orthogonal", "haiku/_src/initializers.py:Orthogonal")], note=ARRAYS),
    P("C21", "Spectral normalisation and parameter-tree averaging follow their definitions",
      "hk.SpectralNorm rejects scalars and vectors and returns other values divided by sigma, which comes from n_steps of "
      "power iteration (not differentiated) from the stored vector, and stores the new vector and sigma exactly when "
      "update_stats is true. hk.EMAParamsTree and hk.SNParamsTree apply their module to exactly the parameters whose names do not match "
      "ignore_regex, each with its own state, and leave the structure and every other parameter unchanged.",
      "histories", "all parameter values, call sequences, step counts, eps, decays and name patterns",
      "state written at the wrong time or for the wrong parameter shows only after several calls on several parameters",
      ["haiku/_src/spectral_norm.py", "haiku/_src/moving_averages.py"],
      [("SpectralNorm", "haiku/_src/spectral_norm.py:SpectralNorm"),
       ("SNParamsTree", "haiku/_src/spectral_norm.py:SNParamsTree"),
       ("EMAParamsTree", "haiku/_src/moving_averages.py:EMAParamsTree")], note=ARRAYS),
    P("C22", "Vector quantisation: nearest code for every vector, codebook averages kept",
      "hk.nets.VectorQuantizer and VectorQuantizerEMA assign each input vector the codebook entry with the least squared "
      "distance, and return that entry, its one-hot encoding, its index, all distances, the documented loss (a straight "
      "through estimator, trained as documented) and the perplexity of the code usage. In training the EMA variant updates its cluster sizes and sums with the documented (debiased) "
      "averages and replaces the codebook by their smoothed quotient; otherwise nothing is stored.",
      "histories", "all inputs, codebooks, sizes, decays and sequences of training and evaluation calls",
      "wrong averages or an update in evaluation show only after several calls on inputs that use several codes",
      ["haiku/_src/nets/vqvae.py"],
      [("VectorQuantizer", "haiku/_src/nets/vqvae.py:VectorQuantizer"),
       ("VectorQuantizerEMA", "haiku/_src/nets/vqvae.py:VectorQuantizerEMA")], note=ARRAYS),
    P("C23", "Random keys come from the innermost sequence; optimize_rng_use only reserves",
      "hk.next_rng_key, next_rng_keys, maybe_next_rng_key and reserve_rng_keys act on exactly the innermost sequence in force "
      "(the key given to init or apply, or that of the innermost hk.with_rng), which is in force until its block is left, also by an "
      "exception; without a key they raise (maybe_next_rng_key returns None), and outside a transform they always raise. "
      "hk.experimental.optimize_rng_use reserves as many keys as the function draws and then runs it once in the caller's frame: its dry "
      "run leaves no parameters, state, used keys or hooks behind, also when it fails.",
      "programs", "all programs of key operations, nested with_rng blocks, failures, params, state and sequences",
      "a key drawn from the wrong sequence or a leak of the dry run shows only in nested or failing programs",
      ["haiku/_src/base.py", "haiku/_src/random.py", "haiku/_src/transform.py"],
      [("with_rng", "haiku/_src/base.py:with_rng"), ("next_rng_keys", "haiku/_src/base.py:next_rng_keys"),
       ("optimize_rng_use", "haiku/_src/random.py:optimize_rng_use"),
       ("count_hk_rngs_requested", "haiku/_src/random.py:count_hk_rngs_requested")]),
    P("C24", "ResNet and MobileNetV1 are the published compositions of layers",
      "hk.nets.ResNet (and ResNet18 to 200) and MobileNetV1 apply exactly the layers of the published architecture, once each and in "
      "order, for every number of blocks, channels, stride, projection, version and configuration: kernel sizes, strides, biases, "
      "names, residual sums, activations and batch-norm flags, the given configurations are passed on unmodified, the last scale of a "
      "v1 bottleneck block and the logits start at zero, and configurations of the wrong length raise ValueError.",
      "configurations", "all channels, strides, flags, configurations, inputs, parameters and states, with layers as arbitrary functions",
      "tests only check that the networks run and the output shape; a swapped layer, a lost flag or a missing activation is invisible",
      ["haiku/_src/nets/resnet.py", "haiku/_src/nets/mobilenetv1.py"],
      [("BlockV1", "haiku/_src/nets/resnet.py:BlockV1"), ("BlockV2", "haiku/_src/nets/resnet.py:BlockV2"),
       ("BlockGroup", "haiku/_src/nets/resnet.py:BlockGroup"), ("ResNet", "haiku/_src/nets/resnet.py:ResNet"),
       ("MobileNetV1", "haiku/_src/nets/mobilenetv1.py:MobileNetV1")]),
]
