"""Write properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M1, M2, M3 = ("src/ptwt/matmul_transform.py", "src/ptwt/matmul_transform_2.py",
              "src/ptwt/matmul_transform_3.py")
PK, UT = "src/ptwt/packets.py", "src/ptwt/_util.py"
C1, C2, C3 = ("src/ptwt/conv_transform.py", "src/ptwt/conv_transform_2.py",
              "src/ptwt/conv_transform_3.py")
SC, ST, CW, WL, SM, CO = ("src/ptwt/separable_conv_transform.py", "src/ptwt/stationary_transform.py",
                          "src/ptwt/continuous_transform.py", "src/ptwt/wavelets_learnable.py",
                          "src/ptwt/sparse_math.py", "src/ptwt/constants.py")
MAT = [M1, M2, M3]
FUN = [C1, C2, C3, SC, ST, CW, UT]
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

PLAN = ("stored matrices", "matrices, paddings and sizes built for the kind of input of the last call", M1 + ", " + M2 + ", " + M3)

prop("C01", "A reused matrix transform answers like a newly created one",
 "The result of calling a boundary-wavelet (matrix) analysis or synthesis transform object depends only on the arguments the object was created with and on the input of that call. "
 "Whatever sizes, shapes, level counts, dtypes, batch shapes, memory layouts or wavelet objects the object and the rest of the process handled before, every call gives the result (values, shapes, dtype, or error kind) that a newly created object gives for the same input.",
 ["histories", "configurations"],
 "every sequence of calls on any number of live transform objects, over all constructor options",
 "The tests call an object once or twice with one kind of input; the stored matrices are only wrong after particular sequences (same size but other dtype, transposed shape, another level, an object that died and whose identity was reused).",
 MAT, [("decision whether stored matrices fit the input", M1 + ":MatrixWavedec.__call__, MatrixWaverec.__call__"),
       ("same for 2d and 3d", M2 + ":__call__; " + M3 + ":__call__"),
       ("level=None resolved for each input", M1 + ":MatrixWavedec.__call__")],
 [PLAN], ["return values and exceptions of the transform objects"])

prop("C02", "Analysis followed by synthesis restores the signal at any point of a history",
 "Transforming a signal and feeding the unmodified coefficients to the matching synthesis restores the signal (up to the documented trailing padding sample of odd lengths and rounding), for the padded, separable, stationary and matrix transforms and unmodified packet trees. "
 "This stays true for long-lived transform objects used for many differing signals, interleaved over several threads, and after calls that failed or were interrupted.",
 ["histories", "schedules", "fault_sequences"],
 "all interleavings of round trips of different kinds, sizes and dtypes through shared long-lived objects, with failing calls in between",
 "The tests check each round trip in isolation with newly created objects; a pair of long-lived objects whose stored matrices disagree is never exercised.",
 MAT + FUN[:5] + [PK, SM, UT],
 [("analysis and synthesis matrices of equal size and level", M1 + ":_construct_analysis_matrices, _construct_synthesis_matrices"),
  ("padding and its removal", UT + ":_get_pad, _adjust_padding_at_reconstruction"),
  ("stationary transform pair", ST + ":swt, iswt")],
 [PLAN], ["reconstructed signals"])

prop("C03", "A failed or interrupted transform call leaves the transform object usable",
 "If a call of a matrix transform object ends in an error, be it a rejected input, a failed memory allocation, a failing diagnostic stream or an asynchronous interrupt at any instant, every later call on that object that is not itself disturbed gives the result of a newly created object. "
 "The failure is reported to the caller of the failed call and to nobody else.",
 ["fault_sequences", "histories", "inputs"],
 "every fault kind at every instant of every call in every history",
 "No test makes an operation fail part-way; the instants between recording the new signal size and finishing the matrices are never observed.",
 MAT, [("publication of completed matrices in one step", M1 + ":_MatrixPlan and the __call__ methods"),
       ("diagnostic for too many levels", M1 + ":_construct_analysis_matrices (sys.stderr.write)")],
 [PLAN], ["results of the calls after the failed one"])

prop("C04", "Threads sharing a matrix transform object each get their own correct result",
 "When several threads call the same matrix transform object concurrently, with inputs of equal or different sizes, levels or dtypes, every call returns what a newly created object returns for that call's input, whatever the interleaving. "
 "No call fails, hangs or sees matrices, paddings or sizes that belong to the input of another call.",
 ["schedules", "histories"],
 "every interleaving of the calls of several threads at the granularity of source lines",
 "All tests are single-threaded.",
 MAT, [("each call works on one plan held in a local variable", M1 + ":__call__; " + M2 + ":__call__; " + M3 + ":__call__")],
 [PLAN], ["per-thread results"])

prop("C05", "The reported operator matrix is that of the latest call",
 "The sparse operator a matrix transform object reports, multiplied with a flattened signal (or the concatenated coefficients), gives exactly the result of the latest call of that object: the operator has that call's size, level and dtype, never those of an earlier call or a mixture, also if calls in between failed. "
 "It is refused with the documented errors before the first call and, for several levels, when padding was needed, and editing the returned operator does not influence the object.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of calls, failed calls, operator reads and in-place edits of read operators, with concurrent calls",
 "The tests read the operator once right after the first call; staleness, refusals that stick and aliasing need longer histories.",
 [M1, M2, SM], [("operator assembled from the stored matrices", M1 + ":sparse_fwt_operator, sparse_ifwt_operator"),
            ("2d operators", M2 + ":sparse_fwt_operator, sparse_ifwt_operator"),
            ("block extension", SM + ":cat_sparse_identity_matrix")],
 [PLAN], ["the operator properties, densified"])

prop("C06", "A packet tree gives the same coefficients however it is explored",
 "The coefficient read at a packet tree node is the result of applying the node's filter path to the data of the current transformation (or to the coefficient the user last assigned on that path), in one and two dimensions and for all boundary modes, axes and dtypes. "
 "The order of reads, earlier or repeated reads, partial initialisation, assignments to other branches, and reuse of the object for new data of another size, dtype or maximum level do not change it.",
 ["histories", "inputs", "configurations"],
 "every sequence of reads, initialisations, assignments, deletions of read nodes, rejected requests and re-transformations",
 "The tests read complete levels in one fixed order from a newly created tree; the lazily built tree and its reused single-level transforms are history dependent.",
 [PK] + MAT + [C1, C2, SC],
 [("lazy expansion of a node", PK + ":_expand_node, __getitem__"),
  ("reuse of single level transforms per node size", PK + ":_get_wavedec"),
  ("reset by transform", PK + ":transform")],
 [("tree data", "present nodes; missing ones are computed on access", PK + ":self.data"),
  ("per-size transforms", "matrix objects shared by all nodes of one size", PK + ":_matrix_wavedec_dict, matrix_wavedec2_dict")],
 ["values read from the tree"])

prop("C07", "Packet reconstruction equals synthesis from the current leaves",
 "Reconstructing a packet tree replaces every inner node and the root by the synthesis of the leaf coefficients as they are at that moment, in one and two dimensions for all boundary modes and axes; leaves are left as they are. "
 "The result is independent of how the tree was explored or reconstructed before and of earlier data held by the same object, and a tree with an absent leaf is refused with an error.",
 ["histories", "inputs", "configurations"],
 "every history of exploration, leaf edits, re-transformations and repeated reconstructions",
 "The tests reconstruct a tree once after reading all leaves; edited leaves are tested for a single Haar example.",
 [PK] + MAT + [C1, C2, SC],
 [("bottom up synthesis", PK + ":reconstruct"), ("reuse of single level synthesis per node size", PK + ":_get_waverec"),
  ("padding removal by inner node size", PK + ":reconstruct")],
 [("tree data", "present nodes", PK + ":self.data"), ("per-size transforms", "matrix objects shared by nodes of one size", PK + ":_matrix_waverec_dict, matrix_waverec2_dict")],
 ["root and inner nodes after reconstruct"])

prop("C08", "A packet tree survives failed and interrupted operations",
 "If reading, initialising, re-transforming or reconstructing a packet tree fails (rejected argument, failed allocation) or is interrupted at any instant, nodes read afterwards still hold the coefficients the packet transform defines and assigned coefficients are kept; a rejected re-transformation leaves the previous tree fully usable. "
 "Repeating the interrupted operation without a fault yields the undisturbed result.",
 ["fault_sequences", "histories"],
 "every fault at every instant of every tree operation in every history",
 "No test injects a failure into a tree operation.",
 [PK] + MAT,
 [("children are stored only after the transform succeeded", PK + ":_expand_node"),
  ("input is checked before the tree is replaced", PK + ":transform")],
 [("tree data", "present nodes", PK + ":self.data"), ("maximum level", "depth limit of the current data", PK + ":self.maxlevel")],
 ["values read after a failure"])

prop("C09", "Threads may explore one packet tree concurrently",
 "Threads that concurrently read or initialise nodes of one packet tree (no thread assigning, reconstructing or re-transforming) each obtain the coefficients a sequential reader obtains, whatever the interleaving. "
 "No read fails or hangs because of another reader, and the tree holds the same coefficients afterwards.",
 ["schedules"],
 "every interleaving of concurrent readers at the granularity of source lines",
 "All tests are single-threaded.",
 [PK] + MAT,
 [("expansion stores finished children", PK + ":_expand_node"), ("creation of shared single level transforms", PK + ":_get_wavedec")],
 [("tree data", "present nodes", PK + ":self.data")],
 ["per-thread reads"])

prop("C10", "Functional transforms keep no memory of earlier or concurrent calls",
 "The padded, separable, stationary and continuous transform functions, the boundary-matrix constructors and the sparse matrix helpers give a result that depends only on the arguments as they are at the time of the call. "
 "Other calls made before, failed or interrupted calls, concurrent calls in other threads, wavelet objects that share a name with different filters, filters or wavelet parameters changed in place between calls, and input tensors overwritten between calls never leak into it.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences and interleavings of functional calls with all argument kinds, including mutable wavelets",
 "Each test makes one call per argument set; memoisation keyed on a name, identity or shape, or shared scratch state, passes them all.",
 FUN + [M1, M2, SM],
 [("filters taken from the wavelet at each call", UT + ":_get_filter_tensors"),
  ("wavelet function evaluated at each call", CW + ":_integrate_wavelet"),
  ("module level tables are constants", UT + ":translation_dict")],
 [("no state", "the functions are meant to be stateless", "all functional modules")],
 ["return values and exceptions of the functions"])

prop("C11", "Inputs are never modified",
 "No transform, property or packet operation modifies what the caller passed in: signal tensors, coefficient tensors, their containing lists, tuples and dictionaries, wavelet objects, filter tensors, scale arrays and key collections keep their contents, identity and metadata. "
 "This holds at every instant of the call, so also when the call fails, is interrupted, or another thread looks at the inputs meanwhile.",
 ["inputs", "fault_sequences", "schedules", "histories"],
 "all calls of the public API with all argument kinds, faults at any instant, and observers at any instant",
 "Tests use inputs once and rarely compare them afterwards; in-place work shows only for particular batch shapes, axes or layouts, or when the call fails between a modification and its undoing.",
 FUN + MAT + [PK, WL, SM, CO],
 [("preprocessing creates views and new containers", UT + ":_preprocess_coeffs, _coeff_tree_map"),
  ("approximation added to a copy of the dictionary", SC + ":_separable_conv_waverecn; " + M3 + ":MatrixWaverec3.__call__")],
 None, ["arguments before, during and after each call"])

prop("C12", "Process-wide settings are neither disturbed nor relied upon",
 "No call, successful or failing, leaves a change in process-wide or thread-wide settings: random generator states, default dtype, gradient and inference mode, determinism and thread settings, floating point error handling, warning filters, standard streams and environment. "
 "Conversely results do not depend on the default dtype, default device, random generator state, gradient mode or floating point error handling, even if another thread changes such a setting in the middle of a call.",
 ["configurations", "schedules", "fault_sequences", "histories"],
 "all calls of the public API under all settings, setting changes at any instant, faults in between",
 "Tests run under default settings and do not compare settings before and after.",
 FUN + MAT + [PK, WL, SM],
 [("dtype and device passed explicitly to tensor constructors", "all modules"),
  ("no global configuration is written", "all modules")],
 None, ["settings snapshots around calls", "results under altered settings"])

prop("C13", "Gradients through transforms do not depend on history",
 "The gradient of a transform result with respect to its input (and, for functional transforms, to the parameters of a learnable wavelet) is the same for a reused transform object, function or packet tree as for a newly created one. "
 "Earlier calls with gradients disabled or in inference mode, earlier backward passes, forward passes started before and differentiated after other calls or in another order, and calls that failed do not change a gradient or make differentiation fail.",
 ["histories", "fault_sequences", "configurations"],
 "all orders of forward and backward passes over shared objects, mixed with calls under other gradient modes",
 "The tests differentiate one forward pass of a new object.",
 MAT + [PK, C1, C2, C3, SC, ST, CW],
 [("stored matrices carry no graph and are no inference tensors", M1 + ":_outside_inference_mode"),
  ("pure tensor operations", "all transforms")],
 [PLAN], ["gradients of inputs and of wavelet parameters"])

prop("C14", "Wavelet learning resumed from a checkpoint equals uninterrupted learning",
 "Training a learnable wavelet (filter bank or continuous wavelet) that crashes at any instant and is resumed, in the same or a new process, from the last completely written checkpoint of parameters and optimiser state reaches the same parameters, losses and transform results as uninterrupted training. "
 "Losses, functional transforms and newly created packet trees always use the current parameter values, also right after parameters were restored into a live wavelet (by loading, replacing or overwriting them).",
 ["crash_points", "fault_sequences", "histories"],
 "all crash instants, torn checkpoint writes and restart modes of a training run",
 "The only learning tests evaluate single loss terms of a newly created object.",
 [WL, CW, C1, C2, UT, CO],
 [("all learnable state is registered as parameters", WL + ":ProductFilter.__init__; " + CW + ":_DifferentiableContinuousWavelet.__init__"),
  ("filter bank read at each use", WL + ":filter_bank")],
 [("filters", "parameters of the learnable wavelet", WL + ":dec_lo, dec_hi, rec_lo, rec_hi")],
 ["parameters, losses and coefficients after resumption"])

prop("C15", "Copies and snapshots of objects continue like the original, independently",
 "A matrix transform, packet tree or wavelet object that was copied, deep-copied, pickled and restored (in the same or a new process), or handed to a forked worker process at any point of its history gives the same results as the original would from there on. "
 "Afterwards operations on the original and on the independent snapshot (deep copy or restored pickle, and for packet trees also their copy method) do not influence each other.",
 ["histories", "crash_points"],
 "all points of a history at which a snapshot is taken, and all operation sequences on original and snapshot afterwards",
 "No test copies, pickles or forks an object.",
 MAT + [PK, WL, CW, CO],
 [("plain attributes only, no process bound state", "the object classes"), ("packet tree is a dictionary of tensors", PK + ":WaveletPacket")],
 [PLAN, ("tree data", "present nodes", PK + ":self.data")], ["results of originals and snapshots"])

prop("C16", "Returned tensors belong to the caller",
 "A caller may overwrite a returned coefficient tensor, reconstruction, container or frequency array in place, keep it for any time, or overwrite the input after the call: no earlier or later result of any transform (of at least one level), no input, and no other coefficient of the same result changes because of it. "
 "The values of a returned tensor never change on their own through later or concurrent calls.",
 ["histories", "schedules"],
 "all sequences of calls, result edits and input overwrites, with concurrent calls",
 "Tests read results immediately and do not edit them; recycled buffers and memoised results pass them.",
 FUN + MAT + [SM],
 [("results are freshly allocated by each call", "all transforms"),
  ("operators are copied before they are handed out", M1 + ":sparse_fwt_operator")],
 None, ["previously returned tensors", "later results"])

# --- pure functions of their input: stated for completeness, not applicable to simulation
def na(id, title, statement, files, mech, why="The tests sample wavelets, sizes, levels and modes; the property is universal over inputs."):
    prop(id, title, statement, ["inputs"], "all inputs and configurations", why, files, mech)
na("N01", "Padded transforms agree with PyWavelets",
   "For every wavelet, boundary mode, level, axis choice and signal the padded, separable, stationary and packet transforms give the coefficients PyWavelets gives for the corresponding call.",
   FUN[:5] + [PK], [("padding computation", UT + ":_get_pad")])
na("N02", "Boundary matrices are orthogonal and invertible",
   "For every orthogonal wavelet and even length not smaller than the filter length, the analysis matrix is orthogonal and the synthesis matrix is its inverse, for both orthogonalisation methods.",
   [M1, M2, SM], [("boundary row orthogonalisation", M1 + ":orthogonalize")])
na("N03", "Separable and joint transforms agree",
   "Separable and non-separable two-dimensional transforms give the same coefficients for the same padded boundary mode.",
   [C2, SC, M2], [("outer product filters", UT + ":_construct_nd_filt")])
na("N04", "The continuous transform agrees with PyWavelets",
   "For every supported continuous wavelet, scale set, sampling period and signal the continuous transform equals the PyWavelets result.",
   [CW], [("ported algorithm", CW + ":cwt")])
na("N05", "Transforms act independently on batch entries and along chosen axes",
   "Transforming a batch equals transforming its entries one by one, and choosing axes equals permuting the data, transforming the last axes and permuting back.",
   [UT], [("axis permutation and folding", UT + ":_preprocess_coeffs, _postprocess_coeffs")])
na("N06", "Transforms are linear and their derivatives are exact",
   "Every discrete transform is linear in its input and the gradients computed through it are the exact derivatives.",
   FUN[:5] + MAT, [("tensor operations only", "all transforms")])
na("N07", "Sparse helpers equal their dense definitions",
   "Sparse Kronecker products, convolution matrices, row replacement and orthogonalisation equal the dense operations they are named after for all sizes and modes.",
   [SM], [("sparse index arithmetic", SM)])
na("N08", "Invalid arguments are rejected",
   "Unsupported dtypes, unknown modes, repeated or excess axes, mismatched coefficient shapes, devices and dtypes raise the documented errors and never give a numeric result.",
   [UT] + MAT, [("argument checks", UT + ":_check_same_device_dtype, _ensure_axes")])
na("N09", "Packet node orderings are complete and frequency sorted",
   "For every level the natural and frequency orders list each node exactly once and the frequency order sorts nodes by their pass band.",
   [PK], [("gray code order", PK + ":_get_graycode_order, get_freq_order")])
na("N10", "Transforms can be traced by the PyTorch compiler",
   "Tracing a transform with the PyTorch JIT gives a module with the same results for inputs of the traced shape.",
   [C1, C2, C3, CW], [("traceable operations", "all functional transforms")])
na("N11", "Learnable wavelet losses vanish exactly for valid filter banks",
   "The alias cancellation and perfect reconstruction losses are zero if and only if the filter bank satisfies these conditions.",
   [WL], [("product filter evaluation", WL + ":perfect_reconstruction_loss")])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
