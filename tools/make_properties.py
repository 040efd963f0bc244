"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
         "hook_needed": None}
    if state:
        a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SK = "tt_sketch/sketch.py"; DI = "tt_sketch/sketch_dispatch.py"; SC = "tt_sketch/sketch_container.py"
TE = "tt_sketch/tensor.py"; UT = "tt_sketch/utils.py"; GM = "tt_sketch/tt_gmres.py"; DB = "tt_sketch/drm_base.py"
DG = "tt_sketch/drm/dense_gaussian_drm.py"; SG = "tt_sketch/drm/sparse_gaussian_drm.py"
SS = "tt_sketch/drm/sparse_sign_drm.py"; TD = "tt_sketch/drm/tensor_train_drm.py"
PX = "tt_sketch/drm/fast_lazy_gaussian.pyx"; SV = "tt_sketch/tt_svd.py"
ME = ["tt_sketch/sketching_methods/%s_sketch.py" % f for f in ("cp", "dense", "sparse", "tensor_train", "tucker")]
EX = "scripts/experiment_base.py"; CO = "scripts/cookie_problem.py"

p("C01", "A streaming sketch is the two-sided contraction of the tensor with its DRMs",
  "For every tensor in every supported format (sparse, dense, TT, CP, Tucker, and any sum mixing them) and every pair of left/right DRMs that supports it, each stored sketch component equals the contraction of the tensor's values with the fixed matrices those two DRMs define: the end cores are contracted on one side, the inner cores and the linking matrices on both. The result therefore does not depend on the format, on the order of the non-zeros or on how the tensor is split into summands, also for sparse tensors far too large to be stored densely. Sketching leaves the tensor and the DRMs unchanged.",
  ["inputs", "configurations"], "all shapes with at least two modes (including modes of size 1 and sparse tensors with up to 2^62 entries), all formats and nested sums, all supporting DRM types per side, all ranks and seeds",
  "Tests sketch a few fixed near-cubic shapes with one seed and look only at the reconstruction of exactly low-rank tensors, for which many different sketches give the same answer.",
  [SK, DI, SC] + ME, [("general_sketch", DI), ("sketch_omega_* / sketch_psi_*", "tt_sketch/sketching_methods/"), ("sketch_omega_sum, sketch_psi_sum", DI)],
  [("Psi_cores", "contraction keeping one mode open", SC), ("Omega_mats", "contraction linking left and right", SC)], ["stream_sketch(...).Psi_cores", "stream_sketch(...).Omega_mats"])

p("C02", "Updating a streaming sketch equals sketching the final tensor",
  "After any history of adding and subtracting tensors (of any formats), scaling, negating and transposing a streaming sketch, the sketch is the same as one made from scratch of the correspondingly combined tensor with the sketch's own DRMs. Its shape and its left and right ranks always describe the current sketch, and sketches made earlier in the history keep their values.",
  ["histories", "inputs"], "all sequences of +, -, scalar * and /, unary -, transposition and conversion to TT, over all formats, DRM pairs, unequal per-mode ranks and non-palindromic shapes",
  "One test performs a single + and one performs * 2 and .T (and fails on the original tree); none composes operations or updates after transposing or scaling.",
  [SK, SC, DB], [("SketchedTensorTrain.__add__/__mul__/T", SK), ("SketchContainer arithmetic", SC), ("DRM.T", DB)],
  [("sketch_, left_drm, right_drm", "the streaming state", SK)], ["SketchedTensorTrain after every operation"])

p("C03", "A streaming sketch assembles into the tensor train its components define",
  "Converting a streaming sketch gives the tensor obtained by chaining its cores with the pseudo-inverses of its linking matrices; absorbing the pseudo-inverses to the left, to the right or with automatic choice, and converting to a TT or to a dense array, all represent this same tensor. The resulting TT has the left ranks (absorbing right) or the right ranks (absorbing left), the automatic choice giving the smaller of the two, and conversion leaves the sketch unchanged. Norm, inner product and error of the sketch are those of that tensor.",
  ["inputs", "configurations"], "all sketches of low- and full-rank tensors in all formats, ranks above and below the tensor's, either side larger",
  "Tests compare the two directions on a handful of random TTs sketched above their rank; never in the truncating regime and never against the defining formula.",
  [SK, UT], [("assemble_sketched_tt", SK), ("left_mul_pinv, right_mul_pinv", UT)], None, ["C_cores, to_tt, to_numpy, error, dot, norm"])

p("C04", "Sketching recovers exactly every tensor whose TT-rank fits the sketch rank",
  "If the TT-ranks of a tensor do not exceed the requested sketch ranks, then the HMT, orthogonal and streaming sketches all reproduce the tensor up to round-off, for every format, shape, supporting DRM type and seed, also when a requested rank exceeds what the shape allows.",
  ["inputs", "configurations"], "all low-TT-rank tensors (with modes of size 1, non-uniform ranks, rank one, zero tensors, over-specified ranks), all formats, methods, DRM pairs and seeds; up to the conditioning of the drawn sketch",
  "Tests use one seed, two or three modes of size 9-12 and ranks 2-5.",
  [SK, DI] + ME, [("hmt_sketch, orthogonal_sketch, stream_sketch", SK), ("orth_step, OrthogTTDRM", DI)], None, ["to_numpy of the result"])

p("C05", "HMT and orthogonal sketches are orthogonal projections of the tensor",
  "The TT returned by the HMT and the orthogonal sketch has left-orthonormal cores (all but the last) and is the orthogonal projection of the tensor onto the space those cores span: the error is orthogonal to the result, and the norm never grows. That space is the nested range of the tensor sketched by the right DRM (HMT), or by both DRMs with the pseudo-inverse of their two-sided contraction (orthogonal), for every tensor and every rank, not only where recovery is exact.",
  ["inputs", "configurations"], "all tensors in all formats (low rank, full rank, decaying spectra), all ranks, supporting DRM types and seeds",
  "Tests only check exact recovery, where any basis containing the range passes; the truncating regime is untested.",
  [SK, DI, TD], [("general_sketch (hmt, orthogonal)", DI), ("orth_step", DI), ("OrthogTTDRM", DI)], None, ["cores and dense value of the returned TT"])

p("C06", "Increasing the rank of a sketch equals sketching afresh at the larger rank",
  "Increasing the ranks of a streaming sketch, in one or several steps and on either or both sides, gives the same sketch as sketching the tensor directly with the DRMs extended to the new ranks, and keeps the previously computed part unchanged. The new sketch reports the new ranks, can itself be updated or increased again, and the old sketch stays valid.",
  ["histories", "inputs"], "all sequences of rank increases (per-mode, one-sided, zero in some modes, interleaved with updates) for DRMs that support it, all formats they support, all seeds including DRMs created without a seed",
  "Tests do one increase of constant size per DRM from one seed.",
  [SK, DB, DG, SG], [("SketchedTensorTrain.increase_rank", SK), ("CanIncreaseRank.increase_rank, CanSlice.slice", DB)], None, ["Psi_cores, Omega_mats, ranks after increase_rank"])

p("C07", "A sketch computed in blocks equals the sketch computed at once",
  "For every DRM type and every way of cutting the left and right ranks into consecutive blocks, computing a streaming sketch block by block gives the same components as computing it in one piece, for every tensor format the DRMs support.",
  ["inputs", "configurations"], "all partitions of left and right ranks (per mode, unequal, single rows, empty blocks excluded), all formats, DRM pairs and seeds",
  "Tests use three fixed uniform partitions on sparse, TT and CP tensors; dense and Tucker tensors and sums, non-uniform partitions and sign DRMs with few non-zeros are untested.",
  [SK, DB, DG, SG, SS, TD], [("blocked_stream_sketch, _assemble_blocked_stream_sketches", SK), ("CanSlice.slice", DB)], None, ["blocked_stream_sketch(...) vs stream_sketch(...)"])

p("C08", "A DRM acts as one fixed linear map on every tensor format",
  "What a DRM yields for a tensor, one contraction per split of the modes, is the product of one fixed matrix per split with that tensor's data, the same matrix whatever the format, whichever non-zeros are present and in whatever order, and however often the DRM is used; a right DRM acts on the modes from the right. The contractions have the DRM's rank, and a transposed DRM acts on the transposed tensor as the original acts on the original.",
  ["inputs", "histories"], "all DRM types, both sides, slices, all formats they support, subsets and permutations of non-zeros, repeated and interleaved use",
  "Tests never look at DRM output directly except for one permutation test of the hashing routine.",
  [DB, DG, SG, SS, TD], [("handle_transpose", DB), ("sketch_sparse/tt/cp/tucker/dense", "tt_sketch/drm/")], None, ["sketch_* generators of every DRM"])

p("C09", "Slicing or enlarging a DRM keeps its rows",
  "A slice of a DRM acts exactly as the corresponding range of rows of the full DRM, per mode, also when slices are sliced again by absolute position; enlarging a DRM leaves the rows it already had unchanged. This holds for left and right DRMs, whatever seed or other parameters the DRM was created with, and the reported ranks match.",
  ["inputs", "histories"], "all DRM types that support it, all per-mode start/end ranks, both sides, seeds up to and beyond 32 bits and none, all non-default DRM parameters",
  "Test suite says 'TODO: make particular tests for slicing'; only uniform slices of default DRMs occur.",
  [DB, DG, SG, SS, TD], [("CanSlice.slice", DB), ("CanIncreaseRank.increase_rank", DB), ("rank_min/rank_max", DB)], None, ["sketch_* of sliced DRMs"])

p("C10", "Lazily generated DRM entries depend only on position and never collide",
  "The lazily generated Gaussian entries are a pure function of seed, row, mode split and the index of the column, computed identically for any subset, order or repetition of indices and any row range, without changing the given indices. Distinct indices get unrelated values for every tensor shape whose number of entries fits 64 bits, however the modes are arranged, and all values are finite.",
  ["inputs"], "all shapes up to 2^63 entries (including powers of two and many small modes), all index sets and dtypes, row ranges and seeds",
  "Tests use shapes with at most 11760 entries, where no index arithmetic can wrap, and rows starting from 0 mostly.",
  [PX, SG], [("_inds_to_rand_double, inds_to_normal", PX), ("SparseGaussianDRM.sketch_sparse", SG)], None, ["inds_to_normal, SparseGaussianDRM.sketch_sparse"])

p("C11", "Sparse sign DRM columns have exactly the requested number of random signs",
  "For every index, the sparse sign DRM's vector has exactly the requested number of non-zero entries for that mode split, each +1 or -1, with signs and positions spread evenly; the vector depends only on seed and index. A row range returns exactly that part of the full vector, and the per-split numbers are matched to the ranks they were given with on left and right DRMs alike.",
  ["inputs", "configurations"], "all ranks, all numbers of non-zeros from 1 to the rank, per-split tuples on both sides, all shapes up to 2^63 entries, seeds, index sets and row ranges",
  "One test checks one rank (100) and 20 non-zeros on one shape at the routine level; the DRM class is only used with its default (all non-zero).",
  [PX, SS], [("_inds_to_sparse_sign, inds_to_sparse_sign", PX), ("SparseSignDRM", SS)], None, ["inds_to_sparse_sign, SparseSignDRM.sketch_sparse"])

p("C12", "DRM entries have the documented distribution and are independent across sides",
  "Gaussian DRMs have standard normal entries and sign DRMs have balanced entries, uncorrelated between different rows and different columns; TT DRMs have zero-mean entries and preserve squared norms in expectation after division by their rank. The left and right DRMs that one seed gives a sketch are independent of each other, and so are DRMs with different seeds.",
  ["inputs", "configurations"], "all DRM types, shapes, ranks, sides and seeds, judged statistically at a false-alarm probability below 1e-9 per run",
  "Tests check the marginal distribution of the hashing routine for one seed; class-level distribution, correlation and left/right independence are untested.",
  [DG, SG, SS, TD, PX, SK, UT], [("seed derivation", SK), ("TensorTrain.random(norm-preserve)", TE), ("ndtri of hashed mantissa", PX), ("MultithreadedRNG", UT)], None, ["matrices of the DRMs returned by stream_sketch(return_drm=True)"])

p("C13", "A seed determines the result in every process",
  "Calling any sketching routine, DRM or random constructor that takes a seed again with the same arguments and seed gives the same result: in the same process whatever ran before and whatever the state of global random generators, in another process whatever its hash randomisation, and on machines with other numbers of CPUs. Different seeds give different results.",
  ["configurations", "histories", "inputs"], "all seeded entry points, all seeds, any preceding use of random numbers, PYTHONHASHSEED values and CPU counts",
  "Tests compare two calls in one process run with a fixed PYTHONHASHSEED.",
  [SK, DB, DG, TE, UT], [("seed handling in hmt/orthogonal/stream_sketch", SK), ("DRM.__init__", DB), ("random_normal", UT)], None, ["outputs of seeded calls in separate processes"])

p("C14", "Tensor arithmetic agrees with dense arithmetic and never alters its operands",
  "Sums, differences, negation, multiplication and division by scalars (from either side), weighted sums and in-place accumulation of tensors in any mix of formats represent exactly the tensor that dense arithmetic gives, through any sequence of such operations. No operation other than in-place accumulation changes the value of any tensor that existed before, including results derived from it earlier.",
  ["histories", "inputs"], "all programs of arithmetic operations over tensors of at least two modes in all formats, nested sums and sketched tensors, Python and NumPy scalars including zero and negative ones",
  "Tests check two fixed expressions for pairs of formats of one shape and never look at the operands afterwards.",
  [TE], [("Tensor operators", TE), ("TensorSum", TE), ("TensorTrain.__mul__, CPTensor.__mul__", TE)], None, ["to_numpy of every tensor after every operation"])

p("C15", "Inner products, norms and errors agree with dense values for all formats",
  "For every pair of tensors in any formats (including sums and sketched tensors) and in either order, the inner product, the norm and the error, plain, relative, root-mean-square or both, and with the fast formula up to its documented accuracy, equal those computed from the dense values, up to round-off. The relative error to a zero tensor is infinite.",
  ["inputs", "configurations"], "all pairs of formats, nested sums, dense arrays as error reference, all shapes of at least two modes and all magnitudes, all flag combinations",
  "One shape, one random tensor per format, flags tested one at a time, sums and sketched tensors not at all.",
  [TE, SK], [("Tensor.dot double dispatch", TE), ("SparseTensor.dot/gather", TE), ("TensorTrain.dot/norm/error", TE)], None, ["dot, @, norm, error"])

p("C16", "Gathered entries equal the tensor's entries at those positions",
  "Looking up any list of positions (with repeats, in any order, as an array or a tuple of arrays, possibly empty) in a TT, CP or sparse tensor returns the dense tensor's values there, zero where a sparse tensor stores nothing. This stays true after the tensor's stored data are changed in place.",
  ["inputs", "histories"], "all shapes of at least two modes (below 32 modes and 2^63 entries for sparse tensors), ranks, position lists, index dtypes, and interleavings of lookups with in-place changes of cores or entries",
  "gather is only exercised indirectly through dot of freshly made tensors.",
  [TE], [("TensorTrain.gather, CPTensor.gather, SparseTensor.gather", TE)], [("dict", "cached lookup table of a sparse tensor", TE)], ["gather"])

p("C17", "Transposing, converting and splitting keep the tensor; sizes are exact",
  "In every format (sums included) transposition reverses the modes of the represented tensor and is its own inverse, converting to dense or sparse and splitting a sparse tensor into any number of summands keep every entry, and shape, number of modes and rank attributes match the represented data. The reported size is the number of stored floating point numbers, also for sums of any formats, and a TT's partial contractions from either end are its interface matrices.",
  ["inputs"], "all formats, shapes of at least two modes, ranks, summand counts (also more than there are entries)",
  "Tests use one shape; size is never checked; partial contractions and uneven splits are untested.",
  [TE], [("T, to_numpy, dense, to_sparse, split, size, partial_dense", TE)], None, ["the named methods"])

p("C18", "TT rounding honours tolerance and rank and returns an orthogonal TT",
  "Rounding a TT to given ranks gives ranks no larger than requested, at most what the shape allows and at most the original ones, with error at most the root of the summed squared discarded singular values of its unfoldings; rounding with a tolerance discards only singular values below the tolerance relative to the largest of that unfolding, and keeps no more than needed. Without arguments the tensor is unchanged, the result's cores are right-orthonormal except the first, and the input is not modified.",
  ["inputs"], "all TTs of at least two modes (redundant, rank deficient, zero, ranks above what the shape allows, any scale), all tolerances and maximal ranks, also pre-orthogonalised input",
  "One TT with an exactly redundant rank is rounded; the error bound is never tested in the truncating regime.",
  [TE], [("TensorTrain.round", TE), ("process_tt_rank", UT)], None, ["round"])

p("C19", "TT addition and orthogonalisation represent the same tensor exactly",
  "Adding two TTs gives a TT with the summed ranks representing the sum of the tensors; orthogonalising gives left-orthonormal cores except the last, ranks not above the original, and the same tensor, whose norm is that of the last core. Neither changes its inputs, for any shape and ranks including rank-deficient and over-sized ones.",
  ["inputs"], "all shapes with at least two modes, all rank tuples, all values including zero cores",
  "One shape (5,5,5,5) and rank 2.",
  [TE], [("TensorTrain.add, orthogonalize, norm", TE)], None, ["add, orthogonalize, norm"])

p("C20", "Reported TT singular values are those of the tensor's unfoldings",
  "For every TT, the singular values reported for each split of the modes are the singular values of that unfolding of the dense tensor, in decreasing order, padded or cut only by zeros.",
  ["inputs"], "all TTs of at least two modes, including ranks larger than the modes beside them, rank-deficient and zero tensors",
  "No test calls it.",
  [TE], [("TensorTrain.svdvals", TE)], None, ["svdvals"])

p("C21", "TT-SVD is exact without a rank limit and quasi-optimal with one",
  "TT-SVD of any tensor in any format, without a rank limit, reproduces the tensor; with a limit, ranks do not exceed the limit or what the shape allows and the error is at most the root of the summed squared discarded singular values of the unfoldings, and never less than the best possible for any single unfolding. The cores are left-orthonormal except the last and the error is orthogonal to the result.",
  ["inputs"], "all shapes of at least two modes, formats, rank limits (integer or per mode), decaying and flat spectra, zero tensors",
  "No test calls it.",
  [SV, UT], [("tt_svd", SV), ("process_tt_rank", UT)], None, ["tt_svd"])

p("C22", "Rank specifications are normalised losslessly and bound every result's ranks",
  "An integer rank means that rank for every split; trimming gives the largest ranks, none above the requested ones, that satisfy the bounds imposed by the mode sizes and neighbouring ranks, so any TT of the requested ranks can be represented exactly with the trimmed ones. Every decomposition routine returns ranks not exceeding the requested ranks, and those among them documented to truncate return exactly the trimmed ranks.",
  ["inputs", "configurations"], "all shapes and rank specifications (integer, tuple), all decomposition routines and random TT constructors",
  "No test checks trimming; result ranks are checked for two TTs.",
  [UT, SK, SV, TE, GM], [("trim_ranks, process_tt_rank", UT)], None, ["process_tt_rank, trim_ranks, rank of results"])

p("C23", "Inconsistent requests are rejected instead of giving a wrong result",
  "Rank tuples of the wrong length, left and right ranks that are not consistently ordered, DRMs whose shape or rank does not match the tensor or the request, operations on DRMs that do not support them, unknown options, and linear systems with mismatched shapes are refused with a ValueError. Requests that are consistent are accepted.",
  ["inputs", "configurations"], "all pairs of rank tuples, shapes, DRM types and options, valid and invalid",
  "No test passes an invalid argument.",
  [SK, DB, UT, GM, TE], [("argument checks", SK), ("handle_transpose shape check", DB), ("process_tt_rank length check", UT), ("tt_sum_gmres checks", GM)], None, ["exceptions raised"])

p("C24", "TT-matrices act as the linear operators they represent",
  "Applying a TT-matrix (MPO) to a TT equals multiplying by the dense operator, mode ordering and rectangular shapes included; its transpose is the adjoint and an involution, the identity acts as identity, conversion to a TT keeps all entries, and scaling, negation and division act linearly without changing the original operator. Applying an operator leaves operator and argument unchanged.",
  ["inputs", "histories"], "all in/out shapes of at least two modes, ranks and core values, all sequences of scaling, transposing and applying",
  "One square symmetric operator is applied once, against a reference that sums the input modes freely; scaling and transposing are untested.",
  [GM], [("MPO", GM)], None, ["MPO call, T, to_tt, to_numpy, *"])

p("C25", "Operator sums and mode preconditioners act as the operators they stand for",
  "A sum of linear maps applied to a TT, or to a sum of TTs, represents the sum of all individual results, and maps with different shapes cannot be combined; a mode preconditioner applies the inverse of its matrix on its mode, its forward application is the exact inverse of that, and arguments are left unchanged. The cookie-problem operators act as the matrix on the first mode times the diagonal of coefficients on the parameter mode, and their preconditioner inverts the mean operator.",
  ["inputs"], "all shapes, modes, invertible matrices, sums of maps and tensors; cookie problems built from arbitrary symmetric matrices",
  "No test touches these.",
  [GM, CO], [("TTLinearMapSum, TTPrecond", GM), ("CookieMap, prepare_cookie_problem", CO)], None, ["calls of the maps"])

p("C26", "Rounding a sum of TTs keeps the sum within accuracy and rank limits",
  "Every rounding method applied to a sum of any number of TTs (one included) returns a TT of the sum's shape whose ranks do not exceed the requested ranks, equals the sum when the requested ranks suffice, and for the deterministic methods has an error bounded by the discarded singular values and the tolerance. Requesting no rounding returns the sum itself, and the summands are not modified.",
  ["inputs", "configurations"], "all sums (one to many summands, cancelling, zero), ranks, tolerances, methods and oversampling factors",
  "No test calls it.",
  [GM, TE, SK], [("round_tt_sum", GM)], None, ["round_tt_sum"])

p("C27", "TT-GMRES solves to its tolerance and reports the residual it reached",
  "For a well-conditioned linear system whose ranks are not restricted, the solver stops once, and only once, the relative residual is below the tolerance or the iteration limit is reached; the returned TT then has a true relative residual matching the reported one up to the tolerance, whatever the scale of the right-hand side, the initial guess (an exact one and a zero right-hand side included), preconditioner or rounding method. The reported residuals never increase, and the inputs are not modified.",
  ["inputs", "configurations"], "all well-conditioned operator sums (identity included, symmetric flag only for symmetric ones), right-hand sides of any scale, initial guesses, preconditioners, deterministic rounding methods, tolerances and iteration limits",
  "The solver's test is commented out.",
  [GM], [("tt_sum_gmres", GM)], [("H_matrix, nu_list, residual_norm", "Krylov state", GM)], ["returned TT and history"])

p("C28", "Random tensor constructors give what was asked for",
  "Random TTs, CP, Tucker, sparse and dense tensors, zero TTs and random or identity TT-matrices have exactly the requested shape and rank (trimmed where documented), the requested number of distinct non-zero positions, finite values, and parts made of independent random numbers; options for orthogonality, trimming and normalisation hold for every core, and expected norms are as documented. Contradictory or unknown options are refused.",
  ["inputs", "configurations"], "all shapes, ranks, non-zero counts up to all entries, option combinations and seeds",
  "Tests use the constructors with a few shapes but check none of their promises.",
  [TE, GM, UT], [("TensorTrain.random/zero, CPTensor.random, TuckerTensor.random, SparseTensor.random, DenseTensor.random", TE), ("MPO.random/eye", GM), ("MultithreadedRNG", UT)], None, ["the constructors"])

p("C29", "Numerical helper functions satisfy their defining identities",
  "Matricising groups the chosen modes in the given order and undoing it restores the tensor; the pseudo-inverse products equal multiplication by the pseudo-inverse from the correct side; the projector is idempotent with the stated range and kernel. The test tensors (Hilbert, square-root, power decay) have the requested shape and the documented entries or decay for any shape and parameters.",
  ["inputs"], "all array shapes, modes and mode tuples, well-conditioned and rank-deficient matrices, all test tensor shapes and parameters",
  "No test calls these except through sketching.",
  [UT], [("matricize, dematricize, left_mul_pinv, right_mul_pinv, projector, hilbert_tensor, sqrt_tensor, power_decay_tensor", UT)], None, ["the helpers"])

p("C30", "An experiment log runs each distinct experiment once and loses no result",
  "Whatever the sequence of experiments, repeats and reloads from disk, an experiment whose parameters are already recorded is not run again, one whose parameters differ in any way is run, and after every step the log in memory and the file on disk hold exactly one row per distinct experiment with its name, parameters and results. Forcing an overwrite starts from an empty log.",
  ["histories", "crash_points", "inputs"], "all sequences of experiments with numeric, string, class, function and tuple parameters, repeats, parameters present in only some experiments, and process restarts between any two steps",
  "No test imports the scripts.",
  [EX], [("Experiment.check_experiment_done, do_experiment, save, load", EX)], [("data", "table of done experiments", EX)], ["Experiment.data and the CSV file"])

p("C31", "Sketches approximate nearly as well as the best TT of a slightly lower rank",
  "For any tensor whose singular values decay, in every format and with every DRM type that supports it, the typical error of the HMT, orthogonal and streaming sketches stays within a small constant factor of the error that randomised projection theory predicts from the discarded singular values of the unfoldings, the requested ranks and the oversampling; no result has larger ranks than requested or an error below the best possible one for its ranks.",
  ["inputs", "configurations"], "all formats, shapes, spectra and noise levels, methods, DRM types, ranks with an oversampling of at least 4, and seeds; medians over 24 seeds",
  "Tests sketch tensors of exactly the sketch's rank, so that accuracy for tensors that do not fit is never judged.",
  [SK, DG, SG, SS, TD, DB, UT], [("stream_sketch, orthogonal_sketch, hmt_sketch", SK), ("DRM classes", DB), ("right_mul_pinv", UT)], None, ["errors of the resulting TTs"])

p("C32", "Experiment functions report the error of the approximation that was timed",
  "Each experiment function computes the approximation with the requested method, ranks, DRM types and recompression rank, and reports its true relative error, or exactly what the given error function returns for this approximation and the input tensor, together with a non-negative time; recompressed results keep to the recompression rank and lose no more than the discarded singular values, further keyword arguments do not matter, and the input is unchanged.",
  ["inputs", "configurations"], "all five experiment functions, formats, ranks, DRM types, recompression ranks and states of the global random generator",
  "No test imports the scripts.",
  [EX, SK, SV, TE], [("experiment_stream_sketch, experiment_orthogonal_sketch, experiment_hmt_sketch, experiment_tt_svd, experiment_tt_round", EX)], None, ["returned error and time, arguments of the error function"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
