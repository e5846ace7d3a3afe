"""Property texts (source of properties.jsonl) - one entry per property.

(id, title, statement, over, quantifier text, why tests cannot, files, [(mechanism, where)])
"""
MM = "mergekit/merge_methods/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


prop("C01", "Linear merge is the weighted sum or weighted average of the inputs",
     "A linear merge produces, for every tensor, the sum of weight times value over the models that have the tensor, divided by the sum of those weights unless normalisation is switched off (it is on by default). "
     "An optional tensor missing from some models is averaged over the models that do have it, and tensors of different shapes that are not embeddings are refused, never mixed.",
     ["inputs", "configurations"], "all tensor values, weights, numbers of models, shapes, subsets of models that lack the tensor",
     "Tests merge one or two random or constant checkpoints and mostly check that files exist; they cannot show the formula for every weight and value.",
     [MM + "linear.py", "mergekit/io/tasks.py"], [("weighted sum", "LinearMergeTask.execute"), ("gathering present tensors", "GatherTensors.execute")])

prop("C02", "SLERP and NuSLERP interpolate along the great circle",
     "SLERP with parameter t returns the spherical interpolation from the base model (t=0) to the other model (t=1) whichever order they are listed in, falling back to linear interpolation for nearly colinear vectors, and returns the endpoints exactly at t=0 and t=1. "
     "NuSLERP gives the same interpolation with t derived from the relative weights of the two models, treating whole tensors, rows or columns as vectors as requested, and around the base model when one is given.",
     ["inputs", "configurations"], "all vectors within the bounds, all interpolation weights, all listing orders, flatten / row-wise / column-wise modes, with and without base",
     "Tests run one t value on random tensors and check only that a model comes out; no test states the formula, the endpoints or the symmetry.",
     [MM + "slerp.py", MM + "nuslerp.py"], [("slerp", "slerp()"), ("nuslerp", "NuSlerpTask.execute / nuslerp()")])

prop("C03", "Multi-SLERP and Karcher merges compute the spherical barycentre",
     "Multi-SLERP returns the weighted barycentre of the models on the hypersphere (project, average in the tangent space, exponentiate, restore the average norm), relative to the base model when one is given, and a single model is returned unchanged. "
     "Karcher returns the iterative Riemannian mean of the models' directions scaled by their mean norm; identical models are a fixed point and all-zero tensors give zero.",
     ["inputs", "configurations"], "all vectors and weights within the bounds, with/without base and weight normalisation",
     "Tests only check that the merged values lie in a plausible range for one input; the formula is never stated.",
     [MM + "multislerp.py", MM + "karcher.py"], [("barycentre", "multislerp()"), ("Riemannian mean", "KarcherTask.execute / karcher_merge_tensors()")])

prop("C04", "Task-arithmetic merges add the documented combination of task vectors",
     "Every task-arithmetic style merge (plain, TIES, DARE, Breadcrumbs, DELLA and their linear/TIES variants) returns base + lambda times the weighted sum of the (pruned) differences to the base; the TIES variants keep, element by element, only contributions whose sign agrees with the weighted majority. "
     "With normalisation (on by default exactly for TIES and DELLA) the sum is divided by the total weight that contributed to the element, and each model's own weight, density, gamma and epsilon apply to it only. "
     "Models lacking the tensor or having another shape do not contribute; without contributors the base tensor is returned.",
     ["inputs", "configurations"], "all tensor values, weights, lambda, densities, listing positions of the base, draws of the random pruning",
     "Tests run each method once on random tensors and check that the result exists; per-method defaults, sign election and weight accounting are not tested.",
     [MM + "generalized_task_arithmetic.py", MM + "registry.py", "mergekit/sparsify.py"],
     [("combination", "GTATask.execute"), ("sign election", "get_mask"), ("task vectors", "get_task_vectors"), ("defaults", "STATIC_MERGE_METHODS")])

prop("C05", "Sparsification keeps exactly the documented elements and norm",
     "Magnitude pruning keeps the requested fraction of largest-magnitude elements; outlier pruning additionally drops the gamma fraction of largest elements while still meeting the density; random and DELLA pruning keep each element with the density, respectively a probability rising linearly with the magnitude rank in its row from density-epsilon to density+epsilon. "
     "Kept elements are unchanged without rescaling, and with rescaling are multiplied by one common factor that restores the tensor's L1, L2 or max norm; shape and dtype are preserved and density 1 changes nothing.",
     ["inputs", "configurations"], "all tensor values incl. ties and zeros, all densities / gammas / epsilons in range, all outcomes of the random draws",
     "Tests sample a few random tensors and compare one norm; ties, zero outlier counts, single-element rows and draw-by-draw behaviour are not reached.",
     ["mergekit/sparsify.py"], [("pruning", "magnitude / magnitude_outliers / bernoulli / della_magprune"), ("rescaling", "rescaled_masked_tensor")])

prop("C06", "Model Stock interpolates by the average angle of the task vectors",
     "Model Stock returns t * average + (1 - t) * base, with t = N*cos/(1 + (N-1)*cos) for the mean pairwise cosine of the N task vectors, computed over the whole tensor or, with filter_wise, separately for every row. "
     "Identical fine-tuned models return that model, models equal to the base return the base, directly opposed task vectors, for which no ratio exists, keep the base, and with fewer than two fine-tuned models the base tensor is returned.",
     ["inputs", "configurations"], "all tensor values and lengths within the bounds, all listing orders, whole-tensor and filter-wise modes",
     "The test runs the method once and checks only that a model is written; the ratio and the fallbacks are never stated.",
     [MM + "model_stock.py"], [("ratio", "ModelStockMergeTask.execute"), ("base / rectified sizes", "get_rectified_weights")])

prop("C07", "SCE and RAM select and fuse the documented elements",
     "SCE keeps the select_topk fraction of elements of highest variance across models, weights every model by its share of squared task-vector magnitude, erases contributions of the minority sign and adds the normalised sum to the base. "
     "RAM keeps single-model changes at full size and averages elements changed by several models (RAM+ additionally rescales the unique part by the overlap ratio), and unchanged elements stay at the base value.",
     ["inputs", "configurations"], "all tensor values, thresholds, selection fractions and rescale factors within the bounds, all numbers of models up to three",
     "Tests run each method on one random input and check that output exists; degenerate selections and per-element rules are not reached.",
     [MM + "sce.py", MM + "ram.py"], [("SCE", "sce_merge / sce_mask / sce_weight"), ("RAM", "ram_merge / ramplus_tl_merge")])

prop("C08", "NearSwap, Arcee Fusion and passthrough compute their documented results",
     "NearSwap moves each base element towards the other model by at most t. Passthrough returns its only input unchanged, or multiplied by scale when given, and refuses several inputs. "
     "Arcee Fusion takes every element either unchanged from the base or unchanged from the other model, taking exactly the elements whose importance exceeds the documented dynamic threshold (median plus 1.5 interquartile ranges).",
     ["inputs", "configurations"], "all tensor values, t and scale within the bounds, both listing orders",
     "Tests execute each method once; no test relates outputs to inputs element by element.",
     [MM + "nearswap.py", MM + "arcee_fusion.py", MM + "passthrough.py"], [("nearswap", "nearswap()"), ("fusion", "DynamicThresholdFusion"), ("passthrough", "PassthroughMergeTask.execute")])

prop("C09", "Embeddings of different vocabulary sizes are merged on their common part",
     "When embedding matrices (embed_tokens / lm_head) have different row or column counts, linear, SLERP, NuSLERP, Model Stock, Arcee Fusion and Karcher merge exactly the common top-left submatrix, as if every input had been cropped; "
     "the task-arithmetic family crops larger models to the base model's shape. Weights that are not embeddings are never cropped: linear refuses mismatching shapes and the task-arithmetic family leaves mismatching models out.",
     ["inputs", "configurations"], "all tensor values, size combinations within the bounds, listing orders",
     "Tests use equal vocabulary sizes or one padded size; cropping is not related to the merge result.",
     [MM + "rectify_embed.py", MM + "generalized_task_arithmetic.py", MM + "linear.py"], [("cropping", "rectify_embed_sizes"), ("task vectors", "get_task_vectors")])

prop("C10", "Merging identical models is a no-op and listing order does not matter",
     "Merging copies of one model (base included) gives back that model for every method and every parameter value. "
     "For every method the result does not depend on the order in which models and their own parameters are listed, and merging a single model without anything to combine it with returns it or is refused, but never alters it.",
     ["inputs", "configurations"], "all tensor values, per-method parameters, permutations of the listed models",
     "Order and fixpoint laws quantify over all inputs and methods; tests run one order and never compare two runs.",
     [MM + "__init__.py", MM + "registry.py", "mergekit/io/tasks.py"], [("method registry", "REGISTERED_MERGE_METHODS"), ("input order", "GatherTensors")])

prop("C11", "Custom merge methods receive exactly the documented arguments",
     "A function registered with the merge_method decorator is called with the present tensors (base first when it has no base argument, then listing order, base never repeated), per-model parameter lists aligned with those tensors, scalar parameters as configured or defaulted, and the output weight and base model when declared. "
     "Its return value is the merged tensor; a lone tensor is passed through; required parameters are declared required; malformed signatures are refused.",
     ["inputs", "configurations"], "all listing orders, all subsets of models lacking the tensor, all values and weights",
     "One test registers one method with constant tensors; ordering and alignment over every subset and order cannot be sampled.",
     [MM + "easy_define.py"], [("decorator", "merge_method / __make_task_cls")])

prop("C12", "Parameters resolve by documented precedence, filter and layer gradient",
     "Every merge parameter takes the most specific setting that applies: model entry, slice, module, global, else the method's default. Among conditional entries the first whose filter is absent, '*' or contained in the tensor's name wins, and a level without a matching entry falls through to the next. "
     "A list of numbers is interpolated linearly over the layers of its own slice (first layer gets the first number, last layer the last). "
     "Per-model parameters are matched against the input tensor, method-wide ones against the output tensor; a required parameter left unset is an error, and the output norm and head follow the last slice.",
     ["inputs", "configurations"], "every combination of setting kinds on every level, every parameter and tensor value, slice lengths within the bounds",
     "Tests check a handful of numeric configurations through config_reader only and never relate the resolved values to merged tensors, layer by layer.",
     ["mergekit/config.py", "mergekit/plan.py", "mergekit/common.py"], [("lookup", "ConfigReader.parameter"), ("conditions and gradients", "evaluate_setting"), ("per-tensor planning", "MergePlanner.plan_tensor / plan_layer")])

prop("C13", "Slices and modules assemble the requested layers and a matching config",
     "Output layer k is built from exactly the k-th requested input layer(s) of the slices in order, every other weight of the module is merged once, and no tensor is missing or extra. "
     "The written configuration is that of the first referenced model (base_model first when set) with the layer counts, and per-layer types, of the assembled stack; the models syntax means all layers of the models; "
     "ranges of unequal length and ambiguous or impossible requests are refused.",
     ["inputs", "configurations"], "every layer range, order and repetition of slices within the bounds, all tensor values",
     "Tests stack one configuration; mapping of every layer for every range, order, module and architecture is not sampled.",
     ["mergekit/plan.py", "mergekit/merge.py", "mergekit/config.py"], [("planning", "MergePlanner.plan_slice / plan_module"), ("config", "_model_out_config / _update_config"), ("models syntax", "MergePlanner.normalize_config")])

prop("C14", "Merging covers exactly the weights of every supported architecture",
     "For every bundled architecture definition, a merge reads and writes exactly the weights that a model of that architecture has: none is dropped, invented, renamed to something the model would not load, or taken from another tensor, whatever the configuration options, tied or separate heads, and optional weights. "
     "Vocabulary matrices (and only those) are treated as embeddings, checkpoints with documented older names or prefixes are accepted, and for architectures without a definition all tensors common to the models are merged under their own names, layer by layer.",
     ["inputs", "configurations"], "all bundled architectures known to the installed transformers, their configuration variants, tied or stored heads, all tensor values",
     "Tests build tiny Llama, Mixtral and a few other checkpoints; the forty-odd definitions and their optional weights are never compared with the model classes.",
     ["mergekit/architecture/json_definitions.py", "mergekit/architecture/base.py", "mergekit/architecture/auto.py", "mergekit/architecture/moe_defs.py", "mergekit/plan.py", "mergekit/io/tasks.py"],
     [("definitions", "JsonModuleArchDef / _data/architectures/*.json"), ("lookup", "get_architecture_info"), ("inference", "infer_architecture_info"), ("optional / aliases / tied", "LoadTensor / MergePlanner.plan_tensor")])

prop("C15", "Tensors and config carry the requested data type",
     "Every tensor is stored as out_dtype if set, else dtype if set, else in the type of the inputs, whatever the merge method; weights whose definition mandates a type (such as position ids) keep that type. "
     "Arithmetic happens in dtype, and the written configuration names the type the weights are stored in. Unknown type names are refused.",
     ["inputs", "configurations"], "every combination of source type, dtype and out_dtype for every merge method, all tensor values",
     "Tests use one dtype at a time and one method; combinations per method and mixed inputs are not explored.",
     ["mergekit/plan.py", "mergekit/common.py", "mergekit/io/tasks.py", "mergekit/merge.py"], [("casting", "MergePlanner.plan_tensor / SaveTensor / LoadTensor"), ("type names", "dtype_from_name"), ("config", "_model_out_config")])

prop("C16", "The task executor computes every requested result exactly once, in order",
     "Executing a set of target tasks runs every task they need exactly once, after all its arguments, passes each result to the argument it belongs to, and yields every target with its value. Equal tasks count as one, and cached values are used instead of running the task. "
     "Among runnable tasks the smallest group label, then the highest priority, goes first. A result is dropped as soon as its last consumer has run, a target's once it has been handed over. "
     "Tasks that use the accelerator get every tensor, however nested, on the math device, and results rest on the storage device.",
     ["inputs", "configurations", "histories"], "every acyclic graph, target set, cached set, priority and label order within the bounds, all values",
     "Tests execute a few fixed graphs; ordering, release and caching over all graphs are not sampled.",
     ["mergekit/graph.py"], [("scheduling", "build_schedule"), ("execution and eviction", "Executor._run"), ("task identity", "TaskUniverse.add_task"), ("device moves", "Executor._move_tensors")])

prop("C17", "Multi-GPU execution gives the serial result under every interleaving",
     "With several accelerators every target is delivered exactly once with the value serial execution gives, whatever the interleaving of worker, progress and main threads. "
     "Main-thread-only tasks run once on the main thread (before or after the parallel part, or are refused), per-device tasks run once per device thread at most, every other task exactly once on one device. "
     "Tensors of accelerated tasks are on their worker's device and results on the storage device. An exception in any task reaches the caller, without a deadlock. A whole merge run on several devices writes the checkpoint, configuration and tokenizer of the serial run.",
     ["schedules", "inputs", "configurations"], "every schedule within the delay bound, every small graph and task kind, failing task, 1-2 devices",
     "The sandbox has no GPU and no test runs this executor at all; races need every interleaving.",
     ["mergekit/multigpu_executor.py", "mergekit/graph.py"], [("partition", "MultiGPUExecutor._find_leading_tasks / _find_trailing_tasks"), ("islands", "_assign_islands_to_gpus"), ("workers", "_device_worker / run")])

prop("C18", "Checkpoints are written completely, in shards that respect the size limit",
     "Every tensor handed to the writer is stored exactly once with its own values and type, in shards that never exceed the size limit unless a single tensor does, a new shard starting only when the next tensor does not fit. "
     "Files follow the Hugging Face naming, one shard has no index, several shards have an index naming the right file for every tensor and the total size; written over an earlier checkpoint of the same format, the directory reads as the new one. "
     "This also holds with several producers and background writing; a shard that cannot be written is reported and leaves no index. Options reach the writer; a missing required value is an error, a missing optional one is left out.",
     ["inputs", "schedules", "faults", "histories"], "every size limit, tensor sizes and types within the bounds, every schedule within the delay bound, any failing shard",
     "Tests write a few tensors with one limit, synchronously; limits, races and failing writes are not explored.",
     ["mergekit/io/tensor_writer.py", "mergekit/io/tasks.py"], [("sharding", "TensorWriter.save_tensor / _flush_current_shard"), ("finalisation", "TensorWriter.finalize"), ("tasks", "SaveTensor / FinalizeModel / TensorWriterTask")])

prop("C19", "Every tensor of a checkpoint is read from the file that holds it",
     "For any distribution of tensors over shard files, both formats, any order of accesses and flushes and concurrent readers, reading a name returns that tensor's own value; a missing name is a KeyError or None as requested. "
     "safetensors files are preferred to pickles and an index to an unsharded file; single files and nested state dicts are read too. "
     "A tensor's own name wins over its aliases, then its tied names, in order; a missing required tensor is an error. What the writer stored is read back identically.",
     ["inputs", "histories", "schedules"], "every layout, access sequence, subset of names and schedule within the bounds, all values",
     "Tests read each tensor once in file order from one layout.",
     ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py", "mergekit/io/tasks.py"], [("index", "ShardedTensorIndex.from_disk / from_file"), ("access", "LazyTensorLoader.get_tensor"), ("names", "LoadTensor._resolve_name"), ("cache", "LoaderCache")])

prop("C20", "Lazy unpickling yields exactly the tensors torch.load would",
     "For every element type, shape, stride, storage offset and shared storage, and any order of accesses, the lazily loaded tensor has the type, shape and values of the saved one: each element is read from its own bytes of its own storage. "
     "Pickles that name any symbol outside the accepted list, or unexpected persistent ids, are refused with an unpickling error without executing anything, and pickle and torch are left unpatched afterwards.",
     ["inputs", "histories"], "all offsets, shapes and strides within the bounds, all read sequences, listed element types and forbidden symbols",
     "The one test saves three-element vectors; layouts, types, shared storages and hostile pickles are never loaded.",
     ["mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py"], [("deferred loads", "DeferredLoad.rebuild / execute"), ("archive access", "TorchArchiveReader.open_file"), ("allow list", "LazyTorchUnpickler.find_class")])

prop("C21", "The output vocabulary and every model's permutation to it are right",
     "The output tokenizer has exactly the vocabulary asked for: the base model's, a named model's, or the union of all models, plus configured extra tokens, with consecutive ids and existing ids kept. "
     "Tokens without an embedding row (id at or beyond the model's vocab_size) are not carried over from the base or into a union, nor are BPE merges involving them. "
     "For every referenced model each output token maps to that model's own id or to -1 when it has no row for it; a model without tokenizer is taken to use the base model's.",
     ["inputs", "configurations"], "any subset and order of tokens per model, every vocab_size or none, every source, up to three models, base given or not",
     "Tests use two tiny vocabularies with matching vocab_size; stripped, padded, missing and added tokens are hardly reached.",
     ["mergekit/tokenizer/build.py"], [("stripping", "get_stripped_tokenizer"), ("union", "build_union_tokenizer"), ("permutations", "build_tokenizer")])

prop("C22", "Embedding rows follow the output vocabulary",
     "When a tokenizer is built, each model's embedding row of an output token is its own row for that token if it has one; otherwise the base model's row, else the average over the models that have the token, else zero. "
     "A configured source (zero, another model, a model's token by name or id) replaces the fallback, and with force also the model's own row; a source that does not exist is refused. "
     "Rows are padded to the requested multiple with the average row, vocab_size and saved tokenizer agree with the rows, and models lacking the tensor are left out.",
     ["inputs", "configurations"], "all embedding values, any subset of tokens per model, base or none, every kind of override, padding multiples",
     "Tests check a few rows of one or two configurations; combinations of sources, missing base tensors and padding are not reached.",
     ["mergekit/tokenizer/embed.py", "mergekit/merge.py", "mergekit/plan.py"], [("rows", "PermutedEmbeddings.execute"), ("fallbacks", "assign_embedding_sources"), ("overrides", "compute_default_embedding"), ("config", "_update_config_vocab")])

prop("C23", "MoE merges: attention of the base, MLPs of the experts, gates from the prompts",
     "A MoE merge writes the base model's non-MLP tensors unchanged and, for every layer, each expert's (and the shared expert's) own MLP weights at its position in the layout of the output architecture, with noise and residual scale applied to that expert only, in the configured type. "
     "Router rows are the normalised prompt representation (positive minus negative) of the expert in the same position: token embeddings for cheap_embed, the last token's state entering the layer for hidden. "
     "Config sizes, counts and the routing and MLP fields a reader of the weights needs match; unusable or unsupported configurations are refused and a supported architecture is chosen.",
     ["inputs", "configurations"], "all tensor values, numbers and orders of experts, four output architectures, tied heads, shared experts, scales, prompts",
     "The repository has no test of the MoE script at all.",
     ["mergekit/scripts/moe.py", "mergekit/moe/mixtral.py", "mergekit/moe/deepseek.py", "mergekit/moe/qwen.py", "mergekit/moe/qwen3.py", "mergekit/moe/common.py", "mergekit/moe/router.py", "mergekit/moe/config.py"],
     [("assembly", "write_model of each MoEOutputArchitecture"), ("gates", "get_gate_params"), ("scales", "noise_and_scale"), ("selection", "select_output_arch / is_bad_config")])

prop("C24", "mergekit-multi computes what running its merges one by one would",
     "Merges of one multi-document file may refer to each other's results by name anywhere a model can be named, in any order; each is run once, after the ones it needs, on their outputs, and written to its own directory (the unnamed one to the output path). "
     "Strings that are not model references stay untouched even if they equal a merge's name. With --lazy a complete existing result is kept and anything else computed; without it everything is recomputed. Cycles, duplicate names and a missing output path are refused.",
     ["inputs", "configurations", "histories"], "every dependency graph of up to four merges, listing orders, places and forms of references, states of earlier results, all tensor values",
     "Tests run one fixed two-stage chain; graphs, reference forms and leftover directories are not explored.",
     ["mergekit/scripts/multimerge.py"], [("references", "patched_config"), ("ordering", "make_tasks"), ("execution", "MergeModelTask.execute"), ("reading", "load_config")])

prop("C25", "mergekit-pytorch merges plain checkpoint files tensor by tensor",
     "For every tensor name the output is the merge method applied to that tensor of every file, with the parameters resolved for that name: the file's own setting, else the global one, else the default; zero and false count as set and a missing required one is refused. "
     "A base model only serves as the base, listed or not. Tensors that some files lack are refused by default, left out with --tensor-intersection, and merged from the files that have them with --tensor-union. The configured dtype is the output's.",
     ["inputs", "configurations"], "all tensor values and weights, subsets of tensors per file, parameter settings, modes, file formats",
     "The repository has no test of this script.",
     ["mergekit/scripts/merge_raw_pytorch.py", "mergekit/merge_methods/base.py"], [("planning", "plan_flat_merge"), ("parameters", "construct_param_dicts"), ("loading", "SimpleLoadTensor")])
prop("C26", "mergekit-tokensurgeon gives every donor token the row it should have",
     "The output keeps the model's tensors, has the donor's vocabulary, tokenizer and special token ids, and one row per donor token at the donor's id: the model's own row for a token both share (after normalising word starts and special roles), for a byte or longest-prefix match where that is allowed (separately for input and output embedding), else an approximation. "
     "Approximations are the mean, zero, the combined subword pieces of the model's tokenizer, the weighted k nearest shared tokens, the affine or least squares combination, or the coefficients orthogonal matching pursuit finds in the donor, applied to the model's rows; scaling, batching, the number of rows a side has, tied heads and half precision change nothing else.",
     ["inputs", "configurations"], "all embedding values, subsets of shared tokens, matching modes, row counts, batch sizes, tied and untied sides, numbers of neighbours",
     "The repository has no test of this script.",
     ["mergekit/scripts/tokensurgeon.py", "mergekit/tokensurgeon/omp.py", "mergekit/tokensurgeon/common_interpolation.py", "mergekit/tokensurgeon/subword.py", "mergekit/tokenizer/normalization.py"],
     [("rows", "build_embedding_matrix"), ("approximation", "compute_new_embeddings"), ("pursuit", "batch_omp"), ("neighbours", "common_interp_approximate"), ("subwords", "subword_approximate"), ("matching", "normalized_vocabulary")])

prop("C27", "mergekit-extract-lora writes an adapter for the difference of two models",
     "For every module of the two models the adapter's B·A, scaled as PEFT scales it, is the task vector cut to its max-rank largest singular values (exact if its rank is at most that); with --sv-epsilon modules use the fewest values above the threshold but at least one. Ranks and alphas written in the adapter's configuration are those of its matrices, embeddings are stored the way PEFT reads them. "
     "Modules saved at full rank (norms by need, embeddings when vocabularies differ, those asked for) hold the fine-tuned weights; included, excluded and skipped modules are respected; bias differences are stored; optional weights that are absent are left out; the base model is named with its revision.",
     ["inputs", "configurations"], "all task vectors of the given sizes and singular values, rank limits, thresholds, selections, dtypes",
     "The repository has no test of this script.",
     ["mergekit/scripts/extract_lora.py"], [("decomposition", "TaskVectorDecompositionTask"), ("planning", "plan_extraction"), ("configuration", "make_config_dict")])

prop("C28", "A genotype of mergekit-evolve stands for exactly one merge",
     "Every genotype, flat or shaped, yields a configuration whose merge applies to each tensor the genes of its layer group, model and first matching filter: weights by magnitude unless negative ones are allowed, densities within [0, 1], one slice per group of layers or, with smooth, values interpolated over the layers. "
     "Slerp genotypes merge the two models with the largest genes from the larger towards the other by its softmax share. The first genotype is the plain average with nothing dropped. Inconsistent definitions, granularities and shapes are refused, well known test sets only used with consent.",
     ["inputs", "configurations"], "all gene and tensor values, numbers of models, layers and groups, filters, base models, options",
     "The repository has no test of the evolutionary merging code.",
     ["mergekit/evo/genome.py", "mergekit/evo/config.py"], [("configuration", "ModelGenome.genotype_merge_config"), ("slices", "ModelGenome._discrete_config_slices"), ("interpolation", "ModelGenome._smooth_config_models"), ("slerp", "ModelGenome._slerp_slices"), ("consent", "check_for_naughty_config")])

prop("C29", "Model references name what they say; adapters are merged or cached right",
     "A model reference means the base model, revision and adapter its text says; writing and reading it, or a whole configuration, back yields an equal one, and the configuration saved with a merge repeats that merge. "
     "A reference with an adapter is the base with that adapter merged, at the requested revision and type: refused without a cache directory, taken from the cache only for the same base, adapter, revisions and type, and never from a merge that was killed or failed part way. "
     "Number sizes such as 5B, 200M or 10k mean what they say, and only files needed for the chosen format are downloaded.",
     ["inputs", "configurations", "crash points", "histories"], "reference strings and their parts, every field of a configuration, all tensor values, every kill and failure point of an adapter merge, pairs of merges sharing a cache",
     "The repository parses a few references; cache reuse, failures and round trips of whole configurations are untested.",
     ["mergekit/common.py", "mergekit/config.py", "mergekit/io/tasks.py"], [("references", "ModelReference"), ("adapters", "ModelReference.merged"), ("configuration", "MergeConfiguration.to_yaml"), ("sizes", "parse_kmb")])

prop("C30", "Tokenizer, chat template, other files and card of a merge are the right ones",
     "Unless a tokenizer is built, the output gets the tokenizer files of the base model, or of the first model, unchanged, and only if copying is wanted. A configured chat template, whether a built-in name, a template text of any length or the most common one among the models (auto), becomes the output's; an unknown one is never written. "
     "Files the architecture needs besides the weights come from the same model. The model card names the method, the base and every other model once, links those on the hub and repeats the configuration text, which is also saved beside it. "
     "Models of different architectures are only mixed when that is allowed; a donor's incomplete tokenizer does not spoil the merge.",
     ["inputs", "configurations"], "every combination of models' templates and template setting, donor files present or not, base or none, forms of configuration, tensor values",
     "Tests set two templates on one model pair; copying, auto selection, cards and further files are untested.",
     ["mergekit/merge.py", "mergekit/card.py", "mergekit/architecture/__init__.py"], [("templates", "_set_chat_template"), ("copying", "_copy_tokenizer / _copy_tagalong_files"), ("card", "generate_card")])

prop("C31", "The command line front ends run the merge their arguments or files describe",
     "Every option sets its own field and nothing else; a device not given follows the GPU options. mergekit-yaml merges what its file says with those options and saves the file's text; with a random seed, 0 included, the same merge gives the same tensors whatever was drawn before. mergekit-legacy merges as the equivalent configuration does, weights 1.0 unless given. "
     "mergekit-layershuffle builds a model in which each layer stands at its own position and comes from one of the models by weight, or, fully random, takes the share of each model's layers that its weight asks for, the ends from the first and last source; the same seed gives the same model and the written configuration repeats it. bakllama stacks the named layer ranges with their scales and the named ends.",
     ["inputs", "configurations", "schedules"], "every pair of switches, tensor values, option combinations, every outcome of the random draws (each draw is a solver choice)",
     "No test calls these tools' option handling, mergekit-legacy, layershuffle or bakllama.",
     ["mergekit/options.py", "mergekit/scripts/run_yaml.py", "mergekit/scripts/legacy.py", "mergekit/scripts/layershuffle.py", "mergekit/scripts/bakllama.py"], [("options", "add_merge_options / MergeOptions"), ("legacy", "scripts/legacy.main"), ("shuffle", "scripts/layershuffle.main"), ("bakllama", "scripts/bakllama.main")])

prop("C32", "Filling a model from a submodel replaces exactly the shared weights",
     "fill_missing_params writes every tensor of the larger model: those the submodel also has, under the one leading prefix that explains the most of its names, with the submodel's values, all others and all other files as in the larger model. The result lies where asked or beside the submodel, named after both, in files of the size asked for, readable by its index; "
     "neither input is changed, and a submodel with as many tensors as the larger model or more is refused before any weight is written.",
     ["inputs", "configurations"], "all tensor values, name layouts with decoy, nested, repeated and similar prefixes, storage orders, sharding of both inputs and of the output",
     "No test runs this tool.",
     ["mergekit/scripts/fill_missing_params.py"], [("fill", "copy_and_fill_missing_params"), ("prefix", "ParameterNamesUtils.find_prefix")])
