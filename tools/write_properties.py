"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))


prop("E01", "Task graphs run each needed task once, in order, with the right inputs",
     "For every acyclic task graph, set of targets and set of already-known results, running the graph executes exactly the tasks the targets need, each once, after everything it depends on and with exactly the values those dependencies produced under the right argument names, and delivers every target's own value. Intermediate values are never discarded before their last use, are not kept once nothing can use them, and are placed on the compute or storage device the task asked for. A failing task ends the run with its error and nothing that depends on it is executed or reported.",
     ["programs", "inputs"], "all task graphs, labels, priorities, target sets, pre-computed results, failing tasks, device settings",
     "tests run a handful of fixed graphs; topological order, deduplication and eviction must be right for every shape",
     ["mergekit/graph.py"],
     [("lexicographic topological schedule and last-use table", "mergekit/graph.py build_schedule"), ("execution loop with eviction and device moves", "mergekit/graph.py Executor._run")],
     ["Executor.run"])
prop("E02", "Parallel execution equals serial execution under every interleaving",
     "For every task graph that parallel execution accepts, every number of devices and every interleaving of the worker, progress and main threads, a parallel run delivers the same value for every target as a serial run, executes each ordinary task exactly once, runs main-thread-only tasks only on the calling thread, and terminates. A task that fails on a worker makes the run fail with that error; no schedule loses a result, deadlocks or leaves a thread running.",
     ["schedules", "programs", "fault_sequences"], "all interleavings (bounded preemptions/delays), small graphs, thread-placement flags, device counts, failing tasks",
     "no test runs the parallel executor at all; a lost queue item needs one particular preemption",
     ["mergekit/multigpu_executor.py", "mergekit/graph.py"],
     [("result queue drained by progress thread, completion event", "mergekit/multigpu_executor.py MultiGPUExecutor.run"), ("leading/trailing/island partition", "mergekit/multigpu_executor.py _find_leading_tasks, _find_trailing_tasks, _assign_islands_to_gpus")],
     ["MultiGPUExecutor.run"])
prop("W01", "Saved checkpoints read back exactly, for every save sequence and shard limit",
     "Whatever sequence of tensors is saved (any order, sizes, data types, shared or non-contiguous memory), from one or several threads, with any shard size limit, safe or pickle format, and synchronous or background writing, after finalisation the directory is a complete checkpoint: reading it back yields exactly the saved names and, for each, the bits, shape and type saved. Shard files follow the standard naming, every index entry points to the file that really holds the tensor, the recorded total size is the sum of the stored tensors, and no shard holding more than one tensor exceeds the limit.",
     ["histories", "schedules", "configurations"], "all save sequences up to a length over a small tensor alphabet, all writer options, all interleavings of saver and writer threads",
     "tests write a couple of models with default sharding; boundary sizes, one-shard/many-shard renaming and background writes interleave in many ways",
     ["mergekit/io/tensor_writer.py", "mergekit/io/lazy_tensor_loader.py"],
     [("shard accumulation and flush", "mergekit/io/tensor_writer.py TensorWriter.save_tensor, _flush_current_shard"), ("rename and index", "mergekit/io/tensor_writer.py TensorWriter.finalize")],
     ["output directory after finalize", "LazyTensorLoader.from_disk"])
prop("W02", "A crash or failed write never leaves a checkpoint that loads as complete",
     "If the process dies at any point while a checkpoint is written, or a write fails, the directory either does not load as a model at all or loads as exactly the complete checkpoint; a failed background write is always reported to the caller. Writing again into a directory that holds the remains of an interrupted or an earlier, differently sharded checkpoint yields exactly the new checkpoint, with nothing of the old one visible to a reader.",
     ["crash_points", "fault_sequences", "histories"], "every file-system operation of a write history as crash or error point, every pair of old and new checkpoint layouts",
     "tests never interrupt a write nor reuse an output directory",
     ["mergekit/io/tensor_writer.py", "mergekit/io/lazy_tensor_loader.py"],
     [("temporary shard names, rename on finalize, index written last", "mergekit/io/tensor_writer.py TensorWriter.finalize"), ("index preferred over single file", "mergekit/io/lazy_tensor_loader.py ShardedTensorIndex.from_disk")],
     ["output directory after the crash", "LazyTensorLoader.from_disk"])
prop("L01", "Every read of a checkpoint returns the stored tensor, in any order and format",
     "For any checkpoint (safetensors or pickle, one file or sharded, with shared, offset or strided storage, scalars and empty tensors), every sequence of reads, flushes and misses returns for each name or listed alias exactly the stored tensor (shape, type, bits), independent of what was read before. Lazy reading of pickle checkpoints gives the same result as eager reading or refuses the file; a name that is absent is reported as missing, never answered with another tensor.",
     ["histories", "inputs"], "all read sequences up to a length over small checkpoints; all tensor layouts of an alphabet of dtypes, shapes, strides and storage offsets",
     "tests read one pickle with contiguous tensors in one order",
     ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/loader.py", "mergekit/io/lazy_unpickle.py"],
     [("shard cache", "mergekit/io/lazy_tensor_loader.py LazyTensorLoader.get_tensor"), ("deferred partial reads", "mergekit/io/lazy_unpickle.py DeferredLoad.execute, TorchArchiveReader.open_file")],
     ["LazyTensorLoader.get_tensor"])
prop("L02", "Lazy unpickling never runs code a checkpoint asks for",
     "Opening a pickle checkpoint with lazy loading resolves only a fixed list of tensor-rebuilding types; a file that references any other callable or class is rejected with an error before that callable is invoked, wherever in the file and by whichever opcode it is referenced. After any load, successful or not, the process's ordinary unpickling and tensor construction behave as before.",
     ["inputs", "programs"], "all placements of a foreign global (module, name, opcode, nesting) in a checkpoint; success and failure exits",
     "tests load benign files only",
     ["mergekit/io/lazy_unpickle.py", "mergekit/io/loader.py"],
     [("allow-list in the unpickler", "mergekit/io/lazy_unpickle.py LazyTorchUnpickler.find_class"), ("restore of patched functions", "mergekit/io/lazy_unpickle.py torch_lazy_load")],
     ["LazyPickleLoader", "TensorLoader.get"])
prop("L03", "Concurrent tensor loading equals sequential loading",
     "When several worker threads load tensors at the same time, from the same or different models and shards and in any format, every interleaving gives each thread exactly the tensors a sequential run gives it, none fails, and when all are done ordinary unpickling and tensor construction behave as before.",
     ["schedules"], "all interleavings at source-line granularity with a bounded number of preemptions, 2-3 threads",
     "tests load from one thread",
     ["mergekit/io/lazy_tensor_loader.py", "mergekit/io/lazy_unpickle.py", "mergekit/io/tasks.py", "mergekit/io/loader.py"],
     [("loader lock", "mergekit/io/lazy_tensor_loader.py LazyTensorLoader.get_tensor"), ("process-wide patching", "mergekit/io/lazy_unpickle.py torch_lazy_load"), ("loader cache", "mergekit/io/tasks.py LoaderCache")],
     ["LazyTensorLoader.get_tensor", "LoadTensor task"])
prop("C01", "Merge parameters resolve by specificity, filter and gradient as documented",
     "The value of every merge parameter used for a tensor is the first one that applies, looking at the source's own settings (for per-model parameters), then the output slice, then the module, then the global settings, then the method's default; a list of filtered values takes the first entry whose filter is absent, '*' or contained in the tensor's name, and falls through when none matches. A list of numbers is a gradient interpolated linearly from the first to the last layer of the slice (tensors outside the layers get its first value); zero and false are values like any other, and a missing required parameter is an error, never a silent default.",
     ["configurations"], "all combinations of levels at which a parameter is set x setting forms x tensor names x gradient positions",
     "tests use a few flat settings; precedence, fall-through and gradients combine",
     ["mergekit/config.py", "mergekit/plan.py"],
     [("lookup chain", "mergekit/config.py ConfigReader.parameter"), ("filters and gradients", "mergekit/config.py evaluate_setting"), ("gradient position per layer", "mergekit/plan.py MergePlanner.plan_slice")],
     ["parameters a merge method receives for each tensor"])
prop("C02", "Configurations and model references survive being written and read back",
     "Every valid merge configuration, written out as YAML (as it is into each merged model's card and config file), reads back as an equal configuration, and every model reference (path, revision, adapter, architecture override) survives conversion to text and back and serialisation. Malformed references and configurations naming none or several of models, slices and modules, or two tokenizer settings, are rejected.",
     ["inputs", "configurations"], "all small configurations and references over an alphabet of paths and settings",
     "tests round-trip a few literal strings",
     ["mergekit/config.py", "mergekit/common.py", "mergekit/card.py"],
     [("YAML dump", "mergekit/config.py MergeConfiguration.to_yaml"), ("reference parse and serialise", "mergekit/common.py ModelReference")],
     ["MergeConfiguration.to_yaml", "ModelReference.parse", "mergekit_config.yml"])
prop("P01", "Slices assemble the output model from exactly the configured source layers",
     "For every configuration of slices, modules or whole models, output layer k is merged from exactly the source layers the configuration places at position k, from exactly the listed models (plus the base model where it is implied); embeddings come from the first slice's models, final weights from the last slice's, and each output tensor the architecture prescribes appears exactly once. The output configuration states the resulting number of layers; slices of unequal length are rejected, and a required tensor that is missing is an error while an optional one absent everywhere is left out.",
     ["configurations"], "all small slice layouts (ranges, repetitions, source counts), modules, present/absent optional tensors",
     "tests merge whole models and one stacking; off-by-one and mixed layouts are untested",
     ["mergekit/plan.py", "mergekit/merge.py", "mergekit/architecture/base.py", "mergekit/architecture/json_definitions.py"],
     [("layer mapping", "mergekit/plan.py MergePlanner.plan_layer, plan_slice, plan_module"), ("output layer count", "mergekit/merge.py _model_out_config")],
     ["output tensors and config.json of run_merge"])
prop("P02", "Compute and output data types follow the configuration for every tensor",
     "For every combination of stored, working and output data types, tensors are converted to the working type before merging and to the output type when saved, a type the architecture forces for a tensor wins, and without any type setting tensors keep their stored type. The output configuration records the type of the output.",
     ["configurations", "inputs"], "all combinations of stored types, dtype, out_dtype, forced types and value classes",
     "tests use float32 or one dtype",
     ["mergekit/plan.py", "mergekit/io/tasks.py", "mergekit/merge.py", "mergekit/common.py"],
     [("load cast", "mergekit/io/tasks.py LoadTensor.execute"), ("save cast", "mergekit/io/tasks.py SaveTensor.execute"), ("config dtype", "mergekit/merge.py _model_out_config")],
     ["output tensors and config.json of run_merge"])
prop("M01", "Averaging and interpolation methods compute their documented formula",
     "For all input tensors and parameters, linear, slerp, nuslerp, multislerp, karcher, passthrough, nearswap, model_stock and arcee_fusion produce the value their documentation defines (weighted means, spherical interpolation with its linear fallback, task-vector variants around a base, and so on). Endpoints and identities hold: full weight on one model returns that model, merging equal models returns that model, results are finite for finite inputs, and the result has the shape of the inputs.",
     ["inputs", "configurations"], "all tensors over a small value alphabet and shapes (including zero, colinear, opposite and identical inputs) x all parameter classes",
     "tests check that merges run, hardly any values",
     ["mergekit/merge_methods/linear.py", "mergekit/merge_methods/slerp.py", "mergekit/merge_methods/nuslerp.py", "mergekit/merge_methods/multislerp.py", "mergekit/merge_methods/karcher.py", "mergekit/merge_methods/passthrough.py", "mergekit/merge_methods/nearswap.py", "mergekit/merge_methods/model_stock.py", "mergekit/merge_methods/arcee_fusion.py"],
     [("merge method implementations", "mergekit/merge_methods/*.py execute functions")],
     ["result of a merge method on given tensors"])
prop("M02", "Task-vector methods compute base plus the documented combination of deltas",
     "For all tensors and parameters, task_arithmetic, ties, dare, della, breadcrumbs, sce and ram variants produce the base plus the scaled combination of the (sparsified, sign-elected, weighted, optionally normalised) differences their documentation defines, given the random choices made. Models equal to the base contribute nothing, a scale of zero returns the base, the merge of one full-density model with weight one returns that model, and the order in which models are listed does not matter beyond rounding.",
     ["inputs", "configurations"], "all tensors over a small value alphabet x methods x weights, densities, lambda, normalisation, sign-election options",
     "tests check that merges run, hardly any values",
     ["mergekit/merge_methods/generalized_task_arithmetic.py", "mergekit/merge_methods/sce.py", "mergekit/merge_methods/ram.py", "mergekit/sparsify.py"],
     [("task vectors, masks, combination", "mergekit/merge_methods/generalized_task_arithmetic.py GTATask.execute"), ("variants", "mergekit/merge_methods/sce.py, ram.py")],
     ["result of a merge method on given tensors"])
prop("M03", "Sparsification keeps the requested share of the right entries, rescaled",
     "For every tensor and density, sparsifying returns a tensor of the same shape whose kept entries are the original entries times one common rescaling factor and whose other entries are zero. Magnitude pruning keeps the requested number of largest magnitudes, outlier pruning drops the requested number of largest and then smallest ones, random pruning keeps each entry with the requested probability (rank-dependent within each row for the magnitude-aware variant) and rescales to preserve the documented norm; density one changes nothing.",
     ["inputs", "configurations"], "all tensors over a small magnitude alphabet and shapes x densities x methods x rescale modes x all random masks of small tensors",
     "tests use a few random tensors and densities",
     ["mergekit/sparsify.py"],
     [("pruning functions", "mergekit/sparsify.py magnitude, bernoulli, della_magprune, magnitude_outliers"), ("norm-preserving rescale", "mergekit/sparsify.py rescaled_masked_tensor")],
     ["mergekit.sparsify.sparsify"])
prop("M04", "The merged weights depend only on the configuration and the input weights",
     "Running the same merge again, in another process, with another hash seed, with any sharding, threading, background-writing, lazy-loading, cloning or memory option, or again after input models were changed and restored, yields the same tensors, configuration and tokenizer choice; with a fixed random seed this includes the randomised methods (on one device). Merging into memory instead of to disk, or on several devices, gives the same tensors for methods that draw no random numbers. A merge never modifies its input tensors or the models on disk.",
     ["configurations", "schedules", "histories"], "all hash orders of 2-3 models, all option combinations, in-memory vs on-disk, repeated runs",
     "tests run each configuration once under one hash seed and one option set",
     ["mergekit/merge.py", "mergekit/config.py", "mergekit/plan.py", "mergekit/merge_methods/easy_define.py", "mergekit/tokenizer/embed.py", "mergekit/options.py"],
     [("referenced model order", "mergekit/config.py MergeConfiguration.referenced_models"), ("seeding", "mergekit/merge.py run_merge"), ("tensor lists passed to methods", "mergekit/merge_methods/easy_define.py")],
     ["output directory of run_merge"])
prop("T01", "Tokenizer merging keeps every token's embedding attached to that token",
     "With any tokenizer setting (base, one of the models, union), every token of the output vocabulary has in the merged embedding matrices the merge of the embeddings the source models have for that same token, at the index the output tokenizer gives it. Tokens a model lacks get the documented substitute (configured source, zero, the model's own token by id, or the mean of the models that have it), configured sources and forced ones are honoured, the union contains every source token once without renumbering the base's, and rows added by padding belong to no token.",
     ["configurations", "inputs"], "all small vocabularies (overlaps, permutations, added tokens, oversized or undersized matrices) x tokenizer settings x token overrides x padding",
     "tests cover a few vocabularies of one shape",
     ["mergekit/tokenizer/build.py", "mergekit/tokenizer/embed.py", "mergekit/tokenizer/config.py"],
     [("vocabulary and permutations", "mergekit/tokenizer/build.py build_tokenizer, build_union_tokenizer"), ("row assignment and defaults", "mergekit/tokenizer/embed.py PermutedEmbeddings")],
     ["embedding rows of the merged model against its tokenizer"])
prop("T02", "The output directory is a consistent, loadable model",
     "After every successful merge the output directory holds a configuration, tokenizer and weights that agree: the vocabulary size in the configuration equals the embedding rows (including requested padding), the tokenizer is the configured one (built, or copied from the base or first model if that has one), the requested chat template is the one saved, the model card and recorded configuration describe the merge that was run, and the weights load into the architecture without missing or unexpected tensors.",
     ["configurations"], "every architecture with model code, tied and untied, models of different vocabularies x tokenizer settings; all selections of layers by up to two or three slices x layer types; pairs of models that differ in vocabulary, rows and tying x methods x padding; chat template choices, card and copy options, donors with and without tokenizer files",
     "tests check parts of it for a few option sets",
     ["mergekit/merge.py", "mergekit/card.py", "mergekit/_data/chat_templates"],
     [("config, tokenizer and file copying", "mergekit/merge.py run_merge, _copy_tokenizer, _set_chat_template, _update_config_vocab"), ("card", "mergekit/card.py generate_card")],
     ["output directory of run_merge"])
prop("S01", "Multi-stage merges run each stage after its inputs and resume correctly",
     "For every set of named stages and any order in the file, each stage runs exactly once, after the stages it refers to and on their output, and every other setting reaches the stage unchanged; cyclic, duplicate or unusable stage sets are rejected before anything runs. Interrupting the run at any point and starting it again ends with the same results as an uninterrupted run: finished stages are reused and unfinished ones are redone.",
     ["configurations", "crash_points", "histories"], "all reference graphs on up to three or four stages, all reference positions, all interruption points between and inside stages",
     "there is no test of the multi-stage tool",
     ["mergekit/scripts/multimerge.py"],
     [("stage graph and ordering", "mergekit/scripts/multimerge.py main"), ("reference rewriting", "mergekit/scripts/multimerge.py patched_config"), ("skip of finished stages", "mergekit/scripts/multimerge.py main")],
     ["outputs of mergekit-multi"])
prop("S02", "Raw checkpoint merging merges each named tensor as configured",
     "Merging raw checkpoint files merges every tensor name the models share (or, if asked, that any has) with the configured method and parameters, resolved as in ordinary merges, and writes exactly those tensors; the result does not depend on file format or sharding, and repeats exactly under a fixed seed. Models whose tensors do not match are rejected unless the union or intersection was requested.",
     ["configurations", "inputs"], "all small sets of tensor names per model x union/intersection modes x formats x parameter settings",
     "there is no test of raw checkpoint merging",
     ["mergekit/scripts/merge_raw_pytorch.py"],
     [("tensor name set", "mergekit/scripts/merge_raw_pytorch.py plan_flat_merge"), ("parameters", "mergekit/scripts/merge_raw_pytorch.py construct_param_dicts")],
     ["output of mergekit-pytorch"])
prop("S03", "Mixture-of-experts assembly places every expert and gate correctly",
     "For every list of experts and supported output architecture, expert i of layer l in the output has exactly the feed-forward weights of the i-th configured model's layer l (scaled where configured), all other weights are the base model's, gate row i belongs to expert i in every layer, and the written configuration and tensor set are exactly what the output architecture needs to load. Unsupported configurations are rejected before anything is written.",
     ["configurations"], "all expert lists up to three experts over distinct models, layer counts, dtypes, shared-expert settings, output architectures, cheap gate modes",
     "there is no test of mixture-of-experts assembly",
     ["mergekit/moe/mixtral.py", "mergekit/moe/qwen.py", "mergekit/moe/deepseek.py", "mergekit/moe/qwen3.py", "mergekit/moe/common.py", "mergekit/moe/router.py", "mergekit/scripts/moe.py"],
     [("expert weight copy", "mergekit/moe/*.py write_model"), ("gate vectors", "mergekit/moe/router.py get_gate_params")],
     ["output directory of mergekit-moe"])
prop("S04", "Tokenizer transplantation keeps shared tokens exact and fills the rest",
     "For every pair of vocabularies, the transplanted model has one embedding and output row per token of the donor vocabulary at the donor's index; a token both models know keeps exactly the base model's row, every other row is what the chosen approximation method documents, all non-embedding weights are the base model's unchanged, and the configuration and tokenizer match the new matrices.",
     ["configurations", "inputs"], "all small vocabulary pairs (overlap, permutation, size) x approximation methods x tied/untied output weights x match options",
     "there is no test of tokenizer transplantation",
     ["mergekit/scripts/tokensurgeon.py", "mergekit/tokensurgeon"],
     [("row assembly", "mergekit/scripts/tokensurgeon.py build_embedding_matrix"), ("approximation methods", "mergekit/tokensurgeon/*.py")],
     ["output directory of mergekit-tokensurgeon"])
prop("S05", "Extracted adapters reproduce the fine-tune as well as their rank allows",
     "For every base and fine-tuned model pair, applying the extracted adapter to the base reproduces each adapted weight exactly when the difference has at most the requested rank and otherwise as the best approximation of that rank; modules saved in full equal the fine-tuned ones, excluded modules are untouched, and the adapter configuration lists exactly the adapted modules with rank and scaling under which a standard loader obtains that result.",
     ["configurations", "inputs"], "all combinations of module kinds, difference ranks, requested ranks, alpha, sign and dimension patterns on tiny models",
     "there is no test of adapter extraction",
     ["mergekit/scripts/extract_lora.py"],
     [("decomposition", "mergekit/scripts/extract_lora.py TaskVectorDecompositionTask"), ("module selection and config", "mergekit/scripts/extract_lora.py plan_extraction, make_config")],
     ["output directory of mergekit-extract-lora"])
prop("S06", "Adapters named in a merge are applied to the right model, also after a crash",
     "A model reference with an adapter contributes to a merge exactly the base weights plus the adapter's update, in the requested precision; different model, revision, adapter or precision combinations never share cached results, repeated use gives the same weights, and an adapter merge interrupted at any point is redone, never taken for finished.",
     ["crash_points", "histories", "configurations"], "all sequences of two uses over a small set of references and precisions; every file-system operation of the cached merge as crash point",
     "tests never merge adapters",
     ["mergekit/common.py", "mergekit/io/tasks.py"],
     [("adapter merge cache", "mergekit/common.py ModelReference.merged"), ("loader cache", "mergekit/io/tasks.py LoaderCache.get")],
     ["ModelReference.merged", "tensors a merge reads for model+adapter"])
prop("S07", "Small command-line tools carry out exactly the merge their arguments describe",
     "mergekit-legacy, mergekit-layershuffle, bakllama and fill_missing_params produce exactly the model their arguments describe. mergekit-legacy: each weight and density (one for all, or one per model in the order given, the base model last if it is not among them; weights default to 1) reaches its own model, and the result equals that of the equivalent configuration, which is the one it prints. mergekit-layershuffle: every output layer is the layer of that number of one of the models, chosen with the given weights (with --full-random: the given share of each model's layers, each of its layers equally likely, in any order); the printed and written configuration is the one merged, and a dry run merges nothing. bakllama: the listed layers in order, only the down projections scaled, embeddings and output head from the named sources. fill_missing_params: parameters the submodel has (below at most one common prefix) come from it, everything else from the base model, and neither input changes.",
     ["configurations", "inputs"], "all combinations of up to four values of every argument over models of 1-3 layers; every possible result of every random draw, with its probability",
     "tests do not run these tools at all",
     ["mergekit/scripts/legacy.py", "mergekit/scripts/layershuffle.py", "mergekit/scripts/bakllama.py", "mergekit/scripts/fill_missing_params.py"],
     [("legacy arguments", "mergekit/scripts/legacy.py main"), ("layer shuffle", "mergekit/scripts/layershuffle.py main"), ("layer lists", "mergekit/scripts/bakllama.py main"), ("filling in parameters", "mergekit/scripts/fill_missing_params.py copy_and_fill_missing_params")],
     ["tensors and files of the output directory", "printed and written configurations"])
prop("V01", "Evolutionary search: a genotype stands for exactly one merge",
     "The merge that mergekit-evolve evaluates for a genotype is the one its genes describe: every gene becomes the parameter of its own model, layer group, filter and parameter kind for exactly the tensors it governs (interpolated across layers when asked to be smooth), with signs, clamping, normalisation, base model and tokenizer source as the definition says; for slerp the two models with the highest genes are interpolated accordingly. Initial genotypes are valid and neutral, every valid definition yields a configuration that can be merged, and definitions or genotypes of the wrong form are refused, as are common benchmark tasks unless allowed.",
     ["configurations", "inputs"], "methods x models and base x layer granularity x filters x signs x smooth x normalise x gene patterns; every tuple of a few gene values for slerp",
     "tests do not touch the evolutionary search",
     ["mergekit/evo/genome.py", "mergekit/evo/config.py"],
     [("genome to configuration", "mergekit/evo/genome.py ModelGenome.genotype_merge_config"), ("task check", "mergekit/evo/config.py check_for_naughty_config")],
     ["parameters of every tensor under the generated configuration", "merged tensors"])
prop("V02", "Evolutionary search: each genotype gets its own merge's score, failures surface",
     "With every scheduling strategy, any number of GPUs and any order in which merges and evaluations complete, the scores come back in the order of the genotypes, each the weighted score of that genotype's own merge, which is merged and evaluated exactly once with the requested options; merged models are removed from disk and never exceed what the GPUs need. A merge or evaluation that fails ends the search with its error, it never hangs. In-memory evaluation, also after any earlier genotypes, uses exactly the model that merging to disk would give. The configuration and final model that mergekit-evolve saves, also when interrupted, are those of the best genotype so far, and input models whose conversion was interrupted are converted again, never used half-written.",
     ["schedules", "fault_sequences", "crash_points", "histories"], "every completion order of up to 4 genotypes in up to 3 generations on 1-3 GPUs with each merge or evaluation failing; genotype sequences up to 3 in memory; every interruption point; every file-system operation of the conversion",
     "needs ray and lm_eval, which tests do not have; schedules cannot be chosen in a test",
     ["mergekit/evo/strategy.py", "mergekit/evo/actors.py", "mergekit/evo/helpers.py", "mergekit/scripts/evolve.py"],
     [("strategies", "mergekit/evo/strategy.py"), ("in-memory evaluation", "mergekit/evo/actors.py InMemoryMergeEvaluator"), ("search", "mergekit/scripts/evolve.py main"), ("conversion of input models", "mergekit/scripts/evolve.py _reshard_model")],
     ["results of evaluate_genotypes", "weights of the evaluated model", "best_config.yaml, final_model, input_models"])
prop("A01", "Architecture definitions name every tensor once and convert losslessly",
     "For every supported architecture and configuration the list of tensors it prescribes is duplicate-free, per-layer names differ between layers only in the layer number, and matches the tensors a model of that configuration actually has; name aliases and checkpoint-layout conversions give for every requested tensor exactly the stored values it stands for, or report it as absent when its sources are incomplete. Two different tensors are never confused.",
     ["configurations", "inputs"], "all shipped architecture definitions x small layer counts; all subsets of source tensors of each conversion",
     "tests check two conversions and a few definitions",
     ["mergekit/architecture/base.py", "mergekit/architecture/json_definitions.py", "mergekit/architecture/conversion.py", "mergekit/architecture/auto.py", "mergekit/_data/architectures"],
     [("templates", "mergekit/architecture/json_definitions.py"), ("conversion", "mergekit/architecture/conversion.py convert_checkpoint_tensors"), ("inference for unknown architectures", "mergekit/architecture/auto.py")],
     ["weights listed for a model", "LoadTensor results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
