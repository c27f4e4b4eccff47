HEAD = '''
# Bounded model checking of arcee-ai/mergekit

(Generated by tools/write_design.py from tools/design_texts.py, the checks' own bounds and assumptions,
KNOWN_FINDINGS.txt and seeded/.)

Every property is decided by exhaustive enumeration of a bounded space of executions of the *real code* in
/repo, imported from its working tree. There is no separate abstract model that could drift from the code:
the state spaces explored are inputs, operation histories, thread schedules, crash points and random outcomes
of the implementation itself, and the oracle of each is a small reference model (written from the
documentation, mostly in plain Python over nested lists or float64 arithmetic) or an invariant that is
evaluated on every execution. "Model traces validated against the implementation" are therefore all of them:
each enumerated case is executed on the code.

## Machinery

- `check.sh ID [--thorough] [--replay FILE] [--family NAME] [--count] [--max-viol N]` runs one check. It needs no
  build: it imports /repo through the editable installation. `core.REPO` is asserted to be the tree that is imported.
- `mc/core.py`: a property is a list of families; a family is a generator of cases (JSON values) and a function
  that executes one case and raises `Violation`, or returns an observation. Cases are dealt to 8 forked workers,
  each with a watchdog per case (a case that does not end is a violation for the schedule explorers, an error
  otherwise). Any unexpected exception of the code under test is a violation: "it crashed" is behaviour.
  `HarnessError` is kept apart and ends the check with exit 2. Replay files hold the case; `--replay` runs exactly it.
  Evidence counts cases, distinct observations ("outcomes"), states, transitions and executions per family; a
  family that yields no cases or a single outcome where more are expected is an error of the harness, so that a
  check cannot become vacuous unnoticed.
- `mc/sched.py`: controlled scheduler for real Python threads. Locks, conditions, events, queues, thread starts and
  joins, thread pools and timeouts of `threading`, `queue` and `concurrent.futures` are scheduling points; on request
  every source line of given files is one too. Exactly one thread runs at a time; time is virtual; a
  depth-first explorer enumerates all schedules with at most k preemptions (or delays) and reports deadlocks,
  lost wake-ups and threads left behind. Schedules are replayable lists of choices.
- `mc/crash.py`, `native/fsshim.c`: an LD_PRELOAD shim counts the file-system operations (open for writing, write,
  rename, unlink, mkdir, truncate, ...) a forked child performs below a scratch directory and, at operation n, kills
  the process, tears the write at a given length, fails the operation once or for good, or pauses. The explorer runs
  one child per point. The shim is built on first use into .build/ (ignored by git).
- `mc/fakegpu.py`: simulated accelerators at PyTorch's own seams, so that the multi-device executor runs here.
- `mc/tiny.py`, `mc/ckpt.py`, `mc/toks.py`, `mc/hfmodels.py`, `mc/archdefs.py`: tiny models with identifying values,
  checkpoint files, tokenizers, one configuration per architecture, independent expansion of the definitions.
- `mc/methods.py`, `mc/chance.py`: reference formulas, and enumeration of the outcomes of every random draw
  (torch's generators are replaced by an oracle that is driven through all outcomes depth-first).

No hooks were needed in /repo: everything attaches at standard seams (threading, file system calls, torch random
functions). All commits of ours in /repo are `fix:` commits.

What counts as behaviour: results are compared as tensors, configurations, vocabularies, files on disk and errors,
never as source text, call order or log output, so refactorings stay quiet. Where the documentation leaves a choice
(ties between equal magnitudes, which of two equally frequent templates), any choice is accepted; the lists of
assumptions below say where.
'''

HOW = {
    "E01": "All labelled acyclic graphs up to five tasks are built from synthetic tasks and run by `graph.Executor`. Oracle: set of needed tasks, values of a recursive evaluator, first/last use of each value derived from the run's trace; liveness of values is observed with weak references.",
    "E02": "`MultiGPUExecutor` runs on simulated devices with every thread under the controlled scheduler. Oracle: values of the serial executor, execution counts, thread identities, no thread left, termination. A deadlock, a lost result or an early 'done' shows up as a schedule.",
    "W01": "The real `TensorWriter` is driven through all histories; the directory is then read with safetensors/torch alone and compared bit by bit; naming, index and shard limits are recomputed. Saver and background threads are additionally explored under the controlled scheduler.",
    "W02": "A child process writes a checkpoint and dies, tears a write or gets an I/O error at every file-system operation; afterwards a reader either refuses the directory or sees the complete checkpoint; then a clean retry must give exactly the new one.",
    "L01": "Checkpoints are assembled by hand (every storage layout, view, container and alias) and read by `LazyTensorLoader`/`TensorLoader` in every order. Oracle: the tensors they were built from; for pickle, `torch.load` of the same file.",
    "L02": "Pickle streams are assembled opcode by opcode; dangerous callables are stand-ins that record a call. Oracle: nothing recorded, an error raised, process-wide pickle and tensor state unchanged afterwards.",
    "L03": "Threads load tensors through the real loaders, every source line of the loading modules being a scheduling point. Oracle: the sequential result of each read; state of the process afterwards.",
    "C01": "A recording merge method is registered; merges are planned through `MergePlanner` for every placement of settings. Oracle: a 60-line resolution model written from docs/merge configuration text.",
    "C02": "Every configuration is serialised as the tool does, parsed as the tool does and compared; references likewise. All short strings over a delimiter-rich alphabet are parsed as references.",
    "P01": "Each tensor of each model holds distinct integers, and the merge is an exact weighted sum with distinct weights, so the output value identifies the set of (model, layer, name) it came from. Whole `run_merge` to disk.",
    "P02": "Values are chosen so that each conversion between types leaves a trace in the bits; the expected chain of conversions is computed for every tensor.",
    "M01": "Grids of vectors containing every special position (zero, equal, parallel, opposed, orthogonal, nearly so) x parameters. Oracle: formulas in float64 from the papers/documentation, plus endpoint and identity laws.",
    "M02": "One tensor holds every combination of base value and differences (one per entry), so one call checks all of them; sparsified methods enumerate every outcome of every draw. Oracle: entrywise reference.",
    "M03": "Every tensor of a grid x every density; random variants run once for each outcome of each draw, and the keep probabilities handed to the generator are themselves checked.",
    "M04": "The reference of each merge is its run alone in a fresh process with default options. Everything that must not matter is then enumerated: options, flags, hash seeds and set orders, merges before it, files rewritten and restored, devices, in-memory. Layers used several times in one merge are compared with each use alone, which shows methods that change their inputs.",
    "T01": "Rows of all embedding matrices are distinct and identify (model, token). For every pair (triple) of vocabularies and every setting, the row of each output token is predicted at token level (which token, which models, which substitute) and the output vocabulary is checked (no renumbering, no duplicates).",
    "T02": "After the merge the directory is opened by transformers: the configuration, the tokenizer, the template and the loaded model must agree; loading may report no missing, unexpected or resized tensors; the recorded configuration is run again and must give the same model.",
    "A01": "For each definition and configuration switch, transformers builds the model (meta device where large) and its parameter and buffer names are compared with the prescribed list; aliases and conversions are explored over all presence patterns of their sources.",
    "S01": "Stage files are parsed and scheduled by the real tool; in most families the merge of one stage is a recording stand-in that writes what a merge writes; every file-system operation is a crash point, followed by resumption with and without --lazy.",
    "S02": "`mergekit-pytorch` (merge_raw_pytorch) is run on files of every format; oracle: the set of names and the method called directly on each tensor tuple.",
    "S03": "`mergekit-moe` is run on tiny models whose tensors are all distinct, for every list of experts; each output tensor is predicted; three equal experts must compute what the dense model computes (loaded by transformers); hidden-state gates are compared with each prompt computed alone.",
    "S04": "`mergekit-tokensurgeon` on every pair of small vocabularies: shared rows bit-exact at the donor's index, other rows against the documented formula of each method in float64, all other tensors unchanged, output loadable.",
    "S05": "`mergekit-extract-lora` on differences of known rank with separated singular values; the adapter is loaded by peft and the effective weights compared with the best approximation (by SVD in float64).",
    "S06": "A merge naming `base+adapter` is compared with the update computed by hand from the adapter's matrices; the cache of merged adapters is driven through all short histories, crashed at every operation, and shared by two processes paused at all pairs of points.",
    "S07": "The commands run in process on tiny models whose layers are all distinct. Draws from `random` are answered by an explorer that walks the whole tree of results with their probabilities, so that the distribution of outputs is exact, not sampled. Results are compared with stacks computed by hand (bakllama, layershuffle, fill_missing_params) or with the merge of a hand-written configuration (mergekit-legacy).",
    "V01": "For every search definition and gene pattern the generated configuration is planned with the merge methods replaced by recorders; for every tensor the parameters, sources and base model handed over are compared with what the genes say, computed from the documentation. Some are merged for real and compared with hand-written configurations.",
    "V02": "The strategies run on a simulated ray (mc/fakeray.py: remote calls, actors, object references, event loops in one process) in which the explorer chooses what completes next; all orders are explored, with failures of each merge or evaluation. In-memory evaluation runs for real on tiny models of every causal architecture: all weights, buffers and logits must equal those of the merge written to disk and loaded. The command itself runs with a scripted optimiser; the conversion of input models is crashed at every operation.",
}

MORE = {
    "C01": ["settings of a module that lists slices and of a module that lists models are both explored; parameters of the top-level models form move to the source level"],
    "P01": ["a modules configuration that omits one of the architecture's modules is not explored", "per-layer configuration properties other than layer types are not rewritten when layers are rearranged (T02 explores layer types)", "T5: the relative position bias of the first block is taken to be an optional tensor of that block"],
    "M02": ["sce: the number of entries kept is that of the selection share of variances, as the code and the paper have it"],
    "M01": ["model_stock: identical models (zero differences) give the base model"],
    "M03": ["rounding: density times size is cut off to an integer, as before"],
    "M04": ["num_threads is not varied (it changes rounding of matrix products)"],
    "T01": ["an override that names no source is refused by the configuration; not explored"],
    "T02": ["slices whose sources are all tied models share the first slice's embeddings as output head"],
    "S01": ["a merge killed between two system calls leaves what those calls wrote; power loss is not modelled"],
    "S04": ["byte-level text of non-ASCII subwords is not explored", "new tokens get a zero output bias"],
    "S05": ["mamba's out_proj is refused by peft and therefore excluded"],
    "S07": ["which of two equally matching parts of the base model is filled is only required to follow a rule", "more weights than models, and shares that leave no layer, may be refused"],
    "V02": ["vLLM is not simulated: its part of in-memory evaluation is not covered; tokenizer_source with in-memory evaluation is not either (the evaluation would use the tokenizer of the first model)",
            "architectures stored in another layout than they have in memory (Afmoe) are refused by in-memory evaluation with an error, which is accepted"],
}

AFTER = '''
## Coverage of the repository

- `mergekit/graph.py`, `multigpu_executor.py`: E01, E02 (and M04 end to end).
- `mergekit/io/*`: W01, W02, L01, L02, L03.
- `mergekit/config.py`, `common.py`, `plan.py`, `merge.py`, `card.py`, `options.py`: C01, C02, P01, P02, M04, T02.
- `mergekit/merge_methods/*`, `sparsify.py`: M01, M02, M03 (and M04's `shared`).
- `mergekit/architecture/*`, `_data/architectures/*`, `_data/templates`: A01, T02, S05, S04.
- `mergekit/tokenizer/*`, `tokenizer` settings: T01, T02.
- `mergekit/scripts/multimerge.py` S01, `merge_raw_pytorch.py` S02, `moe.py` and `mergekit/moe/*` S03, `tokensurgeon.py` and
  `mergekit/tokenizer/{embed,...}`, `mergekit/tokensurgeon/*` S04, `extract_lora.py` S05, `run_yaml.py` M04/T02,
  `legacy.py`, `layershuffle.py`, `bakllama.py`, `fill_missing_params.py` S07.
- `mergekit/evo/*`, `evolve.py`: V01, V02 (ray, lm_eval and cma simulated; vLLM and wandb logging not covered).

## What was considered and left out

- Sampling (hypothesis, atheris), proof and symbolic execution: other families; nothing here relies on them.
- A TLA+/Promela model of the executor or writer: direct exploration of the real code under the controlled scheduler
  was chosen instead, since it cannot drift from the code and refactorings need no change of a model.
- Power loss (lost or reordered system calls after a crash): mergekit never syncs, and no user-visible promise exists.
- GPU arithmetic and real device asynchrony: no device here.
'''

DEFECTS = '''
Every violation reported on the unchanged tree was traced to the code first. Those below were defects that can be
shown with an input or history (each is kept by the check that found it, as one of its enumerated cases). False alarms
met on the way were corrected in the machinery or by making the property precise; the places where the property was
made precise are the assumptions above (for example: ties between equal magnitudes may be broken either way; a pickle
layout outside the lazy reader's vocabulary may be refused; a float32 result is compared with a tolerance that covers its own rounding).
'''

WHYNOT = '''
Why these are not repaired: the first needs tensors and parameters keyed by position instead of by model throughout the
planner and every method; for integer tensors under floating-point methods it is a question of design what the result
should be; the architecture findings need an extension of the definitions' format; vocabulary-sized biases need the
embedding machinery extended to vectors; and passing slices through from models with different numbers of rows has no
result that fits both.
'''

PLANTED = '''
Each was written from the property and the code alone, keeps the 88 tests passing, and has a demonstration. `tools/plant.py`
creates and confirms them, `tools/plant.py --check ID` applies one, runs its property's check and undoes it. Bugs that the
checks missed when planted, and what was changed: `p01-base-once` (P01 had no several-module configuration in which a base
model is implied: family `modulebase`), `m04-inplace-single` (no configuration used the same loaded tensors twice with
multislerp around a base: family `shared`).
'''

COST = {}
