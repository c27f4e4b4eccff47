NA = {}
_N = "exhaustive within the stated bounds; nothing sampled"
TECH = {k: (v, "model_checking", n) for k, (v, n) in {
    "E01": ("explicit enumeration of all small task graphs, run on the real executor, against a reference model", "complete within the graph-size and label bounds"),
    "E02": ("stateless model checking of the real parallel executor under a controlled thread scheduler (preemption- and delay-bounded)", "all schedules within the stated deviation bounds"),
    "W01": ("enumeration of all save histories up to a length on the real writer, and stateless exploration of its thread schedules", _N),
    "W02": ("explicit crash-point, torn-write and fault enumeration at every file-system operation of the real writer", "process death, not power loss"),
    "L01": ("enumeration of all storage layouts and read histories up to a length on the real loaders, against directly built tensors", _N),
    "L02": ("enumeration of hostile pickle programs (place x opcode x global) and load histories with recording stand-ins", _N),
    "L03": ("stateless model checking of concurrent loads under a controlled scheduler at source-line granularity", "all schedules within the deviation bound"),
    "C01": ("enumeration of all placements of parameter settings through the real planner, against a resolution model", _N),
    "C02": ("enumeration of all short reference texts and of configurations over every optional field, round-tripped through the real parser", _N),
    "P01": ("enumeration of slice, module and model layouts, merged end to end on identifying tensors, against a placement model", _N),
    "P02": ("enumeration of stored x working x output types x methods, merged end to end, against a conversion model", _N),
    "M01": ("enumeration of all small tensor tuples and parameters through the real methods, against independent float64 references", "element values from finite grids"),
    "M02": ("enumeration of all combinations of differences, parameters and random outcomes through the real methods, against entrywise references", "element values from finite grids; random draws enumerated"),
    "M03": ("enumeration of small tensors x densities x every outcome of every random draw through the real sparsifiers", "random draws enumerated"),
    "M04": ("enumeration of option settings, hash orders, merge histories and input rewrites, each run compared with the isolated run", _N),
    "T01": ("enumeration of vocabularies x tokenizer settings x overrides, merged end to end, against a token-level model", _N),
    "T02": ("enumeration of architectures x layouts x tokenizer and template settings, merged and loaded back", _N),
    "A01": ("enumeration of every definition x configuration switch against real models and an independent expansion; all presence patterns of sources", _N),
    "S01": ("enumeration of all small stage graphs and file orders; crash-point enumeration with resumption", "process death, not power loss"),
    "S02": ("enumeration of tensor-set and parameter combinations through the real command, against a per-tensor model", _N),
    "S03": ("enumeration of expert lists, gate prompts and switches through the real assembly, against a placement model and loaded models' outputs", _N),
    "S04": ("enumeration of vocabulary pairs and options through the real tool, against a row-level model", _N),
    "S05": ("enumeration of rank patterns, selections and architectures through the real tool, applied back by peft", _N),
    "S06": ("enumeration of adapter kinds and cache histories; crash-point enumeration and two-process pause-point exploration", "process death, not power loss"),
    "S07": ("enumeration of argument combinations through the real tools; every result of every random draw explored with its probability", _N),
    "V01": ("exhaustive enumeration of search definitions and gene patterns, planned merges compared tensor by tensor with the parameters the genes describe", "models of 4 layers, at most 3 of them"),
    "V02": ("exhaustive exploration of completion orders and failures of the evaluation strategies under a simulated ray; genotype histories in memory against merges on disk; crash-point enumeration", "ray, lm_eval and cma are simulated; remote calls run atomically"),
}.items()}
