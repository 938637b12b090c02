HEAD = open(__file__.replace("design_text.py", "design_head.md")).read()
# id -> (state and transitions specified, how bound to the code and against which oracle, bounds)
P = {
"C01": ("Threads stage tensors, flush under a lock, account for the size, publish entries; the closing thread flushes, moves the data section, writes the header. One action per critical section. Invariants: flushed ranges are disjoint and gapless, published entries point at their bytes, the finished file is what `FinalFile` says.",
        "Simulated schedules are replayed into `OutSafetensorsDict` under a controlled scheduler (lock, line and opcode granularity); an independent parser reads the finished files; `StreamOutJudge` gives a verdict per recorded trace. Layout sweep over dtypes, views, empty and scalar tensors, wrong announcements.",
        "Model: 2-3 threads, 3-4 tensors exhaustively. Code: hundreds of schedules, up to 4 threads and 8 tensors."),
"C02": ("One window per file shared under a lock; a read hits it or refills it, with short transfers. Invariant: every tensor handed out consists of the bytes of its own range, also after later refills.",
        "Simulated layouts, histories and schedules drive `InSafetensorsDict`; every read is compared with the independent parse.",
        "Model: 3 tensors, 2 threads. Code: up to 8 tensors, all dtypes, buffer sizes from 0 to bigger than the file."),
"C03": ("StreamIn with truncation, and Faults: two streamed inputs and a streamed output over an operating system that truncates, transfers short, and fails writes. Invariant: a merge ends with the right file or with an error.",
        "A stand-in below the real reader/writer (raw file calls) truncates, shortens and fails at the points the behaviours say; outcome and file are compared.",
        "Every truncation point in units of 8 bytes, all fault placements of small merges."),
"C04": ("RecipeDag builds programs node by node (shared nodes, literals, dictionaries of recipes, methods with variadic, keyword and per-key parameters, lazy state dict parameters) and defines the value of each key.",
        "Every program is merged by the real code in several modes (threads 0/1/n, small buffers, in memory/files in/out, nodes shared or repeated) and compared exactly.",
        "Up to 9 nodes over 4 inputs and 4 keys."),
"C05": ("RecipeDag with missing keys: which keys a method needs, which fallbacks apply.", "As C04; key sets are compared in addition; one-node programs exhaustively.", "All presence patterns for one node over two inputs and two keys; simulated programs up to 7 nodes."),
"C06": ("Task pool with submission order, cancellation, joining, closing; outcomes of operands ok/missing/error, faults of methods, outputs and progress. Safety: one store per key, the error reported is one that happened, nothing stored after close; liveness: the merge ends.",
        "Behaviours are forced onto merge() through gates in user methods and the output mapping; recorded events are judged by MergeEngineJudge, verdict per clause.", "Model: 3 keys, 2-3 workers; code: up to 8 keys, 4 workers."),
"C07": ("Acquire/release steps of merges, conversions and input contexts with a fault at any step; histories over one recipe. Invariants: everything acquired is released in reverse order; liveness: operations end.",
        "Each fault is provoked in the real code (bad files, failing methods, outputs, progress bars, executors, formats); open descriptors, threads, recipe and next result compared after each operation.", "One fault per operation; up to 6 inputs and 4 faulty operations."),
"C08": ("Sessions of operations over shared inputs while files and registrations change; each operation's result depends only on the operation and the state then.",
        "Every history runs in a forked process; each step is compared with the same step in a process that did nothing before; everything callers keep is snapshotted.", "Histories of up to 14 steps."),
"C09": ("Which buffer each node's value is, who owns it, and who may write: InputsKept, and results equal to those over private copies. (With Writes=\"operands\" TLC reports InputsKept violated: the invariant has teeth.)",
        "Generated recipes of all built-in methods over inputs that share tensors, views and files; bit-exact comparison before/after; outputs aimed at input files.", "Recipes up to 4 methods, 3 inputs, 8 shapes, tiny/zero/large values."),
"C10": ("MergeEngine's retention variables (which results are alive) and Budget (windows and staging): live results bounded by workers, bytes by the requested size plus the largest tensor per stage.",
        "merge() runs on the scenarios while weak references, transferred ranges and traced allocations are measured.", "Up to 4 files, 4 workers, shared and nested occurrences of inputs."),
"C11": ("The dtype and device of a tensor at each step: input, forwarding methods, casts, dictionaries of recipes, hyperparameters, output.",
        "A recording method sees what arrives, with all bits; stored dtypes, devices and rounded values are compared.", "Devices cpu and meta; all floating dtypes and integers."),
"C12": ("Extra keys, EMA, mandatory keys, strict space, non-finite values, aliases: what is stored, copied, dropped, rejected, warned about.",
        "Scenarios merged by the real code; verdict, keys, values, origin of copies and warnings compared.", "Up to 3 config keys, 2 extra, 3 inputs; keys the recipe cannot produce are open when extra keys are kept."),
"C13": ("Ranking of configs by matching names (with the early stop the design has), the demanded config, ad-hoc intersection, rejection. Invariants: only eligible configs are chosen, the best one unless the procedure may stop early.",
        "The same configs are registered with the real library; ranking, opening and merging are compared (config, keys, verdict).", "Up to 5 configs, 3 models, aliases. Open: a config at least nine tenths of whose keys are there may win early."),
"C14": ("RecipeDag and KeyPolicy with names: canonical first, then aliases in order.", "Aliased and canonical inputs have to give the specified result in all modes.", "All presence patterns of three names for two inputs."),
"C15": ("Breadth-first search over a converter graph that grows. Invariant: the chain found is a shortest path; reject iff unreachable.",
        "Real converter methods are registered step by step, convert() called with names, configs, recipes; chains in the returned recipe and merged values compared.", "Model: all graphs on 4-5 configs; code: up to 24 configs with parallel edges and cycles."),
"C16": ("Architecture-level naming of levels, blocks and layers of the SD1/SDXL/VAE/Flux layouts; which source weights each target consists of (identity, transposition/reshape, concatenation) and which block a key belongs to. Invariant: sources are used once, none with a counterpart dropped.",
        "All keys of all shipped configs are converted with tensors that carry their origin; simulated sets of dropped source keys; block recipes with a distinct value per block.", "All keys."),
"C17": ("Names of adapters in both namings, parts present or absent, shapes, alpha/rank times up composed with down over exact rationals.",
        "Networks enumerated and simulated for all base configs; the real conversion and the merge onto the base compared exactly.", "All floating-point weight keys for names; ranks up to 4. 1-D norm adapters are not claimed."),
"C18": ("Signatures parameter by parameter (fixed space, alternatives, variables, defaults, param) and calls; a binding of the variables exists or not.",
        "Every signature and call is made with the real library: verdict at composition, resulting space, unchanged arguments.", "Signatures up to 4 parameters. Results whose space is determined by no argument are open."),
"C19": ("Demands and known/unknown configs of arguments; verdicts at composition, when asked for the config, and when opened.", "As C18, plus merging; for unknown inputs real files or mappings.", "Three registered configs and unrecognized models."),
"C20": ("Step-by-step binding as Python defines it.", "All calls of small signatures; the merged method reports what it received; inspect.signature asked for every call as a second oracle.", "Up to 4 parameters, no positional-only or **kwargs."),
"C21": ("RecipeLines: terms, canonical text, reading back; RecipeText: quoting and reading character by character. Invariants: Read(Write(t)) = t; equal parts are written once.",
        "Recipes built through the API (parts shared or repeated), serialized, read from strings, lists, files; the texts of the code are also read by the specification (judge direction).", "Up to 9 instructions; strings over an alphabet with all awkward characters."),
"C22": ("On top of RecipeDag: inputs with or without config, uses with fallbacks and options, what the saved text says. Invariant: stored instructions mean what the recipe means.",
        "Every save is made by the real code; its text is compared with that of a fresh recipe, read back and merged.", "8 methods, 4 inputs, 8 uses."),
"C23": ("The two text specifications give for every text a verdict (ok, reject, open) and its meaning.", "All short argument texts, longer sampled, mutated instructions, corrupted real recipes given to the real parser.", "Argument texts up to 3 characters exhaustively."),
"C24": ("Composites makes a use of an operator or helper step by step (operands to deltas, Algebra's method, combination with the base) and states the documented formula as a term.",
        "The use is made with the real library and compared with the specified rationals and with the real elementary methods composed as the term says.", "Up to 4 operands of small integers. Open: helpers where the result is random; stock of a single delta."),
"C25": ("Algebra: every elementary method on exact values, staged methods stage by stage (trim, elect, agree; drop, share), with laws as invariants.",
        "Operands given to the real methods over many keys at once; results compared exactly (or within rounding); results with dropped entries judged by AlgebraJudge.", "Up to 8 entries, 6 operands. Open: irrational results, ties at region boundaries of top-k, overlap with emphasis."),
"C26": ("Options resolved one by one over several uses; the object never changes.", "Real objects and calls; compared with the effects of the options and with the plain call.", "All subsets of options, every accepted form, up to 4 uses with changes of the working directory in between."),
"C27": ("Registrations and resolutions of methods, configs, spaces, formats.", "Histories replayed; every lookup and enumeration compared after every step.", "Histories of up to 8 registrations."),
"C28": ("Configs built key by key, text read entry by entry; identifiers recognized character by character.", "Configs written and read by the real code; all identifiers up to 3 characters; every shipped config.", "Up to 3 components, awkward names."),
"C29": ("Probing of directories, links, opening once, placing the output, failures.", "Trees made in a scratch folder and merged; the files read, the files open during the merge, and the tree afterwards compared.", "9 entries in 4 directories, 4 inputs."),
"C30": ("Which Python values may be given for which parameter types, and what each key receives.", "All combinations passed to real methods and merged.", "Two keys, all kinds of values and types."),
"C31": ("Declarations built parameter by parameter, possibly spoiled at one place; registries, converters and reachable conversions as state.",
        "Functions written down and decorated with the real decorator, in histories; after each declaration the registries, all conversions between three configs and a composition are compared.", "Up to 4 parameters, 7 declarations. Open: converters with required keyword-only parameters, the space of calls without variadic arguments."),
"C32": ("Evaluation as a machine: a stack of frames, each a method of a node computing one key with the reads it still has to make; calls seen and caches as state; checked against a direct definition of values.",
        "Programs merged one or more times by the real code with methods that record what they were given; every recorded call has to be one of the machine's, and all calls that a result needs have to be there.", "Up to 4 methods, 4 keys, 2 caches, 2 merges. Open: calls whose results are dropped because something else is missing."),
}
TAIL = open(__file__.replace("design_text.py", "design_tail.md")).read()
