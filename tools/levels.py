BIND = "Bounded: exhaustive within the constants of the quick/thorough configurations, sampled (seeded) beyond them. Trusts TLC, CPython, torch and the Python drivers in /verif."
NOTES = {
 "C01": ("TLA+ spec StreamOut model checked with TLC; simulated schedules replayed into OutSafetensorsDict under a controlled thread scheduler; finished files judged by the TLA+ module StreamOutJudge",
         "All interleavings of the critical sections at small sizes hold in the model; the real code is run on sampled schedules (critical-section, line and opcode granularity), all dtypes and layouts. " + BIND),
 "C02": ("TLA+ spec StreamIn model checked with TLC; simulated layouts, access histories and schedules replayed into InSafetensorsDict under a controlled thread scheduler",
         "All access histories and interleavings at small sizes hold in the model; the real reader is run on sampled layouts, histories and schedules, every read compared with an independent parse of the file. " + BIND),
 "C03": ("TLA+ specs StreamIn (truncation, short reads) and Faults (short and failing writes) model checked with TLC; simulated fault placements injected below the real reader, writer and merge",
         "Faults are injected at the raw file calls; every truncation point in units of 8 bytes within the modelled layouts. " + BIND),
 "C06": ("TLA+ spec MergeEngine (task pool, cancellation, joining, closing) model checked with safety and liveness; simulated scenarios and schedules replayed into merge() with gated methods and outputs; recorded events judged by the TLA+ module MergeEngineJudge",
         "Completion orders are forced through gates in user-defined methods and the output mapping; schedules inside the executor are the operating system's. " + BIND),
 "C10": ("TLA+ specs MergeEngine (retention) and Budget (windows and staging) model checked; simulated scenarios replayed into merge() while live results, transferred ranges and staged bytes are measured",
         "Live results are counted through weak references, buffers through the transfers of the files and traced allocations. " + BIND),
 "C04": ("TLA+ spec RecipeDag (value of every key of recipe graphs with shared nodes, literals, dictionaries of recipes, lazy methods) model checked; simulated programs merged by the real code in several execution modes and compared with the specified values",
         "Values are exact multiples, so results are compared exactly; methods are a representative set of built-in and user-defined ones. " + BIND),
 "C05": ("TLA+ spec RecipeDag with missing keys model checked; all one-node programs and sampled larger ones merged by the real code, key sets and values compared",
         "All patterns of missing keys for one-node programs over two inputs and two keys. " + BIND),
 "C12": ("TLA+ spec KeyPolicy (extra, EMA, mandatory, strict space, non-finite, aliases) model checked; simulated scenarios merged by the real code: verdict, stored keys, values, origin of copied keys and warnings compared",
         "With extra keys kept, keys of the config that the recipe cannot produce are not constrained. " + BIND),
 "C14": ("TLA+ specs RecipeDag and KeyPolicy with aliased names model checked; simulated programs and scenarios with aliased inputs merged by the real code and compared",
         "All presence patterns of three names for two inputs. " + BIND),
 "C18": ("TLA+ spec RecipeTypes (merge spaces, variables, defaults) model checked; enumerated and simulated signatures and calls composed with the real library, verdict and resulting space compared",
         "Signatures up to four parameters. " + BIND),
 "C19": ("TLA+ spec RecipeTypes (config demands, unknown and inferred configs) model checked; enumerated and simulated compositions made and merged with the real library, verdicts and result configs compared",
         "Signatures up to four parameters over three registered configs and unrecognized models. " + BIND),
 "C20": ("TLA+ spec CallBind (binding of call arguments, step by step as Python does) model checked; all calls of small signatures and sampled bigger ones made on real merge methods, merged, and compared with the specified binding (and with inspect.signature)",
         "Signatures without positional-only and **kwargs parameters. " + BIND),
 "C30": ("TLA+ spec Coerce (which values may be given for which parameter types and what arrives) model checked; all combinations of value kinds, forms and parameter types merged by the real code and compared",
         "All combinations for two keys. " + BIND),
 "C31": ("TLA+ spec Declare (signatures built step by step, possibly spoiled at one place; registries and reachable conversions after every declaration) model checked; simulated histories of declarations made with the real decorator, registries, all conversions and a composition compared after each",
         "Signatures up to four parameters, histories of up to seven declarations. " + BIND),
 "C32": ("TLA+ spec Views (evaluation as a machine with a stack of frames: calls, keys, caches, reads of views) model checked against a direct definition; simulated programs merged by the real code, the calls their methods received, the caches and the results compared",
         "Programs of at most four methods; calls made for results that turn out missing may happen or not. " + BIND),
 "C21": ("TLA+ specs RecipeText (characters) and RecipeLines (instructions, terms, canonical text) with round-trip invariants model checked; recipes generated by RecipeLines and RecipeDag are built through the API (parts shared or not), serialized, deserialized from strings, lists and files, compared with the specified term and merged; the texts the code writes are read back by the specifications",
         "Recipes of at most 9 instructions; nested dictionaries and dictionaries mixing recipes and values are left open. " + BIND),
 "C23": ("TLA+ specs RecipeText and RecipeLines decide for every text whether it is a recipe and what it means; all short argument texts, sampled longer ones, texts with mutated instructions and corrupted texts of real recipes are given to the real parser and compared",
         "Argument texts up to 3 characters exhaustively, longer ones sampled; spellings the format does not define are left open. " + BIND),
 "C15": ("TLA+ spec ConvGraph (breadth-first search over a graph of converters that grows) model checked against reachability; all small and sampled bigger graphs of real converter methods registered and searched by convert(), merged, and compared",
         "Graphs of at most 5 configs in the model and 24 in the code. " + BIND),
 "C27": ("TLA+ spec Registry (registrations and lookups of methods, configs, spaces and formats) model checked; simulated histories replayed into the real registries, every lookup compared",
         "Re-registered methods replace the earlier one; stale converters are left open. " + BIND),
 "C28": ("TLA+ spec ConfigText (configs built step by step, their text read entry by entry; identifiers read character by character) model checked with a round-trip invariant; all small and sampled big configs written and read back by the real code, all short identifiers accepted or rejected alike; every shipped config",
         "Names are drawn from a list of awkward spellings for yaml. " + BIND),
 "C29": ("TLA+ spec Paths (probing of directories, links, opening once, placing the output, failures) model checked; simulated trees, paths and directory lists made in a scratch folder and merged or converted by the real code: file contents of the whole tree, files open while methods run, and results compared",
         "Trees of at most 9 entries in 4 directories, up to 4 inputs. " + BIND),
 "C26": ("TLA+ spec Defaults (resolution of every option over several uses of one object) model checked; simulated objects and calls made through the real class, outcomes compared with the effects of the resolved options and with the plain call",
         "Devices are cpu and meta. " + BIND),
 "C07": ("TLA+ spec Lifecycle (acquire and release steps of merges, conversions and the input-opening context, with a fault at any step, histories over one recipe) model checked with safety and liveness; every single fault and simulated histories made with the real code: open files, threads, recipe and results compared while methods run and after every operation",
         "One fault per operation; up to 6 inputs and 4 faulty operations. Exceptions raised by the closing of an input itself are left open. " + BIND),
 "C08": ("TLA+ spec Session (histories of operations over shared inputs while files and registrations change) model checked; simulated histories run by the real code in forked processes, every step compared with the same step in a process that did nothing before, and everything the callers keep compared before and after",
         "Nine recipes, six sets of options, six versions of three files, histories of up to 14 steps. Methods with random results are seeded. " + BIND),
 "C22": ("TLA+ spec SavedRecipe (on top of RecipeDag: inputs with or without a config, uses with fallbacks, writing of instructions) model checked: stored instructions mean what the recipe means; simulated programs and uses saved by the real code, the stored text compared with that of a recipe that was never used, read back and merged",
         "Programs of at most 8 methods over 4 inputs, 8 uses. " + BIND),
 "C09": ("TLA+ spec TensorHeap (who may write to which buffer while tasks evaluate a recipe over shared buffers) model checked; simulated recipes of all built-in methods over inputs that share tensors, views and files merged by the real code with and without conversions, everything the caller owns compared bit by bit, results compared with those over copies; outputs aimed at input files",
         "Recipes of at most 4 methods over 3 inputs, 8 shapes. " + BIND),
 "C11": ("TLA+ spec Precision (which element type and device a tensor has at every step from the input to the output) model checked; simulated recipes and options merged by the real code with methods that record what they get, types, devices and rounded values compared",
         "Devices are cpu and meta. " + BIND),
 "C25": ("TLA+ spec Algebra (elementary methods on exact values, the staged ones stage by stage) model checked against their laws; enumerated and simulated operands given to the real methods by merges and compared with the specified rationals; results with dropped entries are given back to the specification, which has to explain them",
         "Values are small integers, options multiples of 1/8; up to 8 entries and 6 operands. slerp, geometric and iterative methods where the result is rational. " + BIND),
 "C13": ("TLA+ spec Infer (ranking of configs with early stop, demanded configs, ad-hoc intersection over several models) model checked: the ranking procedure yields a best config, never an ineligible one; enumerated and simulated sets of configs and models registered, ranked and merged by the real code, verdicts, configs and keys of the output compared",
         "Configs of at most 30 keys with aliases, up to 5 configs and 3 models. Where the procedure may stop early at a config nearly all of whose keys are there, several outcomes are allowed. " + BIND),
 "C16": ("TLA+ spec KeyMaps (structure of the networks, names of every layer in every layout, rules of the conversions and of the blocks) model checked: the rules are a bijection between the layouts; the tables it computes are compared with what the real converters do on every key of every shipped config, and on simulated sets of missing keys",
         "All keys of all shipped configs. " + BIND),
 "C17": ("TLA+ spec Lora (names of the adapters in both namings, shapes, alpha/rank times up composed with down on exact rationals) model checked; enumerated and simulated networks over all base configs converted by the real code and compared exactly",
         "All floating-point weight keys of all base configs for the names; ranks up to 4 and small integer values for the deltas. " + BIND),
 "C24": ("TLA+ spec Composites (operators and helpers as terms over the elementary methods of the Algebra spec) model checked against their documented formulas; enumerated and simulated operands and options given to the real operators and helpers, merged and compared with the specified rationals",
         "Values are small integers, up to 4 operands. Helpers that draw random numbers are compared where the result is determined. " + BIND),
}
NOT_APPLICABLE = {}
