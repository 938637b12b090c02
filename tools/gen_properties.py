"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": list(observe), "hook_needed": hook}})
S="sd_mecha/streaming.py"; M="sd_mecha/merging.py"; R="sd_mecha/recipe_nodes.py"; Z="sd_mecha/serialization.py"
MM="sd_mecha/extensions/merge_methods.py"; MC="sd_mecha/extensions/model_configs.py"; B="sd_mecha/extensions/builtin/merge_methods/__init__.py"
W="sd_mecha/merge_method_wrappers.py"; H="sd_mecha/helpers.py"; C="sd_mecha/conversion.py"; L="sd_mecha/extensions/builtin/lycoris.py"

p("C01","A saved model file holds exactly the tensors written, under any schedule",
  "Whatever number of threads store tensors into a safetensors output, in whatever interleaving and with whatever buffer size, the finished file is a well-formed safetensors file that lists exactly the stored keys, each with the stored dtype, shape and bytes (no overlap, no hole, no loss). This holds for every storable dtype, for empty, scalar and non-contiguous tensors and views, and when tensors turn out bigger, smaller or of another dtype than was announced when the file was opened. The recipe text given at opening is stored unchanged in the file's metadata.",
  ["schedules","inputs","configurations"],"all interleavings of the storing threads and the final close; all tensor layouts, dtypes, sizes, key names; all buffer sizes and announced headers",
  "No existing test writes an output file, and any race needs a specific preemption between buffer flush, offset accounting and header update.",
  [S],[("per-thread staging buffers, lock-protected flush and offset accounting","streaming.py OutSafetensorsDict"),("header space reservation and relocation at close","streaming.py OutSafetensorsDict.close")],
  ["bytes of the finished file","file positions and lengths of the writes"],
  [("thread buffers","bytes staged by a thread and not yet in the file","OutSafetensorsDict.thread_states"),("flushed size","length of the data section so far","OutSafetensorsDict.flushed_size"),("header","published key -> dtype/shape/offsets","OutSafetensorsDict.header")])
p("C02","Streamed reads return the file's tensors for every access history",
  "For every well-formed safetensors file, reading any sequence of keys, in any order, repeatedly and from any number of threads, with any buffer size, returns for each key a tensor with exactly the dtype, shape and bytes stored in the file. A tensor that was handed out keeps its value whatever is read afterwards. Asking for a key the file does not hold (or for the metadata entry) raises the library's missing-key error, and the key listing is exactly the file's tensor names.",
  ["histories","schedules","inputs","configurations"],"all access orders and interleavings, all buffer sizes, all layouts of the data section (order, gaps, metadata entry)",
  "The tests read single-tensor files once; window refills depend on the order of offsets, tensor sizes and buffer size.",
  [S],[("single sliding read window per file under a lock","streaming.py InSafetensorsDict._ensure_buffer")],["returned tensors"],
  [("window","file range currently buffered","InSafetensorsDict.buffer / buffer_start_offset")])
p("C03","Truncated input, short reads and failed writes never become silent data",
  "If an input model file ends before the data its header promises, a merge that needs that data raises instead of producing values. If the operating system transfers fewer bytes than asked in one call, reads and writes still transfer everything. If writing the output fails, the merge raises.",
  ["fault_sequences","crash_points","inputs"],"every truncation point of an input file, every placement of short transfers and of write errors, every thread count",
  "No test truncates a file or injects an I/O fault; a short raw read leaves zero bytes that look like weights.",
  [S,M],[("buffer refill from an unbuffered file","streaming.py InSafetensorsDict._ensure_buffer"),("unbuffered flush","streaming.py OutSafetensorsDict._flush_buffer")],["exception or result of merge()","output bytes"])
p("C04","A merge evaluates its recipe key by key, independently of how it is executed",
  "For every recipe graph and every key of its model config, the value stored for the key is the recipe evaluated on that key of its inputs: leaves give the input's tensor or the literal, every inner node applies its method to its arguments' values for that key. The result is the same for every thread count (including none), every buffer size, for in-memory inputs and for files, for in-memory outputs and for file outputs, and when a node is shared by several parents.",
  ["programs","inputs","schedules","configurations"],"all recipe DAGs over the method vocabulary, all execution options",
  "Tests merge one-node recipes with threads=0 only; no test compares executions or shares nodes.",
  [M,R,B],[("per-key recursive visitor","merging.py KeyMergeVisitor"),("one task per key","merging.py merge")],["returned mapping / output file"])
p("C05","The output holds exactly the keys the recipe can produce",
  "A key is present in the output if and only if the recipe can be evaluated on it: a key that an argument lacks is missing from the result of every method that reads it there, without aborting the merge or affecting other keys. A fallback (operator, method or merge option) yields the first operand's value where it has one and the second's elsewhere, selecting a component keeps exactly that component's keys, and omitting a component removes exactly those keys.",
  ["programs","inputs"],"all recipes combining fallback, component selection, strict and lazy methods, with every pattern of missing keys in the inputs",
  "The tests have one literal dict per recipe and never look at which keys come out.",
  [M,B],[("missing-key exception caught per key","merging.py _track_output"),("fallback, pick_component, omit_component","builtin/merge_methods")],["key set of the output"])
p("C06","An error while merging any key always surfaces, whatever the schedule",
  "If evaluating or storing any key fails with anything other than a missing key, the merge raises that error, for every position of the failing key, every completion order and every thread count; it never returns normally, never hangs, and never hides the error because another input merely lacks the key. If no key fails, the merge returns normally after every key has been stored exactly once. Once the merge call has ended, nothing is evaluated or stored any more.",
  ["schedules","fault_sequences"],"all completion orders of the per-key tasks over the worker threads, all sets of failing, skipped and succeeding keys",
  "Tests run without threads; error propagation depends on completion order, cancellation and on the order in which contexts close.",
  [M],[("as_completed loop with cancellation","merging.py merge"),("error holder while evaluating arguments","merging.py ErrorHolder")],["exception of merge()","events of methods and of the output mapping"],
  [("task states","pending/running/done/failed/cancelled per key","merging.py merge: futures")])
p("C07","Every file a merge or conversion opens is closed on every path",
  "When merge, convert or the input-opening context ends, normally or by any exception raised at any point (missing or malformed input, wrong merge space, failing method, failing output), no file it opened stays open and no worker thread it started stays alive, and the same recipe object can be used again once the cause is removed.",
  ["fault_sequences","crash_points","configurations"],"every step at which opening, evaluating or saving can fail, for recipes with any number of (repeated, nested) model inputs",
  "No test injects a failure; leaks are invisible to value assertions.",
  [M,S,C],[("open/close visitors in a context manager","merging.py open_input_dicts")],["open file descriptors and threads of the process"])
p("C08","No merge, conversion or serialization influences a later one",
  "The outcome of a merge, a conversion or a serialization is determined by its arguments, the registered extensions and the current contents of the files: it is the same in a fresh process as after any history of earlier calls with any options, including calls that failed. In particular recipes, model configs and option objects are not altered by use, and files changed between two merges of the same recipe are seen with their new contents.",
  ["histories"],"all sequences of merge/convert/serialize calls over shared recipe nodes, configs and files with all options",
  "Each test performs a single merge in fresh state.",
  [M,MC,C],[("config caches","model_configs.py"),("config annotation of nodes while inputs are open","merging.py LoadInputDictsVisitor / CloseInputDictsVisitor")],["results of repeated calls"],
  [("node config","config attached to a leaf","recipe_nodes.py"),("config metadata cache","key metadata memo per config","model_configs.py ModelConfigImpl")])
p("C09","Merging never modifies its inputs",
  "In-memory tensors, dictionaries and hyperparameters passed to a recipe, and input files on disk, have the same contents after any merge as before, for every built-in method and every dtype/device option (also when no conversion copies the inputs). A value read by several nodes of a recipe, or several merges, is the same for each of them. An output path that names one of the input files never destroys that input.",
  ["programs","inputs","configurations","histories"],"all built-in methods, all aliasing patterns between arguments, all dtype pass-through options, all output targets",
  "Tests never look at their inputs again after the merge; with the default options a cast copies the tensors and hides in-place updates.",
  [B,M,S],[("methods build new tensors","builtin/merge_methods"),("tensors over read buffers","streaming.py InSafetensorsDict")],["inputs after the merge"])
p("C10","Merging streams: results are released once stored, buffers stay bounded",
  "While a merge runs, the number of results alive that are not yet handed to the output never exceeds the number of workers, and a result is not kept alive once the output has it. Nothing is loaded from input models ahead of evaluation except their headers, the bytes read ahead from the input files and staged for the output file together stay within the requested buffer size plus a constant number of the largest tensors per file and worker, and file outputs are written as the merge proceeds.",
  ["histories","schedules","configurations"],"all numbers of keys, workers, models and buffer sizes",
  "Tests use one-key models; retention only shows over many keys.",
  [M,S],[("one task per key, results dropped","merging.py _track_output"),("buffer partition","merging.py merge buffer_size_per_file")],["live tensors", "growth of the output file","input file offsets"])
p("C11","Dtype options and hyperparameters reach methods and outputs as specified",
  "Every tensor a method receives from a model or tensor literal has the requested merge dtype (or its original dtype if none is requested), and every stored result of a merge has the requested output dtype (or the computed dtype if none is requested). Number, boolean and string hyperparameters declared with Python types reach the method with their exact value and type whatever the merge dtype, and defaults of omitted options are float64 for merging and float16 for output.",
  ["inputs","configurations","programs"],"all merge/output dtypes and devices, all hyperparameter values and declared types, any nesting",
  "Tests switch both options off.",
  [M,MM,B],[("cast nodes inserted around leaves","merging.py CastInputDicts"),("value casting at method entry","merging.py cast_node_value")],["arguments seen by methods","dtype of outputs"])
p("C12","Key policy options keep, drop and reject exactly the documented keys",
  "By default the output contains only keys of the recipe's model config, without its EMA component; when extra keys are kept, each unrecognized key of an input of the same config and merge space is present too, with the recipe's value if the recipe can be evaluated on it, else copied unchanged from the first such input that has it, and no value the recipe produces for a recognized key changes; EMA keys are kept exactly when asked for. With mandatory-key checking a merge raises if and only if an input lacks a non-optional key under its name and all its aliases; with strict merge-space checking it raises if and only if the recipe is not in weight space; non-finite results are stored and reported by a warning naming the key.",
  ["configurations","inputs"],"all combinations of the options and of present, missing, extra, EMA, aliased and optional keys in one or more inputs",
  "No test sets any of these options (except strictness off).",
  [M],[("key metadata selection","merging.py merge / copy_extra_keys"),("config checks","merging.py check_model_config")],["output keys","exceptions","log records"])
p("C13","Model configs are inferred from keys consistently",
  "A model given without a config gets the registered config (aliases included) that matches most of its keys, provided at least a tenth of its keys match, except that the config a receiving parameter demands (directly, or of the result of methods that keep the config of their arguments) wins whenever it is one of the matching ones; an explicitly given config is never overridden. (A config nearly all of whose keys are present may be taken without looking at the others.) If no single config qualifies, the merge treats all such models as sharing one ad-hoc config made of exactly the keys they all have, unless inference was explicitly demanded, in which case it raises.",
  ["inputs","configurations"],"all sets of registered configs, all key sets of one or several models, all hints",
  "Tests always fix the config.",
  [M],[("affinity ranking","merging.py infer_model_configs"),("ad-hoc intersection","merging.py LoadInputDictsVisitor")],["keys of the output","model config reported while inputs are open"])
p("C14","A key is found under any of its aliases, with a fixed precedence",
  "When a model is read for a key of its config, the value stored under the canonical name is used if present, otherwise the one under the first listed alias that is present; only if none is present is the key missing. The output always uses canonical names, and aliased inputs give the same result as the same inputs with canonical names in every recipe, execution mode and policy option.",
  ["inputs","configurations"],"all patterns of canonical and alias names in the inputs of a recipe",
  "No test uses a config with aliases.",
  [M,MC],[("alias lookup","merging.py KeyMergeVisitor"),("alias tables","model_configs.py")],["output mapping"])
p("C15","Conversion finds a shortest chain of converters or reports there is none",
  "Converting a recipe to a config yields a recipe whose config is the target and that applies a chain of registered converters, each accepting the previous one's result, of the smallest possible length (none if the config already is the target). If the registered converters offer no chain, or the recipe's config is ad hoc, a ValueError is raised, and the recipe passed in is left as it was.",
  ["inputs","configurations"],"all converter graphs (cycles, parallel edges, disconnected and unknown configs), all source/target pairs, target given by name, config or recipe",
  "No test converts anything.",
  [C],[("converter graph search","conversion.py dijkstra")],["nodes of the returned recipe"])
p("C16","Built-in conversions carry every convertible weight to the right key",
  "For each built-in checkpoint conversion, every target key that has a counterpart in the source layout receives exactly that counterpart's tensor with the target's shape, each source weight feeds one target key (fused projections receive the concatenation of their parts), and no source weight with a counterpart is dropped. Block-wise hyperparameters are assigned to keys by the key's block.",
  ["inputs"],"all keys of all built-in configs",
  "No test converts anything; a wrong rename silently drops or swaps weights.",
  ["sd_mecha/extensions/builtin/model_configs/convert_sd1_kohya_to_original.py","sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py","sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py","sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py","sd_mecha/extensions/builtin/model_configs/convert_flux.py","sd_mecha/extensions/builtin/model_configs/convert_sd1_blocks.py","sd_mecha/extensions/builtin/model_configs/convert_sdxl_blocks.py"],
  [("rename tables","builtin/model_configs/convert_*.py")],["converted state dicts"])
p("C17","LoRA networks convert to the exact low-rank delta of the right keys",
  "A LoRA network in either supported naming converts to a delta of its base config in which each targeted weight holds (alpha / rank) times up composed with down (matrix product, or convolution composition for convolution weights, shaped as the base weight), and every other key is missing. Every registered base config has both namings, and a network merges onto its base through the conversion alone.",
  ["inputs","configurations"],"all base configs, both namings, all floating-point weight keys, linear, 1x1 and 3x3 weights, all ranks and alphas",
  "No test touches LoRA.",
  [L],[("per-config converters","builtin/lycoris.py")],["converted state dicts"])
p("C18","Merge-space rules accept exactly the well-typed recipes",
  "Composing a recipe succeeds if and only if every argument is in a merge space its parameter allows and parameters that share a space variable agree; the resulting recipe's space is the declared one or the variable's. Ill-typed compositions are rejected with an error when the recipe is composed, before any file is touched, and recipes are never re-typed by being nested, shared or passed by keyword.",
  ["programs"],"all compositions of methods with fixed, alternative, variable and default spaces over arguments of every space",
  "Tests only use single-node recipes with the default space.",
  [MM,R,"sd_mecha/extensions/merge_spaces.py"],[("space resolution","merge_methods.py get_return_merge_space")],["exceptions and merge_space of composed recipes"])
p("C19","Model-config rules accept exactly the well-typed recipes",
  "A recipe whose inputs' configs are known has a model config if and only if each argument's config equals the one its parameter demands and arguments of parameters without a demand agree with the method's result config; it is the declared config or the arguments' common one. Otherwise an error is raised when the recipe is composed, asked for its config, or merged, before anything is evaluated or stored. Arguments whose config is not known yet do not constrain the recipe, but the mismatch is reported when the inputs are opened: a merge never combines models of different configs.",
  ["programs","inputs"],"all compositions of methods with and without declared configs over inputs with known, unknown and inferred configs",
  "No test composes recipes of different configs.",
  [MM,R,M],[("config resolution","merge_methods.py get_return_config")],["exceptions and model_config of composed recipes"])
p("C20","Calling a merge method binds arguments like a Python call",
  "For every declared signature (positional, defaulted, variadic and keyword-only parameters) a call is accepted if and only if the equivalent plain Python call is accepted, and each parameter then receives the argument or default that Python would give it. Rejected calls raise an error at call time.",
  ["programs","inputs"],"all signatures and all mixes of positional, keyword, duplicate, missing and surplus arguments",
  "Tests call methods with a single positional argument.",
  [MM],[("argument binding","merge_methods.py MergeMethod.create_recipe")],["arguments received by the method"])
p("C21","Recipe text round-trips",
  "Serializing any serializable recipe and deserializing the text gives a recipe of the same structure: same methods, paths, literal values with their types, configs, merge spaces, argument positions, keywords and sharing of equal parts; serializing it again gives the same text, and merging it gives the same result. This holds for all strings (quotes, backslashes, spaces, '=', '&', '#', newlines, unicode), numbers (including negative, huge, infinite and nan), booleans, null and dictionaries, and for text passed as a string, a list of lines or a file.",
  ["programs","inputs"],"all recipe graphs and literal values the format covers",
  "No test serializes a recipe.",
  [Z],[("serializer visitor and line parser","serialization.py")],["deserialized recipe graph","recipe text"])
p("C22","A saved model embeds a recipe that reproduces it",
  "When a merge of a serializable recipe is saved to a file, the text stored in the file's metadata is the serialization of the recipe as the user built it (fallbacks, casts and other execution options excluded; configs the user left open may be stored as found), it deserializes, and merging it with the same options reproduces the file's tensors. If a recipe cannot be serialized the merge still succeeds and stores no recipe.",
  ["programs","configurations","histories"],"all recipes and merge options, including models whose config is inferred or ad hoc, and recipes that were merged or converted before",
  "No test writes a file.",
  [M,Z],[("recipe metadata","merging.py _get_output_dict")],["metadata and tensors of the output file"])
p("C23","Malformed recipe text is rejected, never misread",
  "Deserializing text that does not start with the supported version line, uses an unknown command or method, refers to a result that does not exist yet, has unbalanced quotes, an unparsable argument, or arguments the command or method does not accept raises an error. No such text yields a recipe, and every accepted line means what the format defines for it.",
  ["inputs"],"all token sequences and all corruptions of valid recipe texts",
  "No test deserializes anything.",
  [Z],[("line parser","serialization.py deserialize")],["exception or resulting recipe graph"])
p("C24","Operators and composite helpers build their documented formulas",
  "For all operands, a + b adds the delta operand to the weight operand in either order, a - b gives the delta from b to a, a | b falls back from a to b; models may be given as recipes or paths, and | also accepts plain values where recipes hold parameters. The composite helpers (add_difference with and without a third model and clamping, add_perpendicular, task-vector merges, copy_region/tensor_sum, dropout, model stock) accept every documented option and equal their documented formula in terms of the elementary methods; the task-vector merges (add difference, model stock, TIES, DARE and their combinations) treat operands already in delta space as deltas.",
  ["programs","inputs"],"all operand spaces, all option combinations of the helpers",
  "No test calls an operator or a helper.",
  [R,W],[("operators","recipe_nodes.py RecipeNode"),("helpers","merge_method_wrappers.py")],["merged values"])
p("C25","Elementary merge methods satisfy their defining equations",
  "On exactly representable values, the elementary methods return exactly what they define: weighted sum interpolates, n-average averages, difference and sum invert each other, clamping stays within the bounds and is idempotent, region copying replaces exactly the addressed slice (wrapping around), sign-elected sums trim to the top fraction and average only agreeing values, opposite/difference masks and maximum selection choose elementwise as documented, dropout keeps or zeroes entries reproducibly for a given seed. The result has the operands' shape for every shape, including scalars and empty tensors where defined.",
  ["inputs"],"all small integer-valued operands, shapes, fractions, offsets and option combinations",
  "Two methods are tested on one example each.",
  [B],[("built-in methods","builtin/merge_methods/__init__.py")],["method results"])
p("C26","Shared defaults behave exactly like passing the options explicitly",
  "For every combination of options, a merge or conversion through a defaults object has the outcome of the plain call with each option taken from the call if given, else from the defaults object, else from the library's default. Every option accepted by the defaults object takes effect, in every accepted form (string, path, list, tuple), and using the object does not change it.",
  ["configurations","histories"],"all subsets of options given at either level, in every accepted form, over several uses",
  "No test uses the defaults object.",
  [H],[("option resolution","helpers.py Defaults")],["outcome of merges"])
p("C27","Registries resolve exactly what was registered",
  "After any sequence of registrations of merge spaces, model configs, model formats and merge methods, resolving an identifier returns the object registered for it, enumerations list each registered object once, and resolving an unknown identifier raises ValueError naming it. Registering an identifier that is taken is rejected for spaces, configs (across built-in and auxiliary ones) and formats without changing the registry; unregistered methods cannot be resolved but work.",
  ["histories"],"all sequences of register/resolve/enumerate operations",
  "Tests register nothing globally.",
  [MC,MM,"sd_mecha/extensions/merge_spaces.py","sd_mecha/extensions/model_formats.py"],[("registries","extensions/*")],["resolve/get_all results"])
p("C28","Model configs survive their text form",
  "Writing a model config as text and reading it back gives a config with the same identifier, components, keys in the same order, shapes, dtypes, aliases and optional flags. Every shipped config loads with its file name as identifier, and identifiers that do not follow '<architecture>-<implementation>' are rejected.",
  ["inputs"],"all configs (any components, shapes, dtypes, aliases, flags), all identifiers",
  "No test serializes a config.",
  [MC],[("to_yaml / from_yaml","model_configs.py")],["re-read configs"])
p("C29","Model paths resolve by a fixed search order",
  "A relative input path names the file in the first given model directory that contains it, else the file relative to the working directory; absolute paths are used as they are. A relative output path is placed in the first model directory (else the working directory), paths may be strings or path objects, two spellings of one file are opened once, and unsupported or missing files raise before any output is produced.",
  ["configurations","inputs"],"all lists of directories, presence patterns of files in them, path spellings",
  "Tests use absolute temporary paths only.",
  [M,"sd_mecha/extensions/model_formats.py"],[("path lookup","merging.py LoadInputDictsVisitor"),("output placement","merging.py _get_output_dict")],["which file is read/written"])
p("C30","Literals broadcast and convert to declared parameter types by fixed rules",
  "A scalar literal is given to every key and a dictionary literal gives each key its own entry (missing where it has none); numbers given to tensor parameters arrive as scalar tensors, tensors and numbers given to int or float parameters arrive as that type, values of the declared type arrive unchanged, and dictionaries may hold recipes per key. Values of other types, paths given to parameters of Python types and dictionaries mixing incompatible types are rejected with TypeError when the recipe is composed; a string given to a tensor parameter, or a number or tensor given to a string parameter, makes the merge raise.",
  ["inputs","programs"],"all literal kinds times all declared parameter types, scalar and dictionary forms, plain and dictionary-typed parameters",
  "The tests sample about half of the table with one value each and threads=0.",
  [MM,M],[("value_to_node","merge_methods.py"),("cast_node_value","merging.py")],["arguments received by methods"])
p("C31","Merge method declarations are accepted exactly when they are well formed",
  "Declaring a merge method succeeds if and only if every parameter is annotated with Parameter(...) and the result with Return(...), with supported types, known merge spaces and known, non-structural model configs; parameters with default values are in param space; a merge-space symbol that is returned is used by a parameter; a result config is declared unless some parameter leaves its config open; and a conversion is registered, takes exactly one positional input and declares the configs of that input and of its result. A rejected declaration raises and leaves the registries of methods and converters, and what conversions are possible, as they were. An accepted one is what its identifier resolves to (if registered), makes convert() possible along it (if a conversion), and composing it with arguments of the declared spaces gives the declared space.",
  ["programs","histories"],"all signatures (kinds of parameters, types, spaces, symbols, configs, defaults), every single defect in them, all histories of declarations under the same identifiers",
  "The tests declare about twenty signatures, one at a time, and never look at the registries or at conversions after a rejected declaration.",
  [MM,C],[("declaration check","merge_methods.py MergeMethod.__validate_f"),("registration","merge_methods.py merge_method"),("graph of converters","conversion.py convert")],
  ["exceptions of the decorator","resolve(), get_all(), get_all_converters()","convert()"],
  [("registries","methods and converters by identifier","merge_methods.py")])
p("C32","Methods are given the key they compute, their node's cache and live views",
  "Whenever a merge calls a method for a node and a key, a method declared with **kwargs receives that key (also when the key was asked for by a method reading another key of a dictionary parameter) and the cache set on that very node: the same dictionary object in every call and every merge, or None when none was set. A dictionary parameter is a view of the argument recipe: reading a key gives what the argument evaluates to for that key, a key the argument cannot produce raises a missing-key error and counts as not contained, and its length, keys and model config are those of the argument's config. Setting a cache returns the node and changes no value.",
  ["programs","inputs","histories"],"all recipe graphs of methods that read values or views in different ways, with shared nodes, missing keys, nested reads of other keys and keys outside the config, caches shared or not, over several merges",
  "The tests have one-node recipes; no test passes a cache, reads other keys through several nodes or asks a view for a missing key.",
  [M,R,MM],[("per-key visitor and dictionary view","merging.py KeyMergeVisitor, MergeNodeWrapperStateDict"),("cache of a node","recipe_nodes.py MergeRecipeNode.set_cache"),("context of a call","merge_methods.py MergeMethod.merge_key"),("rebuilt recipes","merging.py CastInputDicts")],
  ["arguments received by methods","contents of the caches"],
  [("cache","dictionary given to the method of a node","MergeRecipeNode.cache")])
out = pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
