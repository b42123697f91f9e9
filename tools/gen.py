"""Writes properties.jsonl and MANIFEST.json from the table below; run after editing it."""
import json
import pathlib

HERE = pathlib.Path(__file__).resolve().parent.parent
M, R, S, SE, CV = "sd_mecha/merging.py", "sd_mecha/recipe_nodes.py", "sd_mecha/streaming.py", "sd_mecha/serialization.py", "sd_mecha/conversion.py"
MM, MS, MC, MF = (f"sd_mecha/extensions/{n}.py" for n in ("merge_methods", "merge_spaces", "model_configs", "model_formats"))
B, BC = "sd_mecha/extensions/builtin/merge_methods/__init__.py", "sd_mecha/extensions/builtin/model_configs/__init__.py"
W, H = "sd_mecha/merge_method_wrappers.py", "sd_mecha/helpers.py"
LY = "sd_mecha/extensions/builtin/lycoris.py"

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    anchors["hook_needed"] = None
    PROPS.append(({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
        "why_tests_cant": why, "anchors": anchors,
    }, technique, note))


prop("C01", "A merge computes, for every key, what its recipe means",
     "For every recipe, each key of the result has exactly the value obtained by evaluating the recipe's operations on the values its inputs have for that key, "
     "with number, dictionary and block parameters applied to that key. "
     "A key that a needed input lacks is left out unless a fallback gives it, and an input that is stored under another accepted name is found (its own name coming first). A recipe contains (`in`) exactly the recipes it is made of.",
     ["inputs", "programs", "configurations"],
     "all recipe graphs over the built-in operators, custom methods, in-memory and on-disk models with missing or renamed keys, all dtypes, thread counts and buffer sizes",
     "The tests merge a few fixed two-model recipes; evaluation order, sharing, argument order, parameter broadcast and missing keys interact over an unbounded set of graphs.",
     [M, R, MM, B, W], [("recursive evaluation of one key", M), ("argument binding and literal conversion", MM)],
     "runtime monitor: merge results of generated recipe graphs against an independent reference interpreter",
     "Every value of every generated merge is compared with an exact reference evaluation; coverage is what the generator reaches (counts in the evidence). Trusts the reference interpreter in mon/dag.py.",
     ["output mapping or file of a merge"])
prop("C02", "The output has exactly the keys that config, recipe and options define",
     "The keys of a merge are the keys of its config for which the recipe (or its fallback) has a value, in canonical names, without the ema keys or the unrecognized keys when these are omitted; "
     "models without any config give the keys they have in common. Unrecognized keys are reported when dropped and carried over from the first input that has them otherwise, "
     "and asking for mandatory keys rejects exactly the inputs that lack one.",
     ["inputs", "configurations", "histories"],
     "all configs (components, aliases, optional keys), models with missing, renamed and extra keys, option combinations, and sequences of merges over the same config",
     "The tests use complete models with the default options.",
     [M, MC], [("selection of the keys to merge", M), ("copy of extra keys", M), ("aliases and optional keys", MC)],
     "runtime monitor: key sets and provenance tags of outputs against the documented rule",
     "Every source tensor carries a unique number, so each output value shows where it came from. Extra keys' dtype is not judged.")
prop("C03", "Threads, scheduling and buffer sizes never change the result",
     "Whatever the number of threads, the way they interleave, and the buffer size, a merge gives bit for bit the result of a sequential merge. "
     "Each key is evaluated by its recipe and written to the output exactly once. Methods run in at most the given number of threads; with 0, in that of the caller.",
     ["schedules", "configurations", "inputs"],
     "all interleavings of worker threads over shared inputs and outputs, thread counts, buffer sizes",
     "A race needs a particular interleaving inside shared readers, caches or writers; the tests run whatever schedule the machine gives, on inputs of a few keys.",
     [M, S], [("thread pool over keys", M), ("locks of the file reader and writer", S)],
     "runtime monitor with schedule perturbation: injected delays and tiny switch intervals, parallel runs compared with the sequential run",
     "Interleavings are sampled, not enumerated; distinct recorded interleavings are counted in the evidence. Explores bytecode-level schedules of CPython with the interpreter lock.")
prop("C04", "Saved files are valid and hold exactly the merged tensors",
     "A merge saved to a file gives a well-formed safetensors file with, for each key, the dtype, shape and bits that the same merge gives in memory, whatever the memory layout, size and declared metadata of the tensors. "
     "The data section has no holes, overlaps or trailing bytes, and no key twice.",
     ["inputs", "configurations", "schedules"],
     "all result tensors (dtypes, bit patterns, shapes, strides, views), header sizes, buffer sizes, thread counts and schedules",
     "The tests save contiguous tensors of one dtype whose metadata is right.",
     [S, M], [("streamed writer with per-thread buffers and header fix-up", S)],
     "runtime monitor: strict independent format reader over produced files, compared with in-memory results",
     "Every produced file is parsed by an independent strict reader (and by the safetensors library). Header growth, views and odd layouts are counted.")
prop("C05", "Reading a file gives each tensor bit for bit, in any order and concurrently",
     "Every tensor of a valid file is read with its exact bits, dtype and shape, whatever the order of access, the buffer size, the number of threads that read at once, and the order in which the file stores its data. "
     "A tensor that was returned never changes afterwards, keys that the file lacks are reported as missing keys, and a truncated file is an error.",
     ["inputs", "schedules", "histories"],
     "all file layouts, dtypes, access sequences, buffer sizes and concurrent readers",
     "The tests read small files front to back from one thread.",
     [S, MF], [("buffered reader", S), ("model formats", MF)],
     "runtime monitor: tensors digested when returned and again at the end, against bytes generated by an independent writer",
     "Random layouts and access orders, several readers at once; counts of reads, probes and concurrent reads in the evidence.")
prop("C06", "Merging leaves its inputs and recipes as they were",
     "No merge, conversion or serialization changes the tensors, dictionaries, files or recipes it is given, whether it succeeds or fails. "
     "Doing anything with a recipe therefore gives the same result no matter what was done with it, its parts or its config before.",
     ["inputs", "histories"],
     "all built-in methods over all dtypes and parameters, and all histories of merges, failures, conversions and serializations over shared nodes",
     "A test runs one operation on fresh inputs and compares its result; it does not look at the inputs afterwards, nor repeat the operation in other histories.",
     [B, M, R, MC], [("merge methods", B), ("opening and closing of inputs around a merge", M)],
     "runtime monitor: digests of inputs before and after, and re-execution of shared recipes in random histories",
     "All registered built-in methods are exercised. User-defined methods are assumed not to modify their arguments.")
prop("C07", "Every file and thread that an operation opens is released when it ends",
     "When a merge or conversion returns or raises, no file it opened stays open and no thread it started keeps running, and its inputs are detached so that they can be used again.",
     ["fault_sequences", "histories", "schedules"],
     "all operations, with a fault at any stage (missing or corrupt inputs, rejected options, failing methods, outputs or progress bars), any thread count",
     "The tests do not look at descriptors or threads, and most stages never fail in them.",
     [M, S], [("context managers around inputs, output and executor", M), ("closing of readers and writers", S)],
     "runtime monitor: /proc/self/fd and live threads before and after operations with injected faults",
     "Descriptors are read from the operating system; faults are injected at random stages and counted.")
prop("C08", "A failure is never silent: the merge raises the original error",
     "If evaluating or storing any key fails, reading an input fails, or saving fails (disk full included), the merge raises, and the exception is the one that caused the failure. "
     "No merge that lost or damaged data returns normally.",
     ["fault_sequences", "schedules", "inputs"],
     "all faults (method errors, output errors, truncated or corrupt inputs, full disk) at any key, thread and time",
     "Failures in worker threads, at a particular key or in the middle of writing, are not produced by any test.",
     [M, S], [("futures of worker threads", M), ("ordering of executor and output on exit", M), ("short reads and writes", S)],
     "runtime monitor with fault injection: unique error tokens, truncated inputs, RLIMIT_FSIZE on outputs",
     "Faults carry unique tokens, so the reported error is identified exactly. Full disks are simulated with a file size limit.")
prop("C09", "A merge that is rejected leaves its output untouched",
     "A merge that is invalid from the start (bad options, wrong merge space, missing, unreadable or incompatible inputs, an output that is one of the inputs through whatever name) raises and leaves the output file or mapping and its directory exactly as they were.",
     ["inputs", "configurations"],
     "all kinds of invalid requests, output kinds and ways to name the same file (relative, symbolic or hard links, model directories)",
     "Tests of rejections, where they exist, do not check that existing outputs survive; aliasing of file names needs particular file systems setups.",
     [M], [("validation before the output is created", M), ("detection of an output that is also an input", M)],
     "runtime monitor: bytes, inode and time stamp of outputs and directory listings around rejected merges",
     "Each rejection kind is generated against existing outputs; a control workload checks that the same recipes are accepted without the fault.")
prop("C10", "Serialized recipes describe the same recipe again",
     "Parsing the text of a recipe gives back the same graph: methods, argument positions and names, literals bit for bit (any string, integer, float, boolean, None, dictionary), models, configs and merge spaces; so merging it gives the same result, and serializing it again the same text. "
     "Recipe files do not depend on the locale. Texts that are not recipes, and recipes that hold tensors, are refused.",
     ["inputs", "programs"],
     "all recipe graphs and literal values, all ways to give the text (string, lines, file, with comments)",
     "The tests round-trip a few graphs with tame literals.",
     [SE, MM], [("serializer with node deduplication", SE), ("tokenizer and parser", SE)],
     "runtime monitor: node by node comparison of generated recipes with their parsed text, and comparison of their merges",
     "Random graphs with hostile literals. Dictionary keys are restricted to state dict key characters.")

prop("C11", "The recipe stored in an output file reproduces the file",
     "A merge that saves to a file stores its recipe in the file's metadata, and merging that recipe again with the same options gives the same file, byte for byte; "
     "outputs may themselves be inputs of further recipes. Recipes that cannot be written as text (tensors in memory) leave no recipe in the file and say so.",
     ["inputs", "configurations", "histories"],
     "all recipe graphs over files (absolute, or relative to model directories), literals, dtypes, threads, buffer sizes and option combinations",
     "No test reads the recipe of an output back.",
     [M, SE, S], [("recipe in the output's metadata", M), ("serializer and parser", SE)],
     "runtime monitor: the recipe is taken from the produced file by an independent reader, compared node by node and merged again; both files are compared byte for byte",
     "Random recipes and options. The options themselves are not part of a recipe and are given again, fallback_model included.")
prop("C12", "Merge spaces are checked and inferred when a recipe is built",
     "Applying a merge method to arguments succeeds exactly when the merge space of every argument is one its parameter accepts and all parameters sharing a symbol "
     "(or declaring none) get the same space; the result has the declared space, or the one inferred for its symbol. "
     "Merging a recipe whose space is not a weight (by default) is refused. "
     "Spaces that are registered, at any time, count like the built-in ones; unknown names and taken ones are refused.",
     ["inputs", "programs"],
     "all method signatures (fixed spaces, sets, symbols, undeclared, variadic, keyword only) and argument spaces, including every built-in method",
     "The tests type-check a few signatures with one or two arguments.",
     [MS, MM, R, B], [("resolution of space symbols", MM), ("sets of spaces and symbols", MS)],
     "runtime monitor: acceptance and inferred space of generated applications against an independent statement of the typing rule",
     "Random signatures against an independent rule; all combinations of spaces for the built-in methods.")
prop("C13", "convert() composes a shortest chain of conversions, or says there is none",
     "Converting a recipe, file, dictionary or model to a config applies a chain of registered conversions from its config to the target, as short as possible, in order; "
     "converting to the same config changes nothing; when no chain exists the conversion is refused. A dictionary that fits several configs is converted from the one that shares the most keys with it among those that have a chain. The merged result is the composition of the effects of the chain.",
     ["inputs", "programs", "histories"],
     "all graphs of configs and registered conversions, sources, targets and ways to give them",
     "The tests have no conversion graph at all.",
     [CV, MC], [("breadth first search over conversions", CV)],
     "runtime monitor: generated conversion graphs with recognizable effects, chains and results compared with an independent search",
     "Random graphs of up to seven configs with cycles, parallel conversions and dead ends, dictionaries that fit several configs; the built-in graph is checked over all pairs.")
prop("C14", "Calling a merge method binds its arguments as Python does",
     "A merge method accepts exactly the calls that a Python function of its signature accepts (positional, named, defaulted, variadic and keyword only parameters) and refuses the others; "
     "each argument reaches, when merging, the parameter that Python would bind it to, in the same order.",
     ["inputs", "programs"],
     "all signatures of merge methods and all calls, with missing, repeated, unknown or excess arguments",
     "The tests call a few signatures properly.",
     [MM, R], [("signature inspection and argument binding", MM)],
     "runtime monitor: calls of generated signatures compared with inspect.Signature.bind, in the recipe and in what the method receives",
     "Random signatures and calls; positional-only parameters are not generated.")
prop("C15", "Literal parameters reach a method exactly, key by key",
     "A literal given to a parameter reaches the method with its exact value and type for every key: integers, floats, booleans, strings and None as given, "
     "tensors bit for bit in the merge dtype, dictionaries with the value of that key (and no result for keys that a dictionary lacks), "
     "block weights with the value of the block that the key belongs to, parameters computed by other recipes with the computed value.",
     ["inputs", "configurations", "programs"],
     "all literal values and parameter types, dictionaries, dictionaries with defaults, block weights, merge dtypes and threads",
     "The tests pass a few tame floats.",
     [MM, R, M, W], [("literal nodes and implicit conversions", MM), ("evaluation of literals per key", M)],
     "runtime monitor: probe methods record type and value of what they receive per key, compared with the literal",
     "Numbers given to tensor parameters, or passed through other methods, may be rounded to float32 and the merge dtype.")
prop("C16", "Built-in conversions map every tensor to its place, whole, exactly once",
     "Converting a model between built-in configs gives each target key the source tensor (or concatenation, transposition or reshape of tensors) that the naming conventions of both formats assign to it, "
     "with the values unchanged and the shapes of the target config; no source tensor that has a place is lost or used twice. Keys whose sources are missing are left out. "
     "Block weights give each key the weight of its block.",
     ["inputs"],
     "all built-in conversions, every key of their configs, partial models, block weights",
     "The tests convert nothing.",
     [BC, CV], [("conversion methods", BC)],
     "runtime monitor: converted models with unique numbers in every element compared with independently written naming tables; provenance and shapes of every key",
     "All keys of all conversions are covered in every run. Trusts the naming tables in mon/naming.py.")
prop("C17", "LoRA files are composed into the exact deltas of their base model",
     "A LoRA of any built-in base model, in either documented naming style, converts to a delta that holds, for each layer whose up, down and alpha tensors are there, "
     "alpha / rank * up x down in the shape of the base weight (linear, 1x1 and 3x3 convolutions), and nothing for other layers; layers may be named after any of the names that the base config accepts for the weight. Adding it to a base model with a strength adds strength times the delta.",
     ["inputs", "configurations"],
     "all built-in base configs, layers, shapes, ranks, alphas, dtypes, partial LoRAs, several LoRAs at once",
     "The tests contain no LoRA.",
     [LY, CV], [("LoRA config generation and composition", LY)],
     "runtime monitor: deltas of generated LoRA files against an elementwise reference",
     "Random layers of every built-in config; the declared LoRA keys are compared with the layers of the base config.")
prop("C18", "A model given without a config gets the registered config that fits it best",
     "When the config of a model is not given it is the registered config that shares the most keys (under any of their names) with the model, or one that the method's parameter declares if that one fits as well; "
     "models that fit no config are merged by their own keys. The config found depends only on the keys of the model, not on how it is given or on what was done before.",
     ["inputs", "histories"],
     "all subsets and mixtures of the keys of registered configs, foreign keys, aliases, sets of overlapping configs",
     "The tests give configs explicitly, or use one obvious model.",
     [MC, R, M], [("config inference", MC)],
     "runtime monitor: config seen by a probe method against an independent count of common keys",
     "When several configs match equally well any of them is accepted; a match of less than a tenth of the model's keys counts as none.")
prop("C20", "Interpolation and arithmetic methods compute their formulas",
     "weighted_sum, n_average, slerp, add_difference (with a third model, and clamped to its models), subtract, perpendicular_component, add_perpendicular, geometric_sum and the + and - operators "
     "give for every element of every tensor the value of their definition, for any shape, weight (also outside of 0 to 1, per key, or per element) and input (zeros, equal or parallel tensors); "
     "a weight of 0 or 1 returns the first or second model bit for bit.",
     ["inputs", "configurations"],
     "all tensors (shapes, values, degenerate ones), all weights given once, per key or per element",
     "The tests cover ties, model stock and the geometric median on one fixed input each; no test runs these methods.",
     [B, W], [("merge methods", B), ("recipes composed of them", W)],
     "runtime monitor: merges of random tensors compared elementwise with an independent numpy reference",
     "Relative tolerance 1e-9 in float64 (1e-7 for slerp). slerp of nearly opposite tensors is not judged.")
prop("C21", "TIES, DARE, dropout, model stock, geometric median compute their definitions",
     "ties_sum and its variants trim each delta to its k largest fraction, elect the sign of each element (by count, or by mass with vote_sgn) and average the deltas that agree; model stock scales the average of each row by the ratio "
     "that its cosines define; geometric_median minimizes the sum of distances; dropout and DARE keep each element of each delta with the given probability and rescale, the same seed giving the same result. "
     "The recipes that apply them to models give the base plus alpha times that, using deltas as they are. Shapes are kept.",
     ["inputs", "configurations"],
     "all deltas (shapes, zeros, equal magnitudes), numbers of deltas, and parameters",
     "The tests run ties, model stock and the geometric median on one fixed input each, the random methods not at all.",
     [B, W], [("merge methods", B), ("recipes composed of them", W)],
     "runtime monitor: elementwise numpy references, optimality of medians, and frequencies of the subsets of deltas that explain each element",
     "Probabilities are judged at six standard errors. Overlap of dropout is judged only through subsets and drop rate. Singular model stock ratios are not judged.")
prop("C22", "Region, frequency, rotation and rank methods compute what they define",
     "copy_region takes the rows (or with top_k the rank redistributed elements) in a circular interval of the given width and offset from the second model and the others from the first; crossover mixes low frequencies of one model with high ones of the other; "
     "rotate applies the given power of the orthogonal Procrustes rotation between the neurons of both models, with the same result whether or not a cache is shared; truncate_rank gives an approximation of the wanted rank. Shapes are kept.",
     ["inputs", "configurations", "histories"],
     "all shapes, widths and offsets (negative, wrapping), cuts and tilts, alignments, ranks, and sequences of rotations that share a cache",
     "No test runs these methods.",
     [B, W, "sd_mecha/extensions/builtin/merge_methods/svd.py"], [("merge methods", B), ("orthogonal Procrustes, matrix powers, low rank", "sd_mecha/extensions/builtin/merge_methods/svd.py")],
     "runtime monitor: independent references (circular intervals, full Fourier transforms, closed form rotations and matrix powers, singular values)",
     "Cached rotations are kept in half precision and judged at 0.03. Degenerate rotations are only required to be finite.")
prop("C23", "Masks, selections, cosine and quotient methods, clamp: exact formulas",
     "train_difference_mask, add_opposite_mask, add_strict_opposite_mask, select_max_delta, select_max_white_delta, multiply_quotient, add_cosine_a, add_cosine_b and clamp give the value of their definition for every element, without turning zeros or "
     "constant tensors into nan; copy_distribution gives values of the same mean and deviation. Shapes are kept.",
     ["inputs", "configurations"],
     "all tensors (shapes, zeros, constant, equal, opposite) and parameters given once or per key",
     "No test runs these methods.",
     [B], [("merge methods", B)],
     "runtime monitor: merges of random tensors compared elementwise with an independent numpy reference",
     "Relative tolerance 1e-9; selections within rounding of a tie, and whitening of degenerate tensors, are not judged.")

prop("C19", "Model configs keep their content through YAML, laziness and the registry",
     "A config written by to_yaml is valid YAML with exactly its identifier, components and keys, with their shapes, dtypes, aliases and optionality, in order; from_yaml gives back an equal config. "
     "Configs loaded lazily from a file are the same as those loaded at once. keys(), metadata() and aliases() are the union of the components. "
     "An identifier resolves to the config registered under it; a taken, malformed or unknown identifier is refused.",
     ["inputs", "histories"],
     "all configs (any key name, unknown shapes and dtypes, aliases, optional keys, empty components), the built-in ones included, and sequences of registrations",
     "The tests load the built-in configs only, whose key names and metadata are tame; the writer is not tested.",
     [MC, BC], [("YAML reading and writing", MC), ("lazy configs", MC), ("registry of configs", MC)],
     "runtime monitor: configs compared with an independent YAML reader and a reference registry",
     "The built-in configs are compared with their own YAML files, not with the models they stand for.")
prop("C24", "pick_component, omit_component, exchange_ema and casts act key by key",
     "pick_component gives exactly the keys of the named component of the recipe's config and omit_component exactly the others, together the whole model, each with its value unchanged; an unknown component is refused. "
     "exchange_ema swaps each key with its EMA counterpart and leaves other keys alone; a key whose counterpart the model lacks has no value; applied twice it changes nothing. cast converts every tensor to the dtype or device given by name, "
     "torch value or the get_dtype or get_device of another recipe, as torch does.",
     ["inputs", "configurations"],
     "all configs, built-in ones included, components, missing or renamed keys, nested selections, sub-recipes, and pairs of dtypes",
     "The tests pick no component, exchange no EMA keys and cast nothing.",
     [B, W], [("component and EMA methods, casts", B), ("their recipes", W)],
     "runtime monitor: result keys and tensors compared with the config's components and torch's own conversion",
     "CPU only, so devices are cpu and meta.")
prop("C27", "Paths name the files they should; Defaults only fills in omitted options",
     "A relative model path names the file in the first model directory that has it, else the one in the working directory; an absolute path names itself; symbolic links are followed, and a missing or unsupported file is refused by name. "
     "A relative output goes into the first model directory if one is given, else into the working directory; nothing else is written. Defaults(...).merge(...) and .convert(...) do what merge and convert do with the options of the object, overridden by those of the call.",
     ["configurations", "inputs", "histories"],
     "all layouts of directories and same-named files, path spellings and types, and combinations of options in object and call",
     "The tests use absolute paths only; the options of Defaults are not tested.",
     [M, S], [("path search, options", M), ("files", S)],
     "runtime monitor: tagged files identify what was read; the effects of each option compared between Defaults and plain calls",
     "Of merge_device only the CPU can be observed.")
prop("C30", "A method sees its own key, its own cache, and faithful views of whole models",
     "Each call of a merge method gets the key it computes and the cache that was set on its node (the same object in each call and merge, none if none was set, never another node's). "
     "A StateDict argument acts as a mapping of its recipe: items, get, in, len, iteration and model_config agree with what merging that recipe alone gives, "
     "for other keys too; missing or unknown keys raise StateDictKeyError, which a method can handle and go on.",
     ["inputs", "configurations", "histories", "schedules"],
     "all recipes, models with missing keys, ways of using a view, thread counts and sequences of merges that share caches",
     "The tests pass no StateDict argument through nested recipes, and do not look at what a method receives.",
     [M, MM, R],
     [("evaluation, StateDict views", M), ("calls, caches", MM)],
     "runtime monitor: probe methods record every call and use of a view; a reference merges the argument alone",
     "A cache used by several threads at once is left to the method.")
prop("C26", "Operations leave the state of the process as they found it",
     "Merging, converting, serializing and writing configs leave everything that belongs to the whole process as it was, whether they succeed or fail and however many threads run them: warning filters, logging set-up, YAML dumpers and loaders, "
     "the modes, default dtype and random states of torch and numpy (except that truncate_rank and copy_distribution draw random numbers), environment, working directory, signal handlers, streams, interpreter settings, and the registries of the library.",
     ["histories", "schedules", "inputs"],
     "all sequences of operations, their failures, and interleavings of worker and user threads",
     "The tests look at results only; a setting that is swapped for the time of a call looks restored unless two calls overlap.",
     [S, MC, M], [("reading tensors", S), ("YAML writer", MC), ("merge set-up", M)],
     "runtime monitor: snapshots of process-wide state around operations that run alone, fail, or overlap under injected delays",
     "State that no Python code can read (C library internals) is not observed.")
prop("C25", "A merge holds a few keys at a time, however many keys and models there are",
     "The memory that a merge to a file (or to a mapping that keeps nothing) needs is bounded by the total buffer size and the tensors of the keys being computed: it does not grow with the number of keys, with the number of models that share the buffer, "
     "or with the length of a chain of operations, whichever argument it goes on in; what a finished key used is released before the merge ends. Opening, converting or merging a part of a model does not load the rest.",
     ["inputs", "configurations", "schedules"],
     "all sizes of models, recipes, thread counts, buffer sizes and outputs",
     "The tests use models of a few numbers; a tensor that is kept too long changes no result.",
     [M, S], [("keys as tasks, order of arguments, buffers per file", M), ("read and write buffers", S)],
     "runtime monitor: peak resident memory of forked merges compared between sizes; counts of live intermediate tensors",
     "Judged with a margin of 24 MB or a third of the added data; memory of models given as dictionaries is the caller's.")

prop("C33", "Usable declarations of merge methods are registered, others leave no trace",
     "Declaring a merge method succeeds exactly if all its parameters and its return are declared with supported types, parameters with defaults are in 'param' space, a symbol that it returns is used by a parameter, and the config of its result is known; "
     "a conversion must also be registered, and callable with one positional argument whose config is declared. An accepted method is found under its identifier (by default the function's name) until it is redeclared, unless it asks not to be registered; "
     "convert() uses exactly the conversions accepted so far. A refused declaration raises and changes neither the registered methods nor what convert() can do.",
     ["inputs", "histories"],
     "all signatures and annotations, defects in them, and sequences of declarations and redeclarations of methods and conversions",
     "The tests declare a handful of correct methods and look at no sequence of refused and accepted ones.",
     [MM, CV], [("validation of declarations, registries", MM), ("conversions in use", CV)],
     "runtime monitor: generated declarations against an independent statement of the rules, with registries compared after each step",
     "At most one defect per declaration; the wording of errors is not judged.")

prop("C28", "What a merge reports (warnings, errors, progress) is exactly what happened",
     "With check_finite (the default) a merge warns about exactly the keys of its output that hold infinities or nan, once each. The progress bar counts every key of the merge once, with or without a value, up to its total. "
     "Warnings about unrecognized keys name exactly those of each input that has some; an error about mandatory keys names the input and exactly the keys that it lacks; a recipe that cannot be stored in the output file is announced; "
     "unknown methods, configs and spaces are refused by name with an existing one as suggestion. A merge without irregularities warns about nothing.",
     ["inputs", "configurations", "schedules"],
     "all recipes and models with any values, missing and extra keys, output kinds and dtypes, options and thread counts",
     "The tests never look at warnings or progress.",
     [M, S, MM], [("checks of values and of model keys, progress", M), ("suggestions", MM)],
     "runtime monitor: captured log records, errors and progress calls compared with the inputs and the output",
     "Only names are judged, not the wording of messages.")

prop("C29", "Independent operations that run at the same time do not disturb each other",
     "Merges, conversions, config inference, serialization and YAML in several threads at once, over the same files, tensors, dictionaries, configs and registered methods (each with its own recipe nodes), "
     "give each the result, output file or error that it gives alone.",
     ["schedules", "histories"],
     "all sets of operations, their failures, and interleavings of the threads of the user and of the merges",
     "The tests run one operation at a time.",
     [M, S, MC, CV, SE], [("opened inputs, configs without identifier", M), ("file readers", S), ("lazy configs and caches", MC)],
     "runtime monitor with schedule perturbation: operations in concurrent threads compared with the same operations alone",
     "Recipe nodes that are shared between concurrent merges are excluded: a node holds the state of the operation that uses it. Interleavings are sampled.")
prop("C32", "Model configs never mix: inputs agree with what methods declare, or are refused",
     "A recipe is merged exactly when each input of each of its methods has the config that its parameter declares, or else the declared config of the result, or else the same config as the method's other such inputs; "
     "otherwise it is refused before anything is written, if not when it is built. Inputs without a config, or with 'infer', take the config that their place declares if it fits them. "
     "The config of a recipe is the one its method declares, or that of its inputs; methods see each model under its own config, and the output has the keys of the recipe's config.",
     ["inputs", "configurations", "programs"],
     "all graphs of methods with declared or undeclared parameter and return configs, over models, files, dictionaries of recipes and per key numbers with explicit, missing or inferred configs",
     "The tests use one config per recipe; a check that is missing for one kind of parameter or argument mixes keys of different architectures silently.",
     [MM, R, M], [("config of a call", MM), ("config of a dictionary of recipes", R), ("inference when a merge opens its inputs", M)],
     "runtime monitor: generated declarations and inputs against an independent statement of the rule, with probe methods that record the configs they receive",
     "Models that fit several configs equally well in a place that declares none, and recipes whose result has no determined config, are not judged.")


prop("C31", "The scripts and examples of the repository do what they say",
     "yaml_from_safetensors writes <identifier>.yaml into the working directory, a config with exactly the keys of the model file, with their shapes and dtypes, and refuses malformed identifiers; dump_keys prints each key of a file once; "
     "convert_ckpt_to_safetensors writes a valid file with exactly the tensors of the checkpoint (wrapped in a 'state_dict' or not, shared or not contiguous), bit for bit, or fails and leaves the output as it was. "
     "None of them changes its input or writes anything else. The examples run on models of the names that they mention and give the merges that they describe.",
     ["inputs"],
     "all model files and checkpoints, with any dtypes, shapes, layouts in memory and key names",
     "No test runs the scripts or examples.",
     ["scripts/yaml_from_safetensors.py", "scripts/convert_ckpt_to_safetensors.py", "examples/basic_merge.py"],
     [("config of a file", "scripts/yaml_from_safetensors.py"), ("conversion of checkpoints", "scripts/convert_ckpt_to_safetensors.py")],
     "runtime monitor: the scripts run in forked processes over generated files; an independent reader compares what they wrote with what they were given",
     "Examples with random results are judged by keys and shapes only; what a script prints besides is not judged.")

prop("C34", "A merge computes in merge_dtype and gives its values in output_dtype",
     "Every tensor that the models, dictionaries, tensors, numbers, recipes per key and fallbacks of a recipe give reaches the methods that use it converted once to merge_dtype, whatever the stored dtype and wherever it is used: "
     "as positional, keyword only or variable argument, under its own or another key of a whole model, shared or deep in the recipe. What a method returns reaches the next one unchanged, and an explicit cast holds from where it stands. "
     "Each value of the output, in memory or in a file, is the value of the recipe converted once to output_dtype; None leaves dtypes alone, and omitted options mean float64 and float16.",
     ["inputs", "configurations", "programs"],
     "all graphs, ways to give inputs, stored dtypes and values, merge and output dtypes, and outputs",
     "The tests merge tensors of one dtype and never look at what the methods receive.",
     ["sd_mecha/merging.py", "sd_mecha/recipe_nodes.py", B],
     [("casts of the inputs and the result", "sd_mecha/merging.py"), ("conversion of arguments", "sd_mecha/merging.py"), ("cast", B)],
     "runtime monitor: probe methods record every tensor that they receive in random graphs, compared in dtype and bits with an independent evaluation",
     "The only device of the sandbox is the cpu. Numbers are judged when they are exact in float32.")

prop("C35", "Model files are read through the one registered format that matches them",
     "Every model of a recipe is read through the one registered format that matches its path, wherever the path leads and however many formats and models there are: each file is opened once per merge, and its reader is closed when the merge ends, also in failure. "
     "A path that no format matches, or several, is refused by name before any output is touched; the error of a format that cannot open its file is raised. "
     "A format is found under its identifier (by default the name of its class) from its declaration on; taken identifiers and things that are no classes are refused and change nothing.",
     ["inputs", "configurations", "histories"],
     "all sets of registered formats, recipes that mix them, paths, and histories of declarations",
     "The tests read safetensors files only, and register no format.",
     ["sd_mecha/extensions/model_formats.py", "sd_mecha/merging.py"],
     [("registry of formats", "sd_mecha/extensions/model_formats.py"), ("choice of the format, sharing of readers", "sd_mecha/merging.py")],
     "runtime monitor: formats of the check's own record each open, read and close in random mixed recipes; the tensors tell what was read",
     "A format's reader has the interface of the built-in one. Writing uses safetensors only, as the code does.")


def main():
    known = {p[0]["id"] for p in PROPS}
    have = {p.stem.upper() for p in (HERE / "props").glob("c*.py")}
    assert known <= have, known - have
    with open(HERE / "properties.jsonl", "w") as f:
        for p, _, _ in PROPS:
            f.write(json.dumps(p) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --setup",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"python3 check.py {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
            "technique": technique,
            "level": "exploration",
            "level_note": note,
        } for p, technique, note in PROPS],
        "not_applicable": [],
        "notes": "Pure Python: the checks import the code from /repo's working tree; nothing is built. No hooks are needed in /repo.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    print(len(PROPS), "properties;", sorted(have - known), "without entry")


if __name__ == "__main__":
    main()
