"""Single source of properties.jsonl (the texts) and MANIFEST.json (the claims). Run tools/gen.py after editing."""

S = "sd_mecha/streaming.py"
M = "sd_mecha/merging.py"
R = "sd_mecha/recipe_nodes.py"
Z = "sd_mecha/serialization.py"
MM = "sd_mecha/extensions/merge_methods.py"
MC = "sd_mecha/extensions/model_configs.py"
BM = "sd_mecha/extensions/builtin/merge_methods/__init__.py"
BC = "sd_mecha/extensions/builtin/model_configs"
LY = "sd_mecha/extensions/builtin/lycoris.py"
W = "sd_mecha/merge_method_wrappers.py"
H = "sd_mecha/helpers.py"
CV = "sd_mecha/conversion.py"

TESTS = "The existing tests cover value coercion and three merge methods only"

P = []


def prop(id, title, statement, over, quantifier, why, files, mechanism, technique, level_note, level="model_checking", observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quantifier=quantifier, why=why, files=files,
                  mechanism=mechanism, technique=technique, level_note=level_note, level=level, observe=list(observe)))


# ---------------------------------------------------------------- streaming
prop("S01", "A saved model file holds exactly the tensors written to it",
     "Saving tensors to a .safetensors output produces a well-formed file whose names, dtypes, shapes and bytes are exactly those of the values written, plus the given recipe text as metadata. "
     "This holds for every supported dtype, shape, memory layout (transposed, sliced, expanded, offset views), write order and buffer size, and also when the space reserved for the header turns out too small.",
     ["inputs", "histories", "configurations"],
     "all sequences of up to 3-4 tensor writes over a catalogue of dtypes, shapes and layouts x buffer sizes x declared headers",
     TESTS + ": nothing saves a file; a sample cannot cover the product of layouts, buffer boundaries and header sizes.",
     [S, M], [("per-thread buffering and flush", S + " output dict"), ("header reservation, relocation and finalisation", S + " close"), ("tensor to bytes", S)],
     "exhaustive enumeration of bounded write histories on the real writer, against a strict reference parser of the format",
     "Every write history within the stated bounds is executed on the real writer and the bytes on disk are parsed by an independent strict parser (and by the safetensors library). Holds within those bounds.")

prop("S02", "Concurrent writers never corrupt the output file",
     "When several threads write tensors to the same output concurrently, the finished file is well-formed and holds every tensor exactly once with its exact dtype, shape and bytes. "
     "This holds for every interleaving of the threads and every buffer size.",
     ["schedules", "configurations"],
     "all line-level interleavings of 2-3 writer threads up to a preemption bound, x buffer sizes x per-thread write sequences",
     TESTS + "; no test runs two threads, and a test samples one schedule of the many that matter.",
     [S], [("writer lock around flush", S), ("per-thread state", S)],
     "stateless model checking of the real code under a controlled scheduler (preemption-bounded, exhaustive)",
     "Real threads, one running at a time, switched at every line of the streaming module; every schedule within the preemption bound is executed. Assumes line granularity (plus all blocking operations) exposes the races.")

prop("S03", "Reading a model file is exact for any access pattern",
     "Reading tensors of a .safetensors model in any order, any number of times and with any buffer size returns exactly the stored dtype, shape and bytes, and the reported names and metadata are exactly those of the file. "
     "A tensor already returned never changes because of later reads, a name that is absent raises the missing-key error, and memory held for reading stays within the larger of the buffer size and the largest tensor.",
     ["histories", "inputs", "configurations"],
     "all access sequences up to a depth over files of several layouts x all buffer sizes around every boundary",
     TESTS + ": nothing opens a file; reuse of the read buffer is wrong only for particular sequences and sizes.",
     [S], [("read-ahead window", S + " input dict"), ("header parsing", S)],
     "explicit enumeration of all access histories of the real reader, with canonical buffer states, against the file's bytes",
     "All histories up to the depth are executed on the real reader. Bounded by file catalogue and depth.")

prop("S04", "Concurrent readers of one model file get exact tensors",
     "When several threads read tensors from the same opened model concurrently, each gets exactly the stored value of what it asked for, in every interleaving and at every buffer size, and no value changes after being returned.",
     ["schedules", "configurations"],
     "all line-level interleavings of 2-3 reader threads up to a preemption bound x access sequences x buffer sizes",
     TESTS + "; no test reads from two threads.",
     [S], [("reader lock", S)],
     "stateless model checking of the real code under a controlled scheduler (preemption-bounded, exhaustive)",
     "As S02, for the reader.")

prop("S05", "An interrupted or failed save never passes for a complete model",
     "If the process stops at any point while a merge is being saved, or the merge fails, the file at the output path either cannot be opened as a model or holds every tensor of the result exactly.",
     ["crash_points", "fault_sequences", "schedules"],
     "every prefix of the sequence of file operations of a save, with every torn cut of each write (small) or byte-range corner cuts; every key at which the merge can fail",
     TESTS + "; no test stops a save part-way.",
     [S, M], [("header written last", S + " close"), ("output finalisation", M)],
     "exhaustive enumeration of crash points (with torn writes) over the recorded operation log of the real writer",
     "Crash images are all prefixes of the log of file operations (process-crash model: no reordering by the OS, operations of one file are ordered). Each image is opened with the project's own reader, a strict parser and the safetensors library.",
     level="fault_enumeration")

prop("S06", "Short or failing I/O and damaged inputs never corrupt silently",
     "If a read or write transfers fewer bytes than asked, fails, or an input model file is truncated, the operation either still yields exactly the right tensors or raises an error. It never returns or saves wrong data.",
     ["fault_sequences", "inputs"],
     "every single (and, thorough, every pair of) injected short transfer or error at every file operation of reads, saves and merges; every truncation length of small input files",
     TESTS + "; no test injects a fault.",
     [S, M], [("raw file I/O", S)],
     "exhaustive single- and double-fault injection at every file operation of the real code",
     "Faults are injected at the Python file layer, at every operation index, for every listed kind. Kernel behaviour beyond that layer is not modelled.",
     level="fault_enumeration")

# ---------------------------------------------------------------- merging
prop("M01", "A merge computes the recipe key by key, however it is executed",
     "For every recipe, the output of a merge is, key by key, the value obtained by applying the recipe's methods to that key's inputs. "
     "The result is the same whether models come from memory or files, whatever the number of threads, buffer sizes, shared sub-recipes and output kind (dictionary or file).",
     ["programs", "configurations", "inputs"],
     "all recipes up to a depth over a grammar of methods and inputs x thread counts x input kinds x buffer sizes x output kinds",
     TESTS + "; no test runs a merge at all.",
     [M, R, BM], [("per-key evaluation", M), ("casting of inputs and outputs", M), ("state-dict views for methods", M)],
     "exhaustive enumeration of bounded recipe programs, the real merge against an independent reference interpreter",
     "Every recipe of the grammar up to the bound is run through the real merge in every execution configuration, and compared exactly with a small reference interpreter.")

prop("M02", "The result of a merge does not depend on thread scheduling",
     "For every scheduling of the worker threads a merge terminates (no deadlock) and gives the same output, including which keys are present, as the sequential merge.",
     ["schedules"],
     "all line-level interleavings, up to a preemption bound, of merges with 2-3 worker threads over shared inputs, state-dict methods, caches, lazily loaded configs and file outputs",
     "Tests run no merge; a passing threaded run witnesses one schedule.",
     [M, S, MC], [("thread pool submission and completion", M), ("shared readers and writer", S), ("lazy configs", MC)],
     "stateless model checking of whole merges under a controlled scheduler (preemption-bounded, exhaustive)",
     "Real merge with its real thread pool on cooperative primitives. Preemption points are lines of the project's own modules; standard library code is only switched at blocking points.")

prop("M03", "Errors surface; only a missing key skips a key",
     "If computing any key raises an error other than the missing-key error, the merge raises that error, for every scheduling and number of threads, and never returns a result. "
     "The missing-key error only omits that one key from the output, and it is never mistaken for success of another key.",
     ["schedules", "fault_sequences", "programs"],
     "every assignment of outcomes (value, missing key, error kinds) to keys and operands x method shapes x thread counts, and all bounded schedules for the small ones",
     TESTS + "; errors are never exercised, in particular not from worker threads.",
     [M], [("future inspection and cancellation", M), ("error holder of operand evaluation", M)],
     "exhaustive fault assignment to every (key, operand) plus schedule exploration of failing merges",
     "All outcome assignments for up to 3 keys and 2 operands; schedules within the preemption bound.")

prop("M04", "Model files are closed and no thread remains after an operation",
     "After a merge, a conversion or an explicit opening of a recipe's inputs ends, successfully or by any error at any stage, every model file it opened is closed and no worker thread is left running. "
     "The recipe can be merged again afterwards with the same result.",
     ["fault_sequences", "histories"],
     "every stage of failure (each file open, each read, config inference, mandatory-key check, space check, method error, output error, progress-bar error) x recipe shapes x repetition",
     TESTS + "; resource release on error paths is never observed.",
     [M, CV], [("input opening/closing visitors", M), ("executor shutdown", M)],
     "exhaustive enumeration of failure points of the real operations, observing file descriptors and threads",
     "Descriptors and threads are observed in the OS (/proc/self/fd, threading). Failure points are enumerated by index until the operation succeeds.",
     level="fault_enumeration")

prop("M05", "The output has exactly the keys the options ask for",
     "The keys of a merged model are exactly those of the recipe's model config that the recipe can produce, plus, if extra keys are not to be omitted, the keys (unrecognised or not produced) that only the input models in the config and merge space of the output have, which are forwarded; minus EMA keys if these are omitted. "
     "Keys given under an alias are found, a fallback model supplies exactly the keys the recipe lacks, and if mandatory keys are checked a model lacking one is rejected and no other is.",
     ["inputs", "configurations", "programs"],
     "all subsets of keys (mandatory, optional, aliased, ema, unknown) in one and two models x omit_extra_keys x omit_ema x check_mandatory_keys x fallback x recipe shapes",
     TESTS + "; the key logic is never executed.",
     [M, MC, BM], [("extra key forwarding", M), ("ema omission", M), ("alias lookup", M), ("mandatory check", M), ("fallback", BM)],
     "exhaustive enumeration of key subsets and options, the real merge against a set-theoretic reference",
     "Complete over subsets of a small synthetic config covering every kind of key, plus the builtin configs at their full size for selected recipes.")

prop("M06", "Operations do not depend on what ran before in the process",
     "The result of merging, converting or serializing a recipe depends only on that recipe, its inputs and options: any earlier operations in the same process, successful or failed, leave later results unchanged. "
     "Registered model configs and merge methods are never altered by using them.",
     ["histories"],
     "all sequences of up to 3-4 operations from a catalogue of merges, conversions, failures and queries, each compared with the same operation in a fresh process",
     TESTS + "; they run each operation once.",
     [M, MC, CV], [("config caches", MC), ("model config attributes of nodes", M)],
     "explicit-state exploration of operation histories with fingerprinted results and registry state",
     "All sequences up to the depth; results are compared with those of a fresh process (forked before any operation).")

prop("M07", "A merge never modifies its inputs",
     "Merging leaves the user's in-memory tensors and state dicts and the input files exactly as they were, for every merge method, parameter, dtype option and device option, and likewise when the merge fails.",
     ["programs", "inputs", "configurations"],
     "every public merge method and wrapper x argument kinds (shared or distinct inputs) x parameter corner values x merge/output dtype options including none",
     "Tests compare return values only and never check inputs.",
     [BM, W, M], [("methods returning or updating operands", BM), ("input casting", M)],
     "exhaustive enumeration of methods, parameters and dtype configurations with byte-exact input fingerprints",
     "All registered public methods with small tensors; byte-exact comparison of every input before and after.")

prop("M08", "Computation and output happen in the requested dtypes",
     "Methods compute on tensors of the requested merge dtype, every tensor of the output has the requested output dtype and device, and when a dtype option is None the inputs' own dtype is kept. "
     "This includes keys that are merely forwarded, supplied by a fallback model or given as numbers.",
     ["configurations", "programs", "inputs"],
     "input dtypes x merge dtypes (or none) x output dtypes (or none) x recipe shapes x memory/file inputs and outputs",
     TESTS + "; no dtype option is ever exercised.",
     [M, BM, R], [("cast of inputs", M), ("cast of output", M)],
     "exhaustive enumeration of dtype configurations observed from inside a probe method and at the output",
     "Complete over the dtype table at small sizes; the reference is a direct conversion chain computed independently.")

prop("M09", "Parameters reach methods with the declared type and exact value",
     "Numbers, booleans, strings, dictionaries per key and tensors passed as parameters reach the merge method exactly as given, converted only to the parameter's declared type, for every key and every merge dtype. "
     "Converting a parameter never loses information that the declared type can hold, and omitted parameters take the declared default.",
     ["inputs", "configurations", "programs"],
     "declared types x passed kinds (number, per-key dictionary, nested recipe, default) x value corner cases x merge dtypes",
     TESTS + "; they only build nodes and never deliver a parameter to a method.",
     [M, MM, BM], [("value casting", M), ("parameter wrapping", MM)],
     "exhaustive enumeration of declared type x given value x dtype option, observed inside a probe method",
     "Complete over the stated value catalogue (including large integers and non-finite floats).")

prop("M10", "Merging streams: memory held does not grow with the number of keys",
     "While merging to a file, the tensors alive at any moment are bounded by the number of worker threads and the recipe's size, not by the number of keys in the models, and every intermediate of a finished key is released.",
     ["schedules", "inputs"],
     "models of increasing numbers of keys x recipe shapes x thread counts, counting live tensors at every method call",
     TESTS + "; memory growth is not observable from results.",
     [M, S], [("per-key futures", M), ("write buffers", S)],
     "exhaustive enumeration of recipe shapes and sizes with an instrumented count of live tensors",
     "Counts live tensor objects at every method invocation for growing models and requires the count not to grow.")

prop("M11", "The buffers of a merge stay within total_buffer_size",
     "The read and write buffers of all the model files of a merge, inputs and output together and over all worker threads, never add up to more than the given total_buffer_size. "
     "The only exception is a file whose share is too small for one of its tensors, whose buffer is then as large as that tensor. Every model file a recipe refers to counts, wherever in the recipe it appears.",
     ["configurations", "programs", "inputs"],
     "recipe shapes over 1-4 files x file layouts (tensors below, at and above the share) x budgets around every boundary x thread counts x memory/file output",
     TESTS + "; no test passes a buffer size.",
     [M, S, R], [("division of the budget over files and threads", M), ("counting the files of a recipe", R + " ModelsCountVisitor"), ("buffers of one file", S)],
     "exhaustive enumeration of recipes, layouts and budgets on the real merge, measuring every raw read and write at an interposed file layer",
     "Complete over the stated product; a buffer is observed as the largest single raw transfer of its file.")

prop("M12", "Warnings and progress report exactly what happened in a merge",
     "When finite checking is on (the default), a warning names each key whose output value is not finite and no other key; when it is off there is none. When extra keys are omitted a warning names every unrecognised key of the inputs and no known key. "
     "The error for missing mandatory keys names them, a file saved without its recipe is warned about, and the progress bar ends exactly at its total, the number of keys merged, whatever the number of threads.",
     ["inputs", "configurations"],
     "non-finite and overflowing values x keys x dtypes x recipes x options; all small key sets x option combinations; recipe shapes x thread counts",
     TESTS + "; no test looks at a log record or a progress bar.",
     [M], [("output check and progress", M + " tracking of outputs"), ("key checks", M + " check_model_config")],
     "exhaustive enumeration of inputs and options with captured log records and a recording progress bar, against set definitions",
     "Complete over the stated alphabet; only whether a key is named is judged, not the wording.")

# ---------------------------------------------------------------- API
prop("A01", "Calling a merge method binds arguments as Python would",
     "For every method signature, calling it with positional, keyword, default and variable arguments builds a recipe whose operands are those Python's own binding would give. "
     "Calls Python would reject as ill-formed (missing, surplus, duplicate or unknown arguments) raise TypeError.",
     ["programs", "inputs"],
     "all signatures with up to 3 positional, defaulted, variadic and keyword-only parameters x all call shapes up to a size",
     TESTS + "; argument binding is only exercised through one call shape per method.",
     [MM], [("create_recipe", MM)],
     "exhaustive enumeration of signatures and call shapes against Python's own signature binding",
     "Complete over the bounded signature and call grammar; the oracle is inspect.Signature.bind.")

prop("A02", "Merge spaces are inferred and enforced by the declared rules",
     "A recipe is accepted exactly when each operand's merge space satisfies the declaration of its parameter, with shared symbols resolved consistently, and its own merge space is the declared or inferred one. "
     "Operators (+, -, |) and wrappers build recipes consistent with these rules, and a strict merge refuses recipes that do not end in weight space.",
     ["programs", "configurations"],
     "all method signatures over a set of space declarations with up to 3 parameters x all assignments of operand spaces; builtin methods x all operand spaces",
     TESTS + "; only ready-made signatures are used.",
     [MM, R, M, W], [("get_return_merge_space", MM), ("operators", R)],
     "exhaustive enumeration of signatures and operand space assignments against a declarative reference",
     "Complete over signatures with up to 2 (quick) or 3 (thorough) parameters and all spaces.")

prop("A03", "Model configs are inferred and enforced across a recipe",
     "Operands with conflicting model configs are rejected and compatible ones give the recipe the config the method declares or, if it declares none, that of its operands. "
     "Configuration conversions have exactly their declared input and output configs.",
     ["programs", "configurations"],
     "all signatures over config declarations with up to 3 parameters x all assignments of operand configs",
     TESTS + ".",
     [MM, M], [("get_return_config", MM), ("config determination when opening inputs", M)],
     "exhaustive enumeration of signatures and operand configs against a declarative reference",
     "Complete over the bounded signature grammar.")

prop("A04", "Merge method declarations are accepted exactly when well-formed",
     "Declaring a merge method succeeds exactly when every parameter and the return value are declared with Parameter(...) and Return(...) of supported types and known merge spaces and configs, parameters with default values are in 'param' space, and the output's config and merge-space symbol can be taken from the inputs. "
     "A conversion must also be registered and have exactly one positional parameter and explicit input and output configs; convert then uses it. A refused declaration leaves the registered methods and conversions as they were.",
     ["programs", "histories", "configurations"],
     "all signatures of up to 2-3 parameters over a catalogue of annotations, kinds and defaults x return declarations x decorator options; all short sequences of conversion declarations",
     TESTS + "; they declare a handful of well-formed methods.",
     [MM, CV], [("validation of signatures", MM), ("validation and registration of conversions", MM), ("graph of conversions", CV)],
     "exhaustive enumeration of declarations and declaration histories against the stated rules, with the registries compared before and after",
     "Complete over the catalogue; what is left unstated (one positional plus a variadic parameter, keyword parameters without default in conversions) is not judged.")

prop("E01", "Identifiers resolve to what was registered; one format reads each file",
     "What is registered under an identifier is what that identifier resolves to. Registering a merge space, model format or model config under a taken identifier raises ValueError and changes nothing, unknown identifiers raise ValueError wherever they are given, and a merge method defined again replaces the earlier definition for later recipes only. "
     "A model file is read by the one registered format that matches it; if none or several match, RuntimeError is raised and the file is not read.",
     ["histories", "configurations"],
     "all sequences of up to 4-5 register/resolve operations on each registry; every builtin identifier; all sets of up to 2-3 formats x files x operations",
     "No test registers anything twice or adds a format.",
     ["sd_mecha/extensions/merge_spaces.py", "sd_mecha/extensions/model_formats.py", MC, MM, M], [("registries", "sd_mecha/extensions"), ("choice of the format", M)],
     "explicit-state exploration of all registry histories against a reference dictionary, and exhaustive enumeration of format sets and files",
     "Complete within the stated depth, each history in a process of its own.")


# ---------------------------------------------------------------- serialization
prop("R01", "Serialized recipes deserialize to the same recipe",
     "For every recipe that can be serialized, deserializing the text gives a recipe with the same structure, methods, values and types, model paths, model configs and merge spaces, and serializing that again gives the same text. "
     "A recipe that cannot be represented is refused rather than written wrongly.",
     ["programs", "inputs"],
     "all recipes up to a depth over a grammar with every literal kind, awkward strings (quotes, backslashes, newlines, '=', '#', '&'), numbers (huge, inf, nan), dictionaries, shared nodes, configs and spaces",
     "No test serializes anything.",
     [Z, R], [("serializer", Z), ("parser", Z)],
     "exhaustive enumeration of bounded recipes through the real serializer and parser, against structural equality",
     "Complete over the grammar and value catalogue up to the depth.")

prop("R02", "The recipe stored in a merged file reproduces that file",
     "A merge saved to a file embeds the text of the recipe as given; deserializing the embedded text and merging it again with the same options gives the same model, also when the recipe was merged or converted before.",
     ["programs", "histories"],
     "recipes over a grammar x configs (explicit, inferred, structural) x prior operations on the same recipe object",
     "No test saves or reads a recipe.",
     [Z, M, S], [("metadata embedding", M), ("serializer", Z)],
     "exhaustive enumeration of bounded recipes and prior histories, merge - extract - merge again",
     "Complete over the grammar; byte-exact comparison of the two merged results.")

prop("R03", "Recipe text is parsed by its grammar or rejected with an error",
     "Any recipe text is either accepted with the meaning the format gives it or rejected with an error; a reference out of range, an unknown command, method, config or merge space, a bad version or unbalanced quotes are never accepted. "
     "Text given as one string, as a list of lines and as a file means the same.",
     ["inputs"],
     "all texts of up to 3 lines from a token grammar, and all single-token and single-character edits of valid recipes",
     "No test parses a recipe.",
     [Z], [("tokenizer", Z), ("argument parsing", Z)],
     "exhaustive enumeration of bounded texts and of all single edits, the real parser against a reference parser",
     "Complete over the stated token grammar; the reference parser is written independently from the format.")

# ---------------------------------------------------------------- configs
prop("C01", "Config conversions map every key, to one source each, with its shape",
     "Each builtin conversion, fed a complete model of its source config, produces every key of the target config that the source format represents, with the target's shape and with the content of the corresponding source tensors, and reads only keys that exist in the source config. "
     "Distinct target keys come from distinct source data, and every source tensor the target can represent is used.",
     ["inputs", "configurations"],
     "every key of every builtin config x every registered conversion, on models with unique content per tensor",
     "No test runs a conversion; each has hundreds to thousands of keys mapped by string rewriting.",
     [BC, LY], [("key rewriting of the conversions", BC)],
     "exhaustive enumeration of all keys of all conversions with provenance tracking",
     "All keys of all conversions, executed with small provenance-tagged tensors; shapes are checked with meta tensors of the configs' true shapes.")

prop("C02", "convert finds a shortest chain of conversions, or raises ValueError",
     "Converting a recipe between two model configs composes a shortest chain of registered conversions from its config to the requested one, however these are registered, and is the identity if they are equal. A plain dictionary is converted from the config its keys fit best, among those with a chain. "
     "If there is no such chain, or the recipe has no definite config, it raises ValueError and changes nothing.",
     ["configurations", "inputs", "histories"],
     "all conversion graphs with up to 4 nodes x all start and goal pairs x recipe kinds (path, dictionary, recipe, config given as name, object or recipe)",
     "No test converts anything; the registry has a single fixed graph.",
     [CV], [("path search", CV)],
     "exhaustive enumeration of conversion graphs, the real search against breadth-first reference distances",
     "All directed graphs on up to 3 (quick) or 4 (thorough) configs.")

prop("C03", "LoRA models convert to the exact weight difference they encode",
     "Converting a LoRA model to its base config gives, for every adapted base key, the delta alpha/rank times the composition of up and down weights, for linear, 1x1 and spatial convolution layers and any rank, and leaves every other key absent. "
     "Both supported naming schemes are recognised and applied to every base model config.",
     ["inputs", "configurations"],
     "every base config x naming scheme x every base key; all small layer shapes, ranks and alpha values",
     "No test touches LoRA.",
     [LY, CV], [("LoRA key naming", LY), ("composition", LY)],
     "exhaustive enumeration of configs, keys, layer shapes and ranks against a direct tensor contraction",
     "All keys for names; all small shapes for values; exact reference by explicit summation.")

prop("C04", "A model's config is inferred correctly from its keys",
     "A complete model of any registered config is recognised as that config, also when keys appear under their aliases or some extra keys are present, and an explicitly given config is respected. "
     "A partial model is that of the config most of its keys belong to. A model that matches no config, or several equally well, is treated structurally, with exactly its own keys.",
     ["inputs", "configurations"],
     "every registered config x alias substitutions x missing or extra key patterns x hint kinds",
     "No test infers a config.",
     [M, MC], [("inference heuristic", M), ("config determination", M)],
     "exhaustive enumeration over all registered configs and key-set perturbations",
     "All registered configs; perturbations from a stated catalogue.")

prop("C05", "Model configs survive being written to YAML and read back",
     "Every registered model config, and every valid config a user can define, is written to YAML and read back with the same identifier, components, keys, shapes, dtypes, aliases and optional flags. "
     "User-defined configs can be registered and used for inference and merging exactly like builtin ones, and invalid or duplicate identifiers are rejected.",
     ["inputs", "configurations"],
     "all registered configs, and all small configs over a grammar of shapes, dtypes, aliases and flags",
     "No test writes or registers a config.",
     [MC], [("to_yaml / from_yaml", MC), ("registry", MC)],
     "exhaustive enumeration of bounded configs through the real writer and reader",
     "Complete over the bounded grammar and all builtin configs.")

prop("C06", "Block weights apply to exactly the keys of their block",
     "A dictionary of per-block weights converted to a full config gives each key the weight of the block it belongs to, for every key of the config, and blocks left out are reported missing rather than defaulted silently. "
     "Merging with block weights is the same as merging each key with its block's weight.",
     ["inputs", "configurations"],
     "every key of the block-weighted configs x every block",
     "No test uses block weights.",
     [BC], [("block mapping", BC)],
     "exhaustive enumeration of all keys and blocks against an independent block table",
     "All keys of both block conversions.")

# ---------------------------------------------------------------- methods
prop("X01", "Arithmetic and interpolation methods compute their formulas",
     "Weighted sum, slerp, add difference, subtract, perpendicular component, geometric sum, cosine additions, masks, multiply-quotient, clamp, crossover and max-delta selection give the values of their defining formulas for every finite operand and every parameter value, including end points, per-element and per-key weights, zero and parallel operands (a quotient 0/0 inside a mask, and the component perpendicular to a zero tensor, are zero). "
     "At interpolation end points weighted sum and crossover return the corresponding input exactly, the others up to rounding; sums and differences of non-finite operands follow IEEE arithmetic.",
     ["inputs", "programs"],
     "all tensors over a small value alphabet and shapes x parameter grids including end points and out-of-range values",
     TESTS + "; arithmetic methods have none.",
     [BM, W], [("method bodies", BM)],
     "exhaustive enumeration of small tensors over a value alphabet against scalar reference formulas",
     "Complete over the alphabet and shapes; compared with independently written double-precision formulas.")

prop("X02", "Region and selection methods select exactly the stated elements",
     "Region copies take exactly the stated contiguous fraction of the leading dimension from the second model (borders rounded to the nearest element) and the rest from the first, wrapping around for every width and offset. "
     "Top-k copies move exactly the elements whose magnitude rank is in the stated fraction; TIES trimming keeps exactly the elements whose magnitude reaches the one of rank int((1-k)*n) from below (at least the smallest), and zeroes the others. "
     "Rank truncation gives a tensor of at most the stated rank, a projection close to the best approximation, and leaves tensors alone when the full rank is kept.",
     ["inputs"],
     "all sizes up to a bound x grids of widths and offsets (negative, wrapping, larger than one) x small tensors with ties",
     TESTS + "; region methods have none.",
     [BM, W], [("ratio to region", BM), ("top-k filters", BM)],
     "exhaustive enumeration of sizes, widths, offsets and small tensors against an index-set reference",
     "Complete over the grids.")

prop("X03", "Consensus methods agree with their definitions on every input",
     "Averages, geometric median, TIES in its variants (trim, elect signs, average what agrees), DARE/dropout and model stock (of two or more models, compared consecutively) give the values of their definitions for any number of models, including a single model, duplicates, zeros and sign conflicts. "
     "Except for model stock they do not depend on the order of the models. Randomised methods depend only on a given seed, each element they give is the (TIES) merge of the kept elements rescaled as declared, and a probability of 0 or 1 keeps or drops everything.",
     ["inputs", "configurations"],
     "all tuples of small tensors over a value alphabet x option combinations x seeds; all permutations of models",
     "One example per method in three tests; options such as median, stock, dropout and seeds are untested.",
     [BM, W], [("ties", BM), ("dropout", BM), ("geometric median", BM)],
     "exhaustive enumeration of small operand tuples and option combinations against reference definitions",
     "Complete over the alphabet for 1-3 models; iterative methods compared within tolerance.")

prop("X04", "Component selection and fallback route each key as stated",
     "Picking or omitting a component keeps exactly that component's keys or exactly the others, falling back takes a key from the first model that has it and only consults the second otherwise, and exchanging EMA weights swaps each weight with its EMA counterpart and is its own inverse.",
     ["inputs", "configurations", "programs"],
     "every key of every registered config and every component; all key-presence patterns",
     "No test uses these methods.",
     [BM, "sd_mecha/extensions/builtin/merge_methods/ema.py"], [("component methods", BM), ("ema mapping", "sd_mecha/extensions/builtin/merge_methods/ema.py")],
     "exhaustive enumeration of keys, components and presence patterns against set definitions",
     "Complete over all builtin configs' keys and a synthetic config's presence patterns.")

prop("X05", "Every public method and wrapper runs end to end as documented",
     "Every public merge method and wrapper can be called with its documented parameters and their defaults, merged, serialized and deserialized, and gives a finite tensor of the operands' shape; wrappers equal the composition of methods they document.",
     ["programs", "configurations"],
     "every registered method and public wrapper x every optional parameter at default and alternative values x tensor ranks 0-4",
     "Three methods of about fifty are tested, called directly and not through a merge.",
     [BM, W, "sd_mecha/__init__.py"], [("wrappers", W)],
     "exhaustive enumeration of public methods, optional parameters and tensor ranks through the real merge",
     "Complete over methods, single-parameter alternatives and ranks.")

prop("X06", "Rotation aligns, interpolates end points exactly, and caching is neutral",
     "Rotating one model onto another returns the second's relation at full alignment and the first at none, by an orthogonal transformation of its centred neurons in between, and merging again with a cache filled by an earlier merge gives the same result up to the precision of the cache.",
     ["inputs", "histories"],
     "all small neuron matrices over an alphabet x alignment and alpha grids x histories of cache use",
     "No test uses rotation or caches.",
     [BM, "sd_mecha/extensions/builtin/merge_methods/svd.py", W], [("rotation", BM), ("procrustes, fractional power and cache", "sd_mecha/extensions/builtin/merge_methods/svd.py")],
     "exhaustive enumeration of small matrices, parameters and cache histories against numpy references",
     "Complete over the alphabet; floating-point tolerance.")

# ---------------------------------------------------------------- helpers
prop("D01", "Default settings apply unless overridden, and equal explicit options",
     "An operation through a set of defaults equals the plain operation given, for each option, the value passed in the call if any, otherwise the value in the defaults if any, otherwise the library's default.",
     ["configurations"],
     "every option x {unset, set in defaults, set in the call, set in both}, singly and in pairs",
     "No test uses the defaults helper.",
     [H], [("option resolution", H)],
     "exhaustive enumeration of option settings with recorded effects against the plain operation",
     "Complete over single options and pairs.")

prop("D02", "Relative paths resolve to the intended files",
     "A relative model path is read from the first of the given model directories that contains it, otherwise relative to the working directory, absolute paths are used as they are, and a relative output is written to the first model directory. "
     "Directories may be given as strings or paths, singly or as any iterable, with the same meaning in merging, converting and defaults.",
     ["inputs", "configurations"],
     "all subsets of locations holding the file x path kinds x directory argument kinds x operations",
     "No test resolves a path.",
     [M, H, CV], [("path resolution", M), ("directory normalisation", H)],
     "exhaustive enumeration of file placements and argument kinds against a reference resolver",
     "Complete over up to two model directories and the working directory.")
