prop("C18", "Configs parse to exactly the sections and values written",
 "Parsing a config text gives exactly the sections, keys and values it denotes, in their written order and with their types: strings with escapes, integers and floats in every notation, booleans, null, colors and vectors, automatic key counters, inline math and included configs, with any spacing and comments. When the text is malformed, everything before the error is still there and nothing after it appears.",
 ["inputs","configurations"], "all config texts of the grammar, nested and including other files, with and without one malformation",
 "The unit test parses one file and prints it; notations, counters, math, includes and errors are hardly combined.",
 ["cfg/cfg.c","cfg/cfg.h"], [("section, key and value parsers","cfg/cfg.c"),("include and math directives","cfg/cfg.c")],
 "Texts are assembled next to the model tree they denote, files lie in a private scratch directory; includes nest up to 2 levels, sections up to 5.",
 "grammar-based property testing against a model tree assembled with the text (ASan, shrinking)")
prop("C19", "A config written out and read back is the same config",
 "Writing a config as text or to a file and parsing the result gives a config with the same sections, keys, order, types and values (floats to the precision written, escapes and empty values included). Writing that one again gives the same text, and building a file only adds what was asked for.",
 ["inputs","histories"], "all configs, built by setters or parsed, without the directives of the language inside of texts",
 "The unit test writes one config and never compares.",
 ["cfg/cfg.c","cfg/cfg.h"], [("writing of configs and values","cfg/cfg.c"),("setters","cfg/cfg.c")],
 "Model trees of up to a few dozen entries; infinities and texts containing directives are outside (the language cannot write them).",
 "round-trip property testing with fixpoint check (ASan, shrinking)")
prop("C20", "Config paths read and write exactly the value they name",
 "After any sequence of typed sets and gets by path, a path finds exactly the entry it names (escaped dots, empty sections, equal names at other levels), with its type and value, and finds nothing where no entry or another type is. A set changes exactly that entry, replaces the type only when asked to, and otherwise refuses and changes nothing; evaluating math in a value gives its result.",
 ["histories","inputs"], "all histories of typed gets and sets with any paths on any config",
 "The unit test reads and sets a few fixed paths.",
 ["cfg/cfg.c","cfg/cfg.h"], [("path walking","cfg/cfg.c"),("typed getters and setters","cfg/cfg.c")],
 "Histories of up to 40 calls on generated configs against the model tree, compared in full after the changes.")
prop("C21", "Any config text, however broken, is refused or parsed without harm",
 "Parsing any text or file ends, never touches memory outside of it and loses no memory: unfinished or misplaced tokens, values of the wrong kind, huge numbers, endless nesting, missing, unreadable and self-including files. Whatever it returns is a well-formed config that can be read, written and released.",
 ["inputs"], "all texts and files, deep nesting and include cycles too",
 "The unit test parses well-formed files only.",
 ["cfg/cfg.c","cfg/cfg.h"], [("section, key and value parsers","cfg/cfg.c"),("include directive","cfg/cfg.c")],
 "Mutated and truncated grammar texts, token soup and random bytes, steered by coverage, under AddressSanitizer with leak accounting.",
 "coverage-guided fuzzing with well-formedness checks (ASan, shrinking)")
prop("C22", "Diagnostics show exactly the given lines, labels, notes and counts",
 "A message span prints each message with its type, code, file, line and column as given, then for each label exactly the source lines it covers with their numbers, and below them the marker symbol over the columns of the label with its color and text, then the notes, whatever the order, length and place of the labels (several lines, lines outside of the code, empty columns). Each message counts once in the caller's counter, missing optional parts are left out, emitting uses up labels and notes, and the stored lines are those of the code, tabs expanded.",
 ["inputs","histories"], "all codes, spans, labels and messages, optional parts given or not",
 "The unit test prints two fixed messages.",
 ["msg_sys/msg_sys.c","msg_sys/msg_sys.h","msg_span/msg_span.c","msg_span/msg_span.h"], [("span rendering","msg_span/msg_span.c"),("message formatting and counting","msg_sys/msg_sys.c")],
 "Output is compared with an independent rendering; codes of up to a dozen lines.",
 "differential property testing against an independent renderer (ASan, shrinking)")
prop("C23", "Plugins load, reload and unload exactly as their files say, errors reported",
 "After any sequence of loading, reloading, looking up, checking for changes and clearing while the library files are replaced, damaged or deleted, a plugin has exactly the module it should have mapped (freshly loaded, nothing left open), its events were called once each with the module in place, and its error is that of the last call. Searching a directory reports every file with the wanted extension exactly once, in nested directories too, and nothing else, whatever else lies there; directories that cannot be opened are passed over.",
 ["histories","configurations"], "all histories of calls over any changes of the files, all directory contents",
 "The unit test loads one fixed plugin; failing and repeated loads, replaced files and nested directories do not occur.",
 ["plugins/plugins.c","plugins/plugins.h"], [("loading, reloading and unloading of modules","plugins/plugins.c"),("directory search","plugins/plugins.c")],
 "Histories over real shared objects copied into a private scratch directory; hidden directories and link cycles are outside.")
prop("C24", "The Mersenne twister is deterministic and follows its recurrence",
 "Every generator seeded with the same value yields the same sequence, and it is the sequence of the Mersenne twister recurrence with its tempering, however long it runs and however calls of different kinds mix. Generators and copies of them never influence each other, and floating-point draws are the integer draws scaled into their interval.",
 ["inputs","histories"], "all seeds and all mixes of draws on several generators",
 "The unit test prints a few numbers.",
 ["mtwister/mtwister.h"], [("seeding, state regeneration, tempering","mtwister/mtwister.h")],
 "Up to several regenerations of the state per generator, against an independent implementation.",
 "differential property testing against an independent implementation (shrinking)")
prop("C25", "Shared helpers keep lists, buffers and files intact",
 "The helpers the modules are built on do exactly what they say for every input: linked lists stay linked in both directions in the order of the calls, parallel buffers grow and shrink together or not at all, shifting and resizing keep the elements that remain (zeroing the new ones), and text and file helpers return exactly the bytes there are. Impossible sizes are refused without losing the block.",
 ["histories","inputs","fault_sequences"], "all histories of list calls, all sizes and counts, files of any size, allocation failures at any point",
 "No unit test calls most of the helpers.",
 ["harbol_common_includes.h"], [("intrusive lists","harbol_common_includes.h"),("recalloc, multi_recalloc, array shifting","harbol_common_includes.h"),("text and file helpers","harbol_common_includes.h")],
 "Histories against list and byte models with injected allocation failures.")
prop("C26", "Running out of memory never corrupts or loses anything",
 "When an allocation fails inside a call on a string, array, byte buffer, map, tuple, deque, tree, variant, message span or config value, the call either says that it failed and leaves everything exactly as it was, or does all that it promised; made again with memory it works as if it had never failed. A constructor that fails gives nothing and keeps nothing. A config is written as text or to a file whole or not at all, the old file then staying as it was; parsing one ends without harm and with a well-formed config or none.",
 ["fault_sequences","histories","inputs"], "all histories of calls with any single allocation, or all from some point on, failing",
 "No unit test makes an allocation fail.",
 ["str/str.c","array/array.c","bytebuffer/bytebuffer.c","map/map.c","deque/deque.c","tree/tree.c","variant/variant.c","tuple/tuple.c","msg_span/msg_span.c","cfg/cfg.c"], [("resizing of strings, tables and buffers","str/str.c"),("growth and rehashing","map/map.c"),("config setters and writer","cfg/cfg.c")],
 "Differential: the same histories on twins, one of which lacks memory inside some calls. The values parsed or lexed while memory lacks are not claimed (the lexers have no way to report it).",
 "differential stateful testing with injected allocation failures (ASan, shrinking)")
prop("C27", "Directory listings give every entry exactly once, as it is",
 "Listing a directory with the bundled tinydir, one by one or sorted (directories first, then by name), gives every entry of it exactly once, with its name, extension, full path and kind (links judged by what they point to), however many there are, however long their names and paths and however the path is written. Opening a single entry by path gives the same. Missing or unreadable things, indices out of range and paths that are too long are refused with an error, the open directory stays usable, and nothing stays open or allocated.",
 ["inputs","fault_sequences"], "all directory contents and paths to them, missing things and refused memory",
 "Only the plugin search uses it, on one fixed directory; special files, links, long paths and errors do not occur.",
 ["plugins/tinydir.h"], [("listing and sorting","plugins/tinydir.h"),("opening single files","plugins/tinydir.h")],
 "Real directories in a private scratch place, of up to 300 entries, against the tree that was made.",
 "property testing against the directory tree that was made (ASan, shrinking)")
prop("C28", "Config mistakes are reported where they are, and nothing else is",
 "Parsing a config without mistakes prints no diagnostics. A mistake (unquoted, empty or repeated key, value that is none, unfinished text, list or section) is reported on the standard error stream with the name of the file and the line it is on, whatever comments, texts over several lines, sections and included files come before it; included files are reported under their own names and lines. An include that fails is reported at its line, and repeated keys and unreadable files are named.",
 ["inputs","configurations"], "all configs with and without mistakes, in files and memory, with includes, comments and texts over several lines",
 "The unit test parses well-formed files only and never looks at the diagnostics.",
 ["cfg/cfg.c","lex/lex.c","msg_sys/msg_sys.c"], [("counting of lines and reporting","cfg/cfg.c"),("skipping of comments","lex/lex.c")],
 "Line numbers are only printed for files. A mistake may be reported anywhere between the line its entry starts on and the line where the parser notices it.",
 "property testing with mistakes planted by the generator (ASan, shrinking)")
