NA = {}
EX = "bounded exhaustive exploration on the real code vs. reference model: "
CHECKS = {
"C01": (EX + "operation sequences and queries of the index", "model_checking",
        "All statement sequences and queries up to the stated depth, on both backends, against an independent brute-force graph; nothing beyond the depth, except the star and chain families."),
"C02": (EX + "insert/identify sequences", "model_checking",
        "All operation sequences over a small set of names up to the depth, in every order, on both backends, against union-find; larger classes only through the chain families."),
"C03": (EX + "sameAs/inverse declarations and links", "model_checking",
        "All combinations of the listed declarations with all link sequences up to the depth; each property has at most one inverse."),
"C04": (EX + "datasets x pathbuilders through the whole extraction", "model_checking",
        "All subsets of the statement universes for the hand-written pathbuilders and for a systematic enumeration of small ones; resources that hang from several parents are outside the property."),
"C05": (EX + "storage call sequences and datasets, disk vs. memory", "model_checking",
        "All call sequences up to the depth on parent/child/grandchild storages, and the datasets of the bounded universes, with and without a cache directory."),
"C08": (EX + "datasets with and without the mask", "model_checking",
        "All subsets of universes containing equivalent and inverse spellings of every kind of predicate, masked and unmasked, against the brute-force extraction."),
"C09": (EX + "all permutations of data files", "model_checking",
        "All permutations of every minimal interesting file of the given size, and exchanges/rotations of larger ones, through the real file reader."),
"C10": (EX + "texts, datatypes, names and layouts of data files", "model_checking",
        "All texts over critical alphabets up to the length in every kind of literal and escape style, all combinations of the listed datatypes and lexical forms, all names over a critical alphabet."),
"C13": (EX + "entity sequences x exporter settings, real SQLite", "model_checking",
        "All sequences of entity shapes up to the length with all listed settings, all interleavings of two bundles, all single failing statements; longer sequences only for uniform shapes."),
"C14": (EX + "option combinations, input faults and full outputs of the n2j command", "model_checking",
        "All combinations of output options with the datasets listed, inputs cut at every (quick: every few) byte, file size limits in steps of 1 KiB and more; MySQL through a stand-in server."),
"C16": (EX + "entity counts x page sizes x offsets, following every link", "model_checking",
        "All entity counts up to 34 (64) with all page sizes and offsets, around the default and maximal page sizes above; parameter values from a list."),
"C17": (EX + "addresses, alias structures and public-URL configurations", "model_checking",
        "All addresses with suffixes over the alphabet up to length 2 (3), all subsets of 11 (14) type/identity statements over four names in two orders, all listed public URL configurations; addresses with ASCII white space at their ends or line breaks are not claimed."),
"C18": (EX + "datasets, texts and names, downloads read back by independent readers", "model_checking",
        "All subsets of 9 (14) statements of each universe, all texts over 27 characters up to length 2 (3) in four languages, all names over 41 fragments up to length 2 (3) in six positions, all orders of seven statements; names are IRIs a document can hold directly."),
"C19": (EX + "payload words x positions, option combinations x routes", "model_checking",
        "All words over 29 markup fragments up to length 2 (3) and a list of classic payloads in 36 positions of data and pathbuilder, parsed by an HTML5 parser; no line breaks or control characters inside addresses; 672 option combinations on every route for the policy."),
"C20": (EX + "fragments x link targets x public-URL configurations", "model_checking",
        "All combinations of the listed schemes, hosts and rests as targets in all templates and small trees under eight public-address configurations; the value is the tree an HTML5 parser sees; links inside drawings (svg) are not claimed."),
"C11": (EX + "datasets through export and import, every damaged export", "model_checking",
        "All subsets of the first 6 (10) statements of each universe and their complements, payload words over 24 fragments up to length 2 (3) in values, names and seven pathbuilder positions; three (six) exports with every truncation, every flipped bit (every byte value), and removed, zeroed, repeated and inserted sections of the listed sizes."),
"C12": (EX + "write limits and failing calls x datasets, operation and command", "model_checking",
        "Every size limit for small exports, every 37th byte and all buffer borders for larger ones; every single failing write or close up to the 24th (200th) write of the command, where tracing own processes is possible."),
"C23": (EX + "types x values x cuts of the stream", "model_checking",
        "All types of up to two (half of those of three; thorough: all) nested slices and maps over twelve scalars and structures and four key types, with the listed values each; sequences of up to four values; every truncation; sizes around the reserved ones."),
"C24": ("complete enumeration of the identifier space on the real code", "model_checking",
        "All 2^32 identifiers by counting, in consecutive blocks; order and encodings for all pairs of 1296 boundary values; sequences of up to three identifiers with all sizes of inputs and outputs."),
"C22": (EX + "scripts of short, failing and complete operations", "model_checking",
        "All scripts of one and two operations over 39 (57) results, a third (all) of those of three, all configurations of output; all sequences of up to 4 (6) operations of the line printer; ASCII lines only; immediate, never and forced output instead of real time."),
"C26": (EX + "sequences of operations on an index of each backend", "model_checking",
        "All sequences up to 6 (7) operations on a memory and 4 (5) on a disk index over 14 operations that declare identities, inverses and masks before statements, plus long ones from a list; setting masks after finalising and operations on a closed index (other than closing and resetting it) are not specified."),
"C28": (EX + "argument lists, directory contents and directory names", "model_checking",
        "All argument lists up to length 3 (4) over eight kinds of files with five spellings; directories over all kinds of four entries, pairs of other names, numbers of files up to four, all subsets of four entries in directories of 41 names, each named in eight ways; a directory called like a source next to the only proper one may be refused, and a pipe as an export too."),
"C07": ("systematic single-fault injection into every operation of loads of the real code", "model_checking",
        "Every operation on source, index storages, bundle storages, exporter and identity maps of loads of six datasets in up to four ways, failing with four errors; on disk a sample of positions in the quick tier; ten kinds of malformed lines at every position, inputs and cache directories that cannot be used."),
"C27": ("systematic single-fault injection into every operation of loads of the real code", "model_checking",
        "The same operations and datasets, with storages counted, goroutines and open files inspected after each load, and a second load in the same directory; all pairs of inputs (proper and broken) loaded one after the other; schedules are those of the runtime here, and all of those of small loads in C06."),
"C25": (EX + "crash points, damage and successions of cached loads, run without privileges", "model_checking",
        "An earlier load killed before each change of a storage (other data: every fifth), two (six) crash points with each file and database removed, emptied, cut, changed, replaced in 13 ways; all sequences of three (four) loads of five datasets; 78 bundle names in two positions and a third (all) of their ordered pairs; a kill keeps what was written, loss of power is covered only as far as the damaged files are."),
"C21": ("stateless model checking of the real code under a controlled scheduler (dynamic partial order reduction, race detector), and bounded exhaustive operation sequences against a model", "model_checking",
        "All sequences of 3 (4) of 17 operations on absent, silent, printing and observed statistics; all programs of two threads (two operations and one; thorough: two and two) and three threads with one operation each, under every schedule up to equivalence, every execution under the race detector and linearizable against the model; the clock is not controlled."),
"C29": ("stateless model checking of the real code under a controlled scheduler (delay bounding and dynamic partial order reduction, race detector)", "model_checking",
        "All ordered pairs of requests about three small sites, triples of a part of them, and pairs (triples) of queries on a finished index in memory and on disk, each on a fresh viewer and index under every schedule up to equivalence and every schedule with one (two) delays; handlers can be interrupted at synchronisation operations and while they write their answer; locks inside of the standard library and leveldb are not controlled."),
"C15": ("stateless model checking of the real code under a controlled scheduler (delay bounding and dynamic partial order reduction, race detector), and all histories of a route in each stage", "model_checking",
        "Every content route of three small sites (existing and missing bundles and entities) in every stage of loading and after it, with three methods; every request alone, in sequence and in parallel with another while the data is handed over, under every schedule up to equivalence and every schedule with one (two) delays, where a handler can be interrupted while it writes; the real server with its pathbuilder held back by a file lease (two moments only)."),
"C06": (EX + "stateless model checking of the real code under a controlled scheduler: delay bounding and DPOR over all goroutine schedules with the race detector, every operation of storages, exporters and indexes failing", "model_checking",
 "Controls sync, atomic and go statements of hangover and pkglib/traversal; the inside of leveldb and sqlite is not controlled."),
"C30": (EX + "explicit exploration of the real application on a display in memory: all event sequences, all moments of closing, all combinations of settings, with the race detector", "model_checking",
 "Runs on the in-memory driver of the toolkit, whose window is made to block and close like that of a desktop; drawing, mouse and keyboard handling of the toolkit are not covered, races inside of the toolkit are not reported. Event sequences of up to 3 (6) events after the start, with the pathbuilder held back by its server."),
}
