#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the source of truth for the wording is here)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

IG = "internal/triplestore/igraph/"
IM = "internal/triplestore/imap/"
SP = "internal/sparkl/"
ST = "internal/sparkl/storages/"
VW = "internal/viewer/"

prop("C01", "Graph path queries return exactly the matching paths",
 "For any sequence of statements added to the triple index (links, and text values with optional language), a path query answers with exactly those paths of the stored statement graph that start, continue and end as asked, each once, with the right node labels, text value and language. Adding a link again adds nothing, every returned path carries as provenance the statements it was built from, and both the in-memory and the on-disk index give the same answer.",
 ["programs", "inputs"], "all sequences of add operations and all query shapes up to a depth, over both storage backends",
 "graphTest builds one fixed family of graphs (a long chain) and asks a handful of queries on it.",
 [IG+"index.go", IG+"paths.go", IG+"engine_memory.go", IG+"engine_disk.go", IG+"triple.go"],
 [("subject/object/predicate indexes", IG+"index.go:insert"), ("lazy path expansion", IG+"paths.go:expand,restrict"), ("path decoding", IG+"paths.go:newPath")],
 ["Index.PathsStarting / Connected / Ending / Paths, Index.Triple"])

prop("C02", "sameAs declarations form equivalence classes with one representative",
 "After any sequence of 'these two names are identical' declarations and insertions, two names resolve to the same identity exactly if the declarations connect them directly or transitively, every class has one canonical member, and that member is one of the class and the one later queries report. The published alias-to-canonical table lists exactly the non-canonical names, and each name's literal spelling is still recoverable where it was used as provenance.",
 ["programs", "histories"], "all sequences of insert/identify operations over a small set of names, in every order, on both backends",
 "imap tests identify in one fixed arrangement over a long regular list; they never merge two already-populated classes in arbitrary order.",
 [IM+"imap.go", IM+"memory.go", IM+"map_disk.go"],
 [("class merge", IM+"imap.go:MarkIdentical"), ("alias table", IM+"imap.go:IdentityMap"), ("lookup", IM+"imap.go:Forward,Reverse")],
 ["IMap.Forward/Reverse/Get/IdentityMap", "Index.IdentityMap"])

prop("C03", "Inverse properties are queryable in both directions",
 "When two distinct properties are declared inverse of each other, every link stored with one of them can be followed with the other in the opposite direction (also through sameAs-identified spellings of either property), and no other link appears. A link that is stated explicitly is never reported as inferred, whatever the order in which explicit and mirrored links were added, and a mirrored link names the original statement as its provenance.",
 ["programs", "inputs"], "all sequences of sameAs/inverse declarations followed by links, up to a depth, on both backends",
 "The only test of inverses (graphTest) uses one declaration and one insertion order.",
 [IG+"index.go", SP+"index.go"],
 [("mirrored insertion", IG+"index.go:AddTriple"), ("explicit beats inferred", IG+"index.go:resolveLabelConflict"), ("declaration", IG+"index.go:MarkInverse")],
 ["Index.PathsStarting/Connected", "Triple.Role, Triple.Inferred"])

prop("C04", "Extraction finds exactly the entities, values and children described",
 "For a pathbuilder and a dataset, the extracted result contains for each top-level bundle exactly one entity per resource matching its path, each field holds exactly one value per matching path with its value and language (a link target where the field has no datatype property), and each child bundle's entities appear under exactly the parent they hang from. Nothing outside the pathbuilder's paths is included, and sameAs-identified resources yield one entity under the canonical name.",
 ["inputs", "configurations"], "all datasets that are subsets of a statement universe, for a family of pathbuilders covering nesting, path length, sibling bundles and datatype choices",
 "No test in the repository covers extraction at all.",
 [SP+"context.go", SP+"sparkl.go", SP+"pathbuilder.go", ST+"memory.go", ST+"disk.go", SP+"exporter/map.go"],
 [("path extraction", SP+"context.go:extractPath"), ("field/child attachment", SP+"context.go:Store"), ("entity storage", ST+"memory.go")],
 ["LoadPathbuilder result", "n2j JSON output"])

prop("C05", "Using a disk cache does not change the result",
 "For every pathbuilder and dataset in which each child resource hangs from one parent, loading with a cache directory gives the same entities (same addresses, values, languages, paths, provenance, children at every level and counts) as loading without one. The same holds for every sequence of calls against one bundle's storage: entity lookups, parent listings and counts agree between the in-memory and the on-disk storage.",
 ["inputs", "programs", "configurations"], "all storage call sequences up to a depth, and all datasets of a bounded universe for a family of nested pathbuilders, memory against disk",
 "The only disk tests are for the two low-level maps; no test runs extraction against a disk storage.",
 [ST+"disk.go", ST+"memory.go", ST+"entity.go", ST+"storages.go", SP+"pathbuilder.go", SP+"sparkl.go"],
 [("disk rows keyed by address", ST+"disk.go:Add,update,Get,Load"), ("pooled row encoding", ST+"entity.go"), ("engine choice", SP+"pathbuilder.go:NewEngine; storages.go:NewBundleEngine")],
 ["BundleStorage interface", "LoadPathbuilder with and without cache directory"])

prop("C06", "Parallel extraction always terminates with the same result",
 "Under every interleaving of the extraction's and exporters' concurrent activities, loading a pathbuilder terminates (no deadlock, no crash), yields the same entities, fields and children as a sequential run, and reports an error if and only if one occurred. No two activities access shared memory without synchronisation, and each bundle is announced, filled and closed in that order with every entity handed over exactly once.",
 ["schedules"], "all interleavings of the goroutines of bundle/field/child extraction and of the exporters, up to the stated preemption bound",
 "Ordinary tests see one schedule per run, and no test covers extraction.",
 [SP+"context.go", SP+"pathbuilder.go", ST+"memory.go", SP+"exporter/map.go", SP+"exporter/sql.go"],
 [("wait groups between stages", SP+"context.go:Store,Wait"), ("first error wins", SP+"context.go:reportError"), ("per-bundle export goroutines", SP+"pathbuilder.go:Export"), ("storage locks", ST+"memory.go; exporter/map.go")],
 ["Export return value and exporter call sequence"])

prop("C07", "A failing operation during loading is always reported",
 "If reading the data, any storage operation of the index or of a bundle, or any exporter call fails at any point of loading, then loading reports an error that is or wraps that failure and terminates; it never reports success with missing or altered data. This holds for each single failing operation, whichever one it is and however often it had succeeded before.",
 ["fault_sequences"], "every single injected failure at every position of the operation sequence of a load, for indexing, extraction and export",
 "Tests only run with storages that never fail.",
 [SP+"index.go", SP+"context.go", SP+"pathbuilder.go", IG+"index.go", IG+"engine_disk.go", IM+"imap.go", "internal/glass/glass.go"],
 [("error propagation in indexing", SP+"index.go:MakeIndex"), ("error collection in extraction", SP+"context.go:reportError"), ("exporter errors", SP+"pathbuilder.go:Export"), ("stage errors", "internal/glass/glass.go:Create")],
 ["error results of MakeIndex, Export, LoadPathbuilder"])

prop("C08", "Restricting the index to the pathbuilder loses nothing",
 "Indexing only the predicates that a pathbuilder mentions (the default) yields exactly the same extracted entities, values and children as indexing every statement. This includes data that uses a predicate declared identical to, or the inverse of, one that the pathbuilder mentions.",
 ["inputs", "configurations"], "all datasets of a bounded universe (including equivalent and inverse predicates and noise) for a family of pathbuilders, masked against unmasked",
 "No test sets a mask.",
 [SP+"index.go", IG+"index.go"],
 [("mask construction", SP+"index.go:setMask"), ("mask check", IG+"index.go:addMask")],
 ["LoadPathbuilder result with and without the mask option"])

prop("C09", "The order of statements in the data file does not matter",
 "Any reordering of the lines of an N-Quads file produces the same entities with the same values, languages and children, in particular when sameAs and inverse declarations come after the statements they affect. Only the choice of the canonical member of an identity class may differ.",
 ["inputs"], "all permutations of small data files, including declarations in every position",
 "No test reads N-Quads.",
 [SP+"index.go", SP+"index_source.go", IG+"index.go"],
 [("three passes over the source", SP+"index.go:MakeIndex"), ("source rewinding", SP+"index_source.go:Open")],
 ["LoadIndex + LoadPathbuilder result"])

prop("C10", "Text values and names survive from data file to result unchanged",
 "Every literal of an N-Quads file that a field selects is reported with exactly the characters of its lexical form and exactly its language tag (none if it has none), whatever its datatype, escaping or content, including empty and typed literals; every IRI is reported with exactly its characters. Statements in named graphs count like any other.",
 ["inputs"], "all literals over a critical-character alphabet up to a length, in all literal kinds, and all datatypes with canonical and non-canonical lexical forms",
 "No test reads N-Quads; literals are native Go values by the time they are stored.",
 [SP+"index_source.go", SP+"index.go", IG+"index.go"],
 [("token conversion", SP+"index_source.go:Next"), ("language storage", IG+"index.go:AddLangData")],
 ["extracted FieldValue value and language", "n2j JSON output"])

prop("C11", "An exported index serves the same content as the original",
 "For every loaded dataset, exporting the index and importing it again yields a server that answers every page and API request about bundles, entities, aliases, redirects and downloads identically to the original. An export file that was cut short or damaged at any byte is refused with an error instead of serving different content.",
 ["inputs", "crash_points"], "all datasets of a bounded universe for several pathbuilders; all truncation points and all single-byte corruptions of export files",
 "Only the generic stream encoder has tests, on fixed values; the export format as a whole and damaged files are untested.",
 ["internal/glass/glass.go", SP+"cache.go", "pkg/sgob/sgob.go", IM+"memory.go"],
 [("export encoding", "internal/glass/glass.go:EncodeTo,Export"), ("import", "internal/glass/glass.go:DecodeFrom,Import"), ("index encoding", SP+"cache.go:EncodeTo,DecodeFrom")],
 ["glass.Export/Import", "hangover -export and hangover <export>"])

prop("C12", "An export that could not be written completely is reported",
 "If any write to the export file fails or the disk fills up at any point, the export operation and the command report failure; success is only reported when the file on disk is complete and can be imported. The command that exports terminates normally after writing, without needing a server.",
 ["fault_sequences", "crash_points"], "a write limit at every byte position of the export file, in-process and through the command",
 "No test exports anything.",
 ["internal/glass/glass.go", "cmd/hangover/hangover.go"],
 [("compressed writer", "internal/glass/glass.go:Export"), ("exit status", "cmd/hangover/hangover.go:main")],
 ["error of glass.Export", "exit status of hangover -export"])

prop("C13", "The SQL export contains exactly the extracted entities",
 "For every dataset, batch size, query-variable limit, separator and field-table setting, the exported database holds one row per entity in its bundle's table (children with their parent's address), with every field value stored exactly, joined by the separator or, in field-table mode, as one row per value with its language. Fields without a value are NULL, a limit too small for one row is an error, and exporting again into the same database gives the same content as exporting once.",
 ["inputs", "configurations", "histories"], "all combinations of batch size, variable limit and table mode over enumerated entity sets with nested children, including repeated exports",
 "No test covers the SQL exporter.",
 [SP+"exporter/sql.go", SP+"pathbuilder.go"],
 [("batching", SP+"exporter/sql.go:Add,End"), ("chunked inserts", SP+"exporter/sql.go:execInsert"), ("table creation", SP+"exporter/sql.go:createBundleTable,CreateFieldTable")],
 ["contents of the SQLite database"])

prop("C14", "n2j writes the selected output completely or fails",
 "For every combination of output options, the n2j command writes exactly the selected output (JSON on standard output, SQLite database, CSV files, or MySQL connection), and the JSON, SQLite and CSV outputs describe the same entities and values. If the output cannot be written completely, the options conflict, or the input is missing or malformed, the command exits with a failure status.",
 ["configurations", "inputs", "fault_sequences"], "all option combinations, and all positions of an output failure, on enumerated small inputs",
 "The command has no tests.",
 ["cmd/n2j/n2j.go", "cmd/n2j/json.go", "cmd/n2j/sqlite.go"],
 [("output selection", "cmd/n2j/n2j.go:main"), ("error exits", "cmd/n2j/json.go:doJSON; cmd/n2j/sqlite.go:doSQL,doCSV")],
 ["exit status, stdout, produced files"])

prop("C15", "Requests during loading get a retry answer, never partial data",
 "From the moment the server accepts requests until loading is complete, every content page answers with the loading page and every content API endpoint with status 503 and a progress message, both with a Retry-After header and without crashing; afterwards they answer with the complete data. This holds for every request at every moment relative to the hand-over of the loaded data, and once a content request was answered with data no later one is answered as loading.",
 ["schedules", "histories"], "all interleavings of requests to every route with the hand-over of loaded data, and every route in every loading stage",
 "The viewer has no tests, and a test would see one moment of the hand-over only.",
 [VW+"viewer.go", VW+"fallback.go", VW+"json.go", VW+"html.go", "internal/stats/status.go"],
 [("loading fallback", VW+"fallback.go"), ("hand-over", VW+"viewer.go:Prepare"), ("done flag", "internal/stats/status.go:Done,Close")],
 ["HTTP responses"])

prop("C16", "Paging through a bundle shows every entity exactly once",
 "For every number of entities and every page size, following the 'next' links from the first page of a bundle shows every entity exactly once and stops at the end, and 'previous', 'first' and 'last' links appear whenever there are earlier or later entities and lead to existing, non-empty pages holding the neighbouring, first and last entities. The displayed range and total are correct, out-of-range or invalid parameters fall back to defaults or answer 404, and the bundle API lists every entity exactly once.",
 ["inputs"], "all entity counts, limits and offsets up to a bound, walking every link",
 "The viewer has no tests.",
 [VW+"html.go", VW+"api.go", VW+"templates/bundle.html", "internal/assets/templates/viewer_pagination.html"],
 [("page slicing and links", VW+"html.go:htmlBundleWithLimit"), ("parameter parsing", VW+"html.go:htmlBundle")],
 ["HTTP responses of /bundle/{bundle} and /api/v1/bundle/{bundle}"])

prop("C17", "Every known address resolves to its entity page, unknown ones to 404",
 "For every entity, and for every alias of it, the resolver address redirects (in one or more steps) to the page of the canonical entity in a bundle that contains it, whatever characters the address contains; the entity page lists its aliases, and the original system's navigate addresses resolve for every configured public URL and scheme. An address that belongs to no entity, and an entity asked for in a bundle that does not contain it, answers 404.",
 ["inputs", "configurations"], "all addresses over a critical-character alphabet, all alias structures up to a size, and all public-URL configurations of a bounded set",
 "The viewer has no tests.",
 [VW+"html.go", VW+"api.go", SP+"cache.go"],
 [("resolver", VW+"html.go:htmlEntityResolve,sendToResolver"), ("alias tables", SP+"cache.go:NewCache,Canonical,Aliases,Bundle,Entity")],
 ["HTTP redirects and pages", "Cache.Canonical/Aliases/Bundle/Entity"])

prop("C18", "Downloaded triples are exactly the entity's statements",
 "For every entity, the N-Triples and the Turtle download are complete, well-formed documents that parse to exactly the set of canonical statements behind the entity, its fields and its children, none of them repeated: same subject, predicate and object names and the same text and language for every value, including empty values and special characters. Values are never turned into links or the other way round.",
 ["inputs"], "all entities with field values over a critical-character alphabet in all kinds, with nested children, for both formats",
 "No test renders triples.",
 ["internal/wisski/entity.go", IG+"triple.go", VW+"json.go"],
 [("statement conversion", IG+"triple.go:Triple"), ("statement collection", "internal/wisski/entity.go:AllTriples,WriteAllTriples")],
 ["body of /api/v1/ntriples and /api/v1/turtle"])

prop("C19", "Data cannot inject markup, and every response carries the policy",
 "With HTML rendering disabled (the default), no text value, language tag, name, label or address from the data or pathbuilder is ever interpreted as markup or script on any page, and each is displayed unchanged. Every response on every route, during and after loading, carries exactly the content-security policy that belongs to the configured options: default-src none, images and media only when enabled, and with the strict option only from the configured public addresses.",
 ["inputs", "configurations"], "all injection strings over a markup alphabet at every data position on every page, and all option combinations on every route",
 "The viewer has no tests.",
 [VW+"viewer.go", VW+"html.go", VW+"templates/entity.html", "internal/assets/templates/viewer_render_value.html"],
 [("contextual escaping", VW+"templates"), ("policy header", VW+"viewer.go:CSPHeader,ServeHTTP")],
 ["parsed HTML of responses, Content-Security-Policy header"])

prop("C20", "Only links into the original system are rewritten in rendered HTML",
 "When HTML rendering is enabled, exactly those link and image targets that lie below one of the configured public addresses' entity pages (either scheme) are rewritten, to the same path, query and fragment on this server; all other targets, attributes, elements and texts of the value stay as they were. Without a configured public address nothing is rewritten.",
 ["inputs", "configurations"], "all combinations of element, attribute, target and public-URL configuration from bounded sets",
 "ReplaceLinks and the rewriting rule have no tests.",
 ["pkg/htmlx/htmlx.go", VW+"html.go"],
 [("tree rewriting", "pkg/htmlx/htmlx.go:ReplaceLinks"), ("target rule", VW+"html.go:ReplaceURL,contextGlobal")],
 ["rendered value on the entity page", "htmlx.ReplaceLinks"])

prop("C21", "Progress statistics are consistent under concurrent use",
 "Under every interleaving of concurrent progress updates, stage changes and readers, no access is unsynchronised, no crash or deadlock occurs, and every reading shows a stage with a current/total pair that was reported together. Finished stages are recorded once and in order, nothing changes after the statistics are closed, every stage function runs exactly once with its error returned, and all operations on an absent or output-less statistics object are harmless.",
 ["schedules", "programs"], "all interleavings of small concurrent programs of statistics calls, and all sequential call sequences up to a depth",
 "The package has no tests.",
 ["internal/stats/status.go", "pkg/progress/progress.go"],
 [("lock around stage data", "internal/stats/status.go:SetCT,Start,end,Progress,All"), ("done flag", "internal/stats/status.go:Close,Done")],
 ["Stats.Progress/Current/All/IndexStats", "/api/v1/progress"])

prop("C22", "Progress-counting readers and writers are transparent",
 "A counting reader or writer passes on exactly the bytes, counts and errors of the stream it wraps for every sequence of operations and every short or failing operation, and its total equals the number of bytes actually transferred. The progress line it prints always overwrites the previous one completely and the final one shows the true total.",
 ["programs", "fault_sequences"], "all sequences of reads/writes with all short/failed outcomes up to a depth, with all flush decisions",
 "The two examples transfer one fixed text without errors.",
 ["pkg/progress/progress.go"],
 [("byte counting", "pkg/progress/progress.go:Reader.Read,Writer.Write"), ("line rewriting", "pkg/progress/progress.go:Flush,Close")],
 ["Bytes, returned counts, terminal output"])

prop("C23", "Stream encoding round-trips every value",
 "Decoding what was encoded gives back an equal value for every (nested) combination of maps, slices, pointers-free structs and scalars, several values in one stream decode in sequence, and decoding a stream that was cut anywhere is an error. Encoding never changes the value, and decoding a map or a slice replaces whatever the target held before.",
 ["inputs", "crash_points"], "all values of a family of types up to a size, all sequences of them up to a length, all truncation points",
 "The tests decode a few fixed values into fresh targets.",
 ["pkg/sgob/sgob.go"],
 [("piecewise encoding", "pkg/sgob/sgob.go:encodeMap,encodeSlice"), ("piecewise decoding", "pkg/sgob/sgob.go:decodeMap,decodeSlice")],
 ["sgob.Encode / sgob.Decode"])

prop("C24", "Internal identifiers are unique, ordered and never wrap around",
 "Counting up identifiers visits every value of the 32-bit range exactly once in increasing order, comparison and encoded byte order agree with counting order everywhere, every encoding decodes to the same identifier, and only the initial value is invalid. Exceeding the range stops the program instead of reusing an identifier, and input too short to hold the identifiers is an error.",
 ["inputs"], "all 2^32 identifiers for succession, validity and encoding; all carry boundaries for comparison; all buffer lengths",
 "TestID_* cover the first 2^24 values at most and never the top byte or the overflow.",
 ["internal/triplestore/impl/id.go"],
 [("carry propagation", "internal/triplestore/impl/id.go:Inc"), ("big-endian encoding", "internal/triplestore/impl/id.go:Encode,Decode,Compare")],
 ["impl.ID"])

prop("C25", "Stale cache contents never influence a run, nothing else is touched",
 "Running with a cache directory that holds anything left over from an earlier run, complete or killed at any point, with the same or different data, gives the same result as running with an empty one. Loading never creates, changes or deletes anything outside the given cache directory, whatever bundle names the pathbuilder contains, and different bundles never share storage.",
 ["crash_points", "histories", "configurations"], "every prefix of the file-system operations of an earlier run as a starting state, pairs of successive datasets, and all bundle names of a critical set",
 "Disk tests use a fresh temporary directory once.",
 [ST+"disk.go", ST+"storages.go", IM+"map_disk.go", IG+"engine_disk.go"],
 [("wipe on open", ST+"disk.go:NewStorage; map_disk.go:NewDiskStorage; engine_disk.go:NewDiskHash"), ("storage path", ST+"disk.go:NewStorage")],
 ["result of a cached load; file tree around the cache directory"])

prop("C26", "A finished index accepts no more changes",
 "Once an index is finalised, every attempt to add a statement, declare identities or inverses, compact or finalise again is refused with an error and changes no answer; resetting gives an empty, usable index with nothing of the former content, and closing any number of times is harmless. This holds for every sequence of operations and for both backends.",
 ["programs", "histories"], "all sequences of lifecycle and content operations up to a depth, on both backends",
 "Tests call each lifecycle operation once in the intended order.",
 [IG+"index.go", IM+"imap.go"],
 [("finalised flag", IG+"index.go:Finalize; imap.go:Finalize"), ("reset/close", IG+"index.go:Reset,Close")],
 ["return values and query answers of Index and IMap"])

prop("C27", "Everything opened while loading is released",
 "When loading has finished, successfully or with an error at any point, and the result is closed, every index and bundle storage that was opened has been closed at least once and is not used afterwards, no background activity of the load is left running or blocked, and closing errors are reported. On disk this means that the cache directory can be used again immediately, also in the same process.",
 ["fault_sequences", "schedules", "histories"], "all single failures during a load and all interleavings of a small load, counting storages and goroutines",
 "No test looks at what remains after loading.",
 [SP+"context.go", SP+"pathbuilder.go", IG+"index.go", "internal/glass/glass.go"],
 [("closer collection", SP+"context.go:Close"), ("index close", IG+"index.go:Close")],
 ["open/close counts of instrumented storages, leftover goroutines"])

prop("C28", "Input selection picks exactly the given sources or fails",
 "With two arguments the pathbuilder and data files are taken in that order and must be regular files; with one directory, exactly one pathbuilder file (.xml) and exactly one data file (.nq) in it must exist and are used, whatever the directory is called; a single file is an export where exports are allowed. In every other situation an error is returned and no source is.",
 ["configurations"], "all argument lists and directory contents over a bounded set of file kinds, names and directory names",
 "FindSource has no tests.",
 ["load.go"],
 [("selection", "load.go:FindSource")],
 ["hangover.FindSource"])

prop("C29", "Concurrent requests get the same answers as sequential ones",
 "When any number of requests are served at the same time, each gets the same answer as if it were served alone, without unsynchronised access to shared data, deadlock or crash. The same holds for concurrent path queries on a finished index.",
 ["schedules"], "all interleavings of pairs (and small groups) of requests and of queries",
 "The viewer has no tests; index tests query sequentially.",
 [VW+"viewer.go", SP+"cache.go", IM+"imap.go", IG+"paths.go"],
 [("one-time setup", VW+"viewer.go:setupMux"), ("read-only data after loading", SP+"cache.go")],
 ["HTTP responses", "Paths results"])

prop("C30", "The desktop application serves what was chosen, from Start until it is closed",
 "The desktop application (headache) cannot be started with improper settings. From pressing Start with proper settings until its window is closed or it is interrupted there is exactly one server, at the displayed address, which answers as the viewer does with exactly the displayed settings and files, from the first request on; a failure to listen or to load is reported and never makes it serve data. Closing the window at any moment (also while loading or in the middle of starting) stops the server and ends the application. Choosing a folder selects the one data file and the one pathbuilder in it. The displayed counts are those of the loaded data, and the console shows the last lines of the log.",
 ["histories", "schedules", "inputs"], "all sequences of user actions up to a depth, all moments of closing, all combinations of settings, contents of folders, and writes to the console",
 "The desktop application has no tests.",
 ["internal/headache/headache.go", "internal/headache/ui_run.go", "internal/headache/ui_settings.go", "internal/headache/settings.go", "internal/headache/widgets.go", "internal/headache/status.go", "internal/console/console.go"],
 [("run screen", "internal/headache/ui_run.go"), ("settings screen", "internal/headache/ui_settings.go"), ("console", "internal/console/console.go")],
 ["desktop window", "HTTP responses"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
