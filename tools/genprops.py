#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

I="internal/triplestore/impl/"; M="internal/triplestore/imap/"; G="internal/triplestore/igraph/"
S="internal/sparkl/"; ST="internal/sparkl/storages/"; V="internal/viewer/"

p("C01","Identifiers are totally ordered by allocation and never invalid or reused",
 "Incrementing an identifier yields the identifier whose numeric value is exactly one larger, never the invalid (zero) one, and panics instead of wrapping around. Comparing two identifiers orders them as their numeric values do, an identifier is valid exactly when its value is non-zero, and converting to and from a big integer preserves the value.",
 ["inputs"],"every pair of 32-bit identifier values",
 "the tests walk a few thousand consecutive ids; carries at other byte positions, the overflow edge and order between arbitrary pairs are never seen",
 [I+"id.go"],[("ID.Inc","impl/id.go"),("ID.Compare","impl/id.go"),("ID.Valid","impl/id.go"),("ID.Int/LoadInt","impl/id.go")],
 observe=["impl.ID methods"])
p("C02","Binary encodings round-trip, preserve order and reject short input",
 "Encoding identifiers, label pairs and stored triples and decoding the result returns the same value; the encoding of an identifier sequence sorts bytewise exactly as the identifiers sort and two different sequences of one length have different encodings. Decoding fewer bytes than the encoding needs is reported as an error and never panics, and a destination that is too small is reported as an error.",
 ["inputs"],"every identifier value, every role byte, every source of up to 32 bytes and destination of up to 32 bytes",
 "the tests round-trip a few fixed ids; no test decodes a truncated record or compares encoded order of arbitrary ids",
 [I+"id.go",G+"triple.go",M+"imap.go"],[("MarshalIDs/UnmarshalIDs","impl/id.go"),("MarshalTriple/UnmarshalTriple","igraph/triple.go"),("TripleID.Marshal/Unmarshal","imap/imap.go")],
 observe=["on-disk records of the disk engine"])
p("C03","The label map is a union-find: identities form one canonical class",
 "After any sequence of insertions and identity declarations over labels, two labels have the same canonical identifier exactly when they are connected by declared identities, every label keeps its own distinct literal identifier that maps back to that label, and fresh identifiers are never handed out twice. The canonical identifier of a class is the one of the label last declared canonical for it, and the identity map lists exactly the labels that are not their own canonical label, each with that canonical label; this is the same for the memory and the disk engine.",
 ["histories","inputs"],"all histories of at most a few operations over a small set of arbitrary (possibly equal) labels, both engines",
 "the tests use one fixed order of identifications over numbered labels; merging two classes that both already have several members, re-identification and self-identification are not enumerated",
 [M+"imap.go",M+"map_memory.go",M+"map_disk.go",M+"memory.go"],[("IMap.AddNew","imap/imap.go"),("IMap.MarkIdentical","imap/imap.go"),("IMap.IdentityMap","imap/imap.go")],
 [("forward","label to (canonical, literal) id","imap.IMap"),("reverse","literal id to label","imap.IMap"),("id","last id handed out","imap.IMap")],["IMap.Forward","IMap.Reverse","IMap.Get","IMap.IdentityMap"])
p("C04","The index holds exactly the declared triples, their identities and inverses",
 "After any sequence of identity declarations, inverse declarations and added triples and data, a finalized index answers a one-step query for a predicate and object (or subject) with exactly the canonical subjects (objects) of the added triples, plus for every predicate with a declared inverse the reversed triple. Each answer carries the triple it came from with its original and canonical subject, predicate and object, its role, datum and language, and a directly added triple takes precedence over an inferred one; adding the same triple between nodes again adds no further answer, while every added datum is an answer of its own.",
 ["histories","inputs"],"all histories of a few identity, inverse, triple and datum additions over arbitrary (possibly equal) labels, memory and disk engine",
 "the tests build three fixed chain-shaped graphs; duplicate triples, an inverse that is also stated directly, identified predicates, empty data and language data are not exercised",
 [G+"index.go",G+"engine_memory.go",G+"engine_disk.go",G+"triple.go"],[("Index.AddTriple","igraph/index.go"),("Index.AddLangData","igraph/index.go"),("Index.resolveLabelConflict","igraph/index.go"),("Index.MarkInverse","igraph/index.go")],
 [("psoIndex/posIndex","(p,s,o)->triple and (p,o,s)->triple","igraph.Index"),("inverses","predicate to inverse","igraph.Index")],["Index.PathsStarting","Paths.Connected","Index.Triple","Index.Stats"])
p("C05","Path queries return exactly the matching paths, each once, with its triples",
 "A path query (a starting class, then any alternation of connecting predicates and ending restrictions) over a finalized index returns exactly the label sequences that match in the graph, each exactly once, and reports as many as its size says. Every returned path lists its nodes in order, the queried edges, for every node in order the triples that justify the steps at it, and, when it ends in data, that datum with its language instead of a node.",
 ["inputs","histories"],"all graphs of a few arbitrary triples and data, all queries of up to three steps",
 "the tests query fixed chains in which every step has one successor; branching, shared nodes, rejoining paths, several restrictions and paths that end in data are not settled by them",
 [G+"paths.go",G+"index.go"],[("Index.PathsStarting","igraph/paths.go"),("Paths.Connected","igraph/paths.go"),("Paths.Ending","igraph/paths.go"),("newPath","igraph/paths.go")],
 observe=["Paths.Paths","Paths.Size"])
p("C06","Caching to disk changes nothing but where data is kept",
 "For every input and every sequence of operations, an index, label map or bundle storage kept on disk gives the same answers, in particular the same entities with the same fields, children and paths, as one kept in memory. In particular a run with a cache directory produces the same entities as one without.",
 ["inputs","histories","configurations"],"all small graphs and pathbuilders, both engines, the key-value store modelled by its contract",
 "the tests run each engine on the same small chains but never compare them, and no test covers the bundle storages at all",
 [G+"engine_disk.go",G+"engine_memory.go",M+"map_disk.go",ST+"disk.go",ST+"memory.go",S+"sparkl.go"],[("ThreeDiskHash","igraph/engine_disk.go"),("DiskStorage","imap/map_disk.go"),("Disk","storages/disk.go")],
 observe=["sparkl.LoadPathbuilder","storages.BundleStorage"])
p("C07","The pathbuilder mask only drops what no path of the pathbuilder can reach",
 "Indexing with the default options, which skip predicates the pathbuilder does not mention, extracts the same entities with the same fields, children, identities and values as indexing everything. This includes triples that become relevant only through a declared identity of predicates or through an inverse predicate.",
 ["inputs","configurations"],"all small data sets with arbitrary predicates, identity and inverse declarations, under a fixed set of pathbuilder shapes",
 "no test builds an index with a mask",
 [S+"index.go",G+"index.go"],[("setMask","sparkl/index.go"),("Index.addMask","igraph/index.go")],
 [("pMask/dMask","predicate ids that may be indexed","igraph.Index")],["sparkl.MakeIndex","sparkl.LoadPathbuilder"])
p("C08","A failure while loading is reported, never turned into a silent partial result",
 "If opening or reading the source, or any operation (other than closing) of the storages beneath the index or the bundles, fails at any point of loading, the load as a whole returns an error. It never returns a partial index or partial entities as if they were complete, and it never hangs or crashes.",
 ["fault_sequences"],"a failure injected at any single operation (source open, read, store open/get/put/iterate/compact/finalize) of a small load",
 "no test injects a failure",
 [S+"index.go",G+"index.go",M+"imap.go",S+"context.go",S+"pathbuilder.go",ST+"disk.go","internal/glass/glass.go"],[("MakeIndex","sparkl/index.go"),("Context.reportError","sparkl/context.go"),("Export","sparkl/pathbuilder.go")],
 observe=["sparkl.MakeIndex","sparkl.LoadPathbuilder","glass.Create"])
p("C09","A bundle storage returns exactly what was put into it",
 "After entities, field values and children were added, loading an entity returns its URI, path, triples, all its field values in insertion order with language, path and triples, and all its children (recursively) in insertion order; listing without a position yields every entity exactly once, listing with a position yields one pair of entity and parent at that path position for every addition, and counting gives the number of distinct entities. Adding to or loading an unknown entity reports the documented no-such-entity error and changes nothing.",
 ["histories","inputs"],"all histories of a few additions over arbitrary (possibly equal) URIs, field names and values, memory and disk storage",
 "the storages have no tests",
 [ST+"memory.go",ST+"disk.go",ST+"entity.go",ST+"storages.go"],[("Memory","storages/memory.go"),("Disk","storages/disk.go"),("sEntity","storages/entity.go")],
 observe=["storages.BundleStorage"])
p("C10","Extraction finds every entity of the pathbuilder under every schedule",
 "For a pathbuilder and an index, extraction yields for every top-level bundle exactly the entities its path selects, each once, with exactly one value for every match of a field's path through it and one child entity for every match of a child bundle's path through it, recursively. The result is the same for every scheduling of the extraction goroutines, which neither race on shared data, deadlock, nor crash.",
 ["inputs","schedules"],"all small graphs over a family of pathbuilder shapes (fields, nested bundles), and all schedules up to a bounded number of preemptions",
 "extraction has no test, and a schedule-dependent fault would only show by luck",
 [S+"context.go",S+"pathbuilder.go",ST+"memory.go","internal/sparkl/exporter/map.go"],[("Context.Store","sparkl/context.go"),("Export","sparkl/pathbuilder.go"),("exporter.Map","sparkl/exporter/map.go")],
 observe=["sparkl.LoadPathbuilder","sparkl.Export"])
p("C11","Every entity is found by its own URI and by every alias",
 "Given the entities of each bundle and the identities between URIs, looking up an entity by its URI or by any alias finds that entity, in the bundle that holds it and in no other; an unknown URI finds nothing. Canonicalising a known URI yields its canonical URI, the aliases of a URI are exactly the URIs whose canonical URI it is, the bundle names are all bundles in sorted order, and the first bundle of a list of URIs is the one of the first URI that has any.",
 ["inputs"],"all assignments of a few entities to a few bundles and all identity maps over a few arbitrary URIs, in every map iteration order",
 "the cache has no tests",
 [S+"cache.go"],[("NewCache","sparkl/cache.go"),("Cache.Entity","sparkl/cache.go"),("Cache.Bundle","sparkl/cache.go")],
 [("biIndex","bundle and uri to position","sparkl.Cache"),("sameAs/aliasOf","identities","sparkl.Cache")],["Cache.Entity","Cache.Bundle","Cache.Canonical","Cache.Aliases","Cache.FirstBundle"])
p("C12","An exported index re-imports to the same contents; other versions are refused",
 "Encoding a cache or a complete export and decoding it again yields the same entities, bundle names, lookups, aliases, canonical URIs, and flags (statistics are no flags). Decoding data of another format version fails with an error, importing a file cut anywhere either fails with an error or is complete, and a decoded cache does not share or lose state from before.",
 ["inputs"],"all small caches and flags; every version number; truncation at every element boundary; the byte-level gob coding modelled by its contract",
 "no test covers export or import",
 [S+"cache.go","internal/glass/glass.go",M+"memory.go"],[("Cache.EncodeTo/DecodeFrom","sparkl/cache.go"),("Glass.EncodeTo/DecodeFrom","glass/glass.go"),("Memory.GobEncode/GobDecode","imap/memory.go")],
 observe=["glass.Glass","sparkl.Cache"])
p("C13","Streaming gob encoding of maps and slices loses nothing",
 "For every value built from maps, slices (nested in each other), structs and scalars, streaming-encoding it and decoding into a variable of the same type gives an equal value. Several values encoded one after the other decode independently, in order, whatever the destination held before, and a failing or truncated stream is reported as an error, never as a shorter value.",
 ["inputs","fault_sequences"],"all values of a few nested types with up to three elements per level, every map iteration order, a stream failure at any element",
 "the tests round-trip three small literals into zero destinations",
 ["pkg/sgob/sgob.go"],[("EncodeValue/DecodeValue","pkg/sgob/sgob.go")],observe=["sgob.Encode","sgob.Decode"])
p("C14","The SQL export contains every entity, value and child exactly once",
 "For every pathbuilder and set of entities the SQL export creates one table per bundle and inserts exactly one row per entity (with the parent's URI for child bundles) holding every field's values, joined by the separator, or in field tables one row per value with its language; nothing is dropped, duplicated or put under another column, whatever the batch size and variable limit, and exporting again into the same database replaces what an earlier export left there. No statement exceeds the maximum number of query variables or the batch size, and a failing statement makes the export fail.",
 ["inputs","configurations","fault_sequences"],"all small entity sets (up to a few entities, values, children), batch sizes and variable limits, both field modes, and a failure of any statement",
 "the exporter has no tests",
 [S+"exporter/sql.go"],[("SQL.Add/End","sparkl/exporter/sql.go"),("SQL.execInsert","sparkl/exporter/sql.go"),("SQL.insertBundleTable","sparkl/exporter/sql.go")],
 observe=["statements sent to database/sql"])
p("C15","An entity's triples are complete, unique and consistently ordered",
 "The triples of an entity are exactly those of the entity itself, of all its field values, and recursively of all its children: none missing, none twice, sorted by triple identity, and identical on every call. Computing them does not change the entity.",
 ["inputs"],"all entities with a few triples of arbitrary (possibly equal) identity spread over fields and children, in every map iteration order",
 "no test covers it; iteration order of maps is random per run",
 ["internal/wisski/entity.go"],[("Entity.AllTriples","wisski/entity.go")],observe=["Entity.AllTriples"])
p("C16","Triples render as RDF that says what the data said",
 "Rendering a stored triple as RDF gives its subject and predicate as IRIs (original or canonical as requested) and as object the datum as a literal with its language for a data triple (also when the datum is the empty string) and the object IRI otherwise; an IRI or language that is not valid RDF is an error. Exporting an entity writes one statement per triple in order and reports any error.",
 ["inputs"],"all triples with short arbitrary labels, data and languages, all roles",
 "no test covers rendering",
 [G+"triple.go","internal/wisski/entity.go",V+"json.go"],[("Triple.Triple","igraph/triple.go"),("Entity.WriteAllTriples","wisski/entity.go")],observe=["Triple.Triple","Entity.WriteAllTriples"])
p("C17","The viewer answers every request safely while data is still loading",
 "Until loading has finished every page and API endpoint that needs data answers with the loading page or with a single 503 JSON message carrying the progress, without touching the not yet available data and without crashing; afterwards none does. Switching from loading to ready happens once and exposes cache and pathbuilder only together, also when requests run at the same time.",
 ["inputs","schedules"],"every registered route, before and after preparation, and the race between a request and preparation",
 "the viewer has no tests",
 [V+"fallback.go",V+"json.go",V+"html.go",V+"viewer.go","internal/stats/status.go"],[("htmlFallback/jsonFallback","viewer/fallback.go"),("Viewer.Prepare","viewer/viewer.go")],observe=["Viewer.ServeHTTP"])
p("C18","Paging through a bundle shows every entity exactly once",
 "For every number of entities, page size and offset, a bundle page shows exactly the entities from the offset up to the page size, with the right total and first and last position, and an offset past the end is not found. There is a next link exactly when entities follow and it leads to the first entity not yet shown; there is a previous link exactly when entities precede and it leads to a page ending right before this one (or the first page), the first link leads to the first page and the last link to a non-empty page that reaches the end; sizes and offsets that are not valid numbers within range fall back to the defaults.",
 ["inputs"],"every limit and offset (as text of a few characters and as any integer), every total up to a bound",
 "the viewer has no tests; off-by-one errors need exact multiples",
 [V+"html.go",V+"api.go"],[("htmlBundleWithLimit","viewer/html.go"),("htmlBundle","viewer/html.go")],observe=["/bundle/{bundle} page context"])
p("C19","Links are rewritten exactly when they point into the WissKI",
 "Rewriting a link changes it exactly when it starts with one of the configured public WissKI prefixes, and then only strips scheme, user information and host, keeping path (up to an equivalent encoding), query and fragment, so that it stays on this server; every other link, and one that is no valid URL, is unchanged. In rendered HTML this is applied to the href of every link and the src of every image and to nothing else, at every nesting depth.",
 ["inputs"],"all links and prefixes of bounded length; small arbitrary node trees",
 "no test covers link rewriting",
 [V+"html.go","pkg/htmlx/htmlx.go",V+"viewer.go"],[("contextGlobal.ReplaceURL","viewer/html.go"),("ReplaceLinks","htmlx/htmlx.go"),("IterTree","htmlx/htmlx.go")],observe=["rendered field values"])
p("C20","Resolving a URI redirects to the entity that has it",
 "A request to resolve a URI redirects, when some entity has that URI or an alias of it, to the entity page whose query decodes back to exactly the canonical URI and whose path names the bundle that holds it, whatever characters the URI contains (URIs have no line breaks and no white space around them, bundle names no slash); otherwise it is not found. A request for a WissKI navigation path redirects to the resolver for exactly the public URI made from that path that some entity has.",
 ["inputs"],"all caches of a few entities with short arbitrary URIs and arbitrary request URIs",
 "the viewer has no tests; characters special in queries (&, +, =, %, #) need the right data",
 [V+"html.go",S+"cache.go"],[("htmlEntityResolve","viewer/html.go"),("sendToResolver","viewer/html.go")],observe=["Location header"])
p("C21","The content security policy never allows more than the flags say",
 "Every response carries a content security policy whose default is none, which allows scripts and connections only from the server itself, inline styles only when HTML rendering is on, a frame source exactly for an http(s) tipsy URL, images exactly when image or HTML rendering is on and media exactly when HTML rendering is on, and under the strict setting images and media only from the configured public URLs. No configured value can add a directive or a further source of its own.",
 ["configurations","inputs"],"all flag combinations, public and tipsy URLs of bounded length",
 "no test covers it",
 [V+"viewer.go"],[("RenderFlags.CSPHeader","viewer/viewer.go"),("RenderFlags.PublicURIS","viewer/viewer.go"),("RenderFlags.Tipsy","viewer/viewer.go")],observe=["Content-Security-Policy header"])
p("C22","The input files are located unambiguously or refused",
 "Locating the inputs takes two arguments as pathbuilder and triples file, one directory as the single .xml and single .nq file directly inside it, or one file (anything that is not a directory) as an index where that is allowed; everything else (another argument count, a missing or non-regular file, none or several candidates, an index where not allowed) is an error and returns no path. On success the returned paths exist and are of the stated kind.",
 ["inputs","configurations"],"all argument counts and all small file system states (kind of every path, directory contents), the file system modelled by its contract",
 "no test covers it",
 ["load.go"],[("FindSource","load.go")],observe=["hangover.FindSource"])
p("C23","Predicate lists parse into exactly their non-empty trimmed items",
 "Parsing a comma- or newline-separated list of predicates yields, in order, exactly the items between separators with surrounding white space removed, leaving out empty ones. Joining any list of clean predicates with either separator parses back to that list.",
 ["inputs"],"every string up to a bounded length",
 "no test covers it",
 [S+"sparkl.go"],[("ParsePredicateString","sparkl/sparkl.go")],observe=["sparkl.ParsePredicateString"])
p("C24","Progress statistics are consistent, nil-safe and frozen once done",
 "Starting, updating and ending stages records exactly the completed stages in order with their last counts, reports the running stage last, and passes every stage's error through unchanged; a nil statistics object accepts every call and does nothing but run the stage. Once closed, no later call changes what is reported (except that a stage already running is still recorded as completed when it ends), and concurrent updates and readers neither race nor observe a mixture of two updates.",
 ["histories","schedules"],"all histories of a few calls with arbitrary counts; pairs of concurrent callers under all schedules up to a bound",
 "no test covers stats",
 ["internal/stats/status.go"],[("Stats.Start/End/DoStage","stats/status.go"),("Stats.SetCT","stats/status.go"),("Stats.Progress","stats/status.go")],observe=["Stats.All","Stats.Progress","Stats.Current"])
p("C25","Every quad becomes the one triple it states",
 "Reading a file of N-Quads yields in order one token per statement, with its subject and predicate, and carrying the object as a node when it is one (an IRI or a blank node) and otherwise the literal's text, with escapes resolved, and its language, whatever its datatype; empty lines and comments yield nothing, a malformed line is an error, a reader error is passed on, and then comes end-of-file. Reopening the source delivers the same tokens again.",
 ["inputs","histories"],"all files of a few statements with any kinds of terms and short arbitrary texts, any few bytes as a line, and a reader that fails anywhere; the quad parser is executed as it is",
 "no test covers the source",
 [S+"index_source.go"],[("QuadSource.Next","sparkl/index_source.go"),("QuadSource.Open","sparkl/index_source.go")],observe=["sparkl.QuadSource"])
p("C26","The disk cache writes and deletes only inside its directory",
 "Whatever bundle identifiers the pathbuilder contains, creating the disk-backed storages opens and deletes only paths strictly inside the given cache directory, and two bundles with different machine names never share a storage. An existing cache at such a path is emptied before use.",
 ["inputs","configurations"],"every bundle identifier of bounded length, pairs of bundles",
 "no test covers it",
 [ST+"disk.go",ST+"storages.go",M+"map_disk.go",G+"engine_disk.go"],[("DiskEngine.NewStorage","storages/disk.go"),("NewDiskStorage","imap/map_disk.go")],observe=["paths passed to the operating system"])
p("C27","Concurrent readers of a finished index or cache do not disturb each other",
 "Once an index is finalized, any number of queries may run at the same time, and each gives the answer it gives alone; likewise lookups in a cache. No write to shared state takes place, so no data race occurs, and an abandoned query does not block others.",
 ["schedules"],"two concurrent queries or lookups on small data under all schedules up to a bounded number of preemptions",
 "the tests query from one goroutine",
 [G+"paths.go",G+"index.go",S+"cache.go"],[("Index queries","igraph/paths.go"),("Cache lookups","sparkl/cache.go")],observe=["igraph.Index","sparkl.Cache"])
p("C28","Modification after finalization is refused and changes nothing",
 "Once an index or label map has been finalized, every attempt to add or identify or finalize again returns the finalized error and leaves all answers as they were. Before that, closing or resetting an index releases every storage it opened, exactly once each, and failing to open one (or failing while indexing) releases those opened before.",
 ["histories","fault_sequences"],"all histories of a few calls around finalization, reset and close, and a failure to open any storage",
 "no test calls a mutator after finalization, resets an index or fails an engine",
 [G+"index.go",M+"imap.go"],[("Index.Finalize/Close/Reset","igraph/index.go"),("IMap.Finalize/Close/Reset","imap/imap.go")],observe=["igraph.Index","imap.IMap"])
p("C29","Progress counters count the bytes and the terminal line stays clean",
 "A progress reader or writer passes data and errors through unchanged and its counter is the number of bytes passed; every flush of a rewritable line starts with a carriage return and blanks out whatever longer text was shown before, closing it leaves an empty line, and writes that come too early are kept and shown by the next flush; a count is shown with its total exactly while it is below it.",
 ["inputs","histories"],"all histories of a few writes with arbitrary lengths, timings and underlying results",
 "the tests check one fixed sequence of contents",
 ["pkg/progress/progress.go"],[("Rewritable.Flush","progress/progress.go"),("Reader.Read","progress/progress.go"),("Writer.Write","progress/progress.go")],observe=["bytes written to the terminal"])
p("C30","Values embedded in attributes cannot leave them",
 "A value placed into a data attribute of a page appears there as an attribute whose value decodes back to exactly that value, whatever characters (other than NUL, which HTML does not have) it contains; no value can end the attribute or add another.",
 ["inputs"],"every value up to a bounded length",
 "no test covers it",
 [V+"html.go"],[("makeDataAttr","viewer/html.go")],observe=["tipsy page attributes"])
p("C31","Command line exports do what their flag says",
 "The n2j command writes a MySQL export for -mysql, an SQLite export for -sqlite, CSV files for -csv and JSON otherwise, each holding exactly the entities and values of the input, and nothing else anywhere; with -sameas, -sql-separator, -sql-field-tables and -cache taken into account. It refuses more than one kind of export, and exits non-zero exactly when an argument is unusable or any step of the export failed.",
 ["configurations","fault_sequences","inputs"],"all combinations of flags over a small input with arbitrary characters in its values, every argument list of up to three, and a failure of any single step",
 "the command has no tests",
 ["cmd/n2j/n2j.go","cmd/n2j/sqlite.go","cmd/n2j/json.go"],[("main","cmd/n2j/n2j.go"),("doJSON","cmd/n2j/json.go"),("doSQL","cmd/n2j/sqlite.go")],observe=["exit status, files and tables written, standard output"])
p("C32","CSV export writes one file per table with every row",
 "The CSV export writes for every table of the SQL export one file holding a header and exactly the rows of that table.",
 ["inputs"],"all small entity sets",
 "the command has no tests",
 ["cmd/n2j/sqlite.go"],[("doCSV","cmd/n2j/sqlite.go")],observe=["CSV files"])
p("C33","The desktop front end survives every order of user actions",
 "Starting, stopping and reconfiguring the viewer from the desktop window in any order leaves at most one server running and never crashes.",
 ["histories","schedules"],"all sequences of user actions",
 "the front end has no tests",
 ["internal/headache/headache.go","internal/headache/ui_run.go"],[("Headache","internal/headache/headache.go")],observe=["window and HTTP server"])

p("C34","The viewer command serves, exports or measures exactly as its flags say",
 "The hangover command listens on the address given by -addr before it loads anything and then serves a viewer that shows the data of its input with every rendering flag in effect; with -export it writes an index that shows the same when it is given as the input of another run, without serving anything; with -bench it only loads. It exits non-zero exactly when an argument is unusable, the address cannot be listened on, or loading or exporting failed.",
 ["configurations","fault_sequences","inputs"],"all combinations of flags over a small input, arbitrary argument lists of up to three, and a failure of any single step",
 "the command has no tests",
 ["cmd/hangover/hangover.go","internal/glass/glass.go","load.go",V+"viewer.go"],[("main","cmd/hangover/hangover.go"),("Glass.Create/Export/Import","internal/glass/glass.go")],observe=["listener, responses, exit status, exported file"])
p("C35","Pages and endpoints show exactly the data they name",
 "The index and its endpoint list exactly the bundles that have data, sorted by name; a bundle lists exactly its entities in order; the page, the endpoint and the downloads of an entity show the entity that the bundle has under that URI or alias, with all its other names, and are not found for any other bundle or URI; the download links of a page lead to the triples of that same entity; every page has the settings of the viewer.",
 ["inputs"],"all URIs, aliases and bundle names up to a bounded length, including every character that needs escaping, all orders of bundles and all rendering flags",
 "no test requests a page or an endpoint of the viewer",
 [V+"html.go",V+"json.go",V+"api.go"],[("Viewer.htmlIndex/htmlBundle/htmlEntity","viewer/html.go"),("Viewer.jsonIndex/jsonBundle/jsonEntity/jsonNTriples/jsonTurtle","viewer/json.go"),("Viewer.findEntity/getBundles/getEntityURIs","viewer/api.go")],observe=["page data, JSON values, downloads, status codes"])
p("C36","Pages and endpoints write data as the text it is, and nothing else",
 "Every page shows the values, languages, URIs, aliases, triples and names it is about completely, in order and with exactly their characters, whatever these are, and every JSON endpoint sends them as well-formed JSON. Data never adds an element, attribute or script to a page and no link made from data runs a script; the only exceptions are formatted texts, shown as HTML exactly when HTML rendering is enabled, and images, embedded exactly when image rendering is enabled. Links made from data lead to what they name. While there is no data yet, pages say so and their forms are disabled.",
 ["inputs"],"all short texts of characters that mean something in HTML, URLs, JSON or scripts, in every place at once, and all rendering flags",
 "no test renders a page",
 [V+"html.go",V+"json.go",V+"fallback.go",V+"templates/entity.html","internal/assets/templates.go","internal/assets/templates/viewer_render_value.html"],[("contextTemplateFuncs","viewer/html.go"),("NewSharedTemplate","assets/templates.go"),("page templates","viewer/templates, assets/templates"),("Viewer.contextGlobal","viewer/html.go")],observe=["the HTML and JSON sent"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P),"properties")
