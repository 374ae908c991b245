#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=hook)))

S = "src/fdb5/"
p("C01", "Archived and flushed fields are retrieved byte for byte, exactly once",
  "Every field whose archive and flush calls succeeded is delivered by any fully specified request that covers its identifiers, through any handle opened afterwards in any process, and the bytes delivered are exactly the archived bytes: nothing lost, truncated, padded, mixed with another field or delivered twice. A request covering several stored fields delivers each of them exactly once, whatever the field sizes, the number of databases and indexes involved, and the interleaving of archives and flushes. Identifiers that were never archived deliver nothing.",
  ["histories", "inputs", "configurations"],
  "all histories of archive/flush/close/reopen over any set of identifiers, field sizes from 1 byte to many MB, and every supported local store layout (main TOC, sub-TOCs, several roots, each serialisation version)",
  "The tests archive a handful of fixed GRIB messages or one repeated blob and read them back; no test generates histories or compares every delivered byte with what was archived.",
  [S+"api/FDB.cc", S+"api/local/", S+"database/Archiver.cc", S+"database/ArchiveVisitor.cc", S+"database/Inspector.cc", S+"toc/TocStore.cc", S+"toc/TocCatalogueWriter.cc", S+"toc/TocCatalogueReader.cc", S+"toc/TocIndex.cc", S+"toc/BTreeIndex.cc", S+"io/"],
  [("data is written before it is indexed, indexes before they are named in the TOC", S+"toc/TocCatalogueWriter.cc flush, "+S+"toc/TocStore.cc archive"),
   ("readers walk the TOC and look every requested key up in the B-trees", S+"toc/TocCatalogueReader.cc retrieve, "+S+"database/MultiRetrieveVisitor.cc")])

p("C02", "Re-archiving masks: last flushed version wins, old versions stay immutable",
  "When the same identifiers are archived again, retrieval, inspection and de-duplicated listing deliver the version flushed last (within one flush, archived last), whichever handle or process wrote it. Stored data are never modified in place: locations reported before keep reading the bytes archived then, the full listing keeps showing every version flushed by an earlier flush, and the duplicates listing shows exactly the masked ones, until a purge or wipe removes them.",
  ["histories"],
  "all histories of repeated archives and flushes of overlapping identifier sets from several handles and successive processes",
  "Tests overwrite a field once or twice within one process; masking depends on the order of TOC records, per-index B-tree state and the reader's reversal, i.e. on the whole history.",
  [S+"toc/TocHandler.cc", S+"toc/TocCatalogueReader.cc", S+"toc/TocCatalogueWriter.cc", S+"toc/BTreeIndex.cc", S+"api/helpers/ListIterator.cc", S+"api/FDB.cc"],
  [("indexes are loaded in TOC order and searched newest first", S+"toc/TocHandler.cc loadIndexes"),
   ("every flush starts a new B-tree; data files are only appended to", S+"toc/TocCatalogueWriter.cc flushIndexes")])

p("C03", "Listing is exact: complete, sound, and de-duplicated as asked",
  "For any request with any subset of keys, each with any set of values, the listing contains exactly the stored fields whose identifiers satisfy every key of the request: all versions in full mode, one (the visible) version per field in de-duplicated mode, only masked versions in duplicates mode, each with its correct identifiers, location, length and bytes. Listings limited to database or index level name each database or index that holds a match, and no other than existing ones matching the keys they define. The compact form describes the same set of fields and the same totals.",
  ["histories", "inputs"],
  "all stored contents and all partial requests over schemas with several rules, optional keys and values that share prefixes",
  "Tests list a few fixed requests on one small data set; exactness is about every partial request against every content, including rules with optional keys and values no test uses.",
  [S+"api/local/ListVisitor.h", S+"api/local/QueryVisitor.h", S+"api/helpers/ListIterator.cc", S+"api/helpers/ListElement.cc", S+"database/EntryVisitMechanism.cc", S+"toc/TocEngine.cc", S+"toc/TocCatalogueReader.cc", S+"toc/BTreeIndex.cc", S+"database/IndexAxis.cc", S+"rules/Schema.cc"],
  [("databases found by regex on directory names and then by key", S+"toc/TocEngine.cc databases"),
   ("indexes filtered by key and axes, entries by canonicalised request", S+"api/local/ListVisitor.h")])

p("C04", "Identity: equivalent spellings are one field, different identifiers never alias",
  "Two sets of identifiers name the same field if and only if their values are equal after each key's type has canonicalised them: any accepted spelling of a value in a request finds the field archived under it, and archiving or retrieving one identity never reads, masks or replaces another, however similar the values. Identifiers that fit no rule of the schema, lack a required key, or are not in canonical form on archive are rejected with an error and no field becomes visible because of them.",
  ["inputs"],
  "all value spellings of each schema type, and all pairs of nearly equal identifiers (prefixes, separators, leading zeros, empty and optional values, case)",
  "Type tests check a dozen literal values per type in isolation; aliasing needs pairs of identities going through fingerprints, directory names, B-tree keys and regex matching together.",
  [S+"types/", S+"database/Key.cc", S+"database/BaseKey.cc", S+"rules/Rule.cc", S+"rules/SelectMatcher.cc", S+"database/KeyChecker.cc", S+"toc/RootManager.cc", S+"database/IndexAxis.cc"],
  [("types canonicalise values; fingerprints join them with ':'", S+"types/TypesRegistry.cc, "+S+"rules/Rule.cc"),
   ("B-tree keys are canonical value strings", S+"toc/BTreeIndex.cc")])

p("C05", "Schema: the documented rule decides, and survives every representation",
  "For every schema text and every identifier set, exactly the rule that the documented matching semantics selects (value lists, exclusions, optional keys, defaults, type annotations) splits the identifiers into database, index and datum keys, and every reader, writer and lister agrees on it. Printing a schema and parsing it again, or encoding it to a stream and decoding it, gives a schema that makes the same decisions. A database keeps the schema it was created with: later changes of the configured schema file neither hide nor re-interpret fields archived before.",
  ["inputs", "programs", "histories"],
  "all schema texts within the grammar and all keys and requests against them",
  "Tests parse three fixed schemas and check a few expansions.",
  [S+"rules/", S+"toc/TocCatalogue.cc", S+"toc/TocCatalogueWriter.cc", S+"config/Config.cc"],
  [("schema parser", S+"rules/SchemaParser.cc"), ("rule selection", S+"rules/Rule.cc, "+S+"rules/Schema.cc"),
   ("schema copied into each database", S+"toc/TocHandler.cc writeInitRecord")])

p("C06", "Crash consistency: a killed or power-cut writer loses nothing acknowledged",
  "If the writing process is killed at any instant, or the machine loses power (losing any file data not explicitly synchronised), everything acknowledged by an earlier successful flush stays listable and retrievable with its exact bytes. The database stays readable and writable by other processes without repair, and no listing or retrieval ever delivers a field whose bytes are not those archived for it; fields not yet acknowledged are either absent or complete.",
  ["crash_points", "fault_sequences"],
  "every system call boundary that modifies the file system during archive, flush and close, including torn writes, main-TOC and sub-TOC modes",
  "No test kills a writer; the guarantee is about every point between two system calls and about the order in which they reach the disk.",
  [S+"toc/TocStore.cc", S+"toc/TocHandler.cc", S+"toc/TocCatalogueWriter.cc", S+"toc/BTreeIndex.cc", S+"io/FDBFileHandle.cc", S+"toc/TocSerialisationVersion.cc"],
  [("write-ahead order data, index, TOC record, each synchronised", S+"toc/TocHandler.cc append, "+S+"toc/TocStore.cc flush"),
   ("TOC records are appended in one write with O_APPEND", S+"toc/TocHandler.cc append")])

p("C07", "I/O faults are reported, and never turn into silent loss or wrong data",
  "If a system call on the store fails or is short (disk full, I/O error, interrupted or partial write), then either the operation still succeeds in full or the archive, flush or retrieve call reports an error: a flush that returned success has made every field archived before it retrievable. No fault makes a retrieval deliver wrong bytes or a short result as if complete, and everything acknowledged before the fault stays retrievable.",
  ["fault_sequences"],
  "every file-system call of an archive/flush/retrieve session failing once with ENOSPC, EIO, EINTR or a short count",
  "No test injects I/O errors.",
  [S+"io/FDBFileHandle.cc", S+"toc/TocHandler.cc", S+"toc/TocStore.cc", S+"toc/TocCatalogueWriter.cc", S+"io/FieldHandle.cc", S+"api/FDB.cc"],
  [("checked system calls", S+"toc/TocHandler.cc, "+S+"io/FDBFileHandle.cc")])

p("C08", "Concurrent processes: linearisable appends, readers see only complete fields",
  "Any number of processes may archive into, list, retrieve from, purge dry-run and query the same databases at the same time: no acknowledged field is ever lost or corrupted by another process, every reader sees for each field some version that was being or had been written and at least the newest one acknowledged before its handle was opened, and never an error, a partial field or a field never archived. Creating the same database at once from several processes yields one consistent database.",
  ["schedules"],
  "all interleavings of file-system operations of several writer and reader processes on shared databases",
  "The process test forks eight writers once and counts; no reader runs concurrently and no schedule is varied.",
  [S+"toc/TocHandler.cc", S+"toc/TocCatalogueWriter.cc", S+"toc/TocStore.cc", S+"toc/TocCatalogueReader.cc", S+"toc/RootManager.cc"],
  [("atomic O_APPEND records, unique file names per process, exclusive creation with adoption of the winner", S+"toc/TocHandler.cc, "+S+"toc/TocCatalogue.cc")])

p("C09", "One handle, many threads: safe, and every call takes effect once",
  "Threads may call archive, flush, list, inspect, retrieve, axes and status at the same time on one handle, or each on its own handle in one process, without data race, deadlock, crash or spurious error. Every archived field is stored exactly once with its own bytes; a flush covers at least everything whose archive call returned before the flush began, from any thread.",
  ["schedules"],
  "all thread interleavings of API calls on shared and private handles",
  "The thread test runs one fixed pattern once without a race detector.",
  [S+"api/FDB.cc", S+"database/Archiver.cc", S+"database/Inspector.cc", S+"toc/TocStore.cc", S+"toc/TocCatalogueWriter.cc", S+"config/Config.cc", S+"rules/Schema.cc", S+"toc/RootManager.cc", S+"api/helpers/APIIterator.h", S+"types/TypesRegistry.cc"],
  [("mutexes in the API object, archiver, catalogue writer and registries", S+"api/FDB.cc, "+S+"database/Archiver.cc, "+S+"rules/Schema.cc")])

p("C10", "Flush is the visibility barrier; callbacks fire exactly once per call",
  "After flush returns, every field archived through the handle is visible to handles opened later; closing a handle flushes; archiving to more databases than are kept open at once loses nothing; flushing with nothing new changes nothing. For every archived field the archive callback is called exactly once with its identifiers, data and a future that yields the location from which, after the flush, exactly its bytes read; the flush callback is called once per effective flush, after all archive callbacks of the fields it covers and once these are visible.",
  ["histories"],
  "all sequences of archive, flush, close over many databases with and without callbacks",
  "One test registers callbacks and archives four fields; eviction (more than 64 open databases) is never reached.",
  [S+"api/FDB.cc", S+"database/Archiver.cc", S+"database/ArchiveVisitor.cc", S+"api/helpers/Callback.h", S+"api/LocalFDB.cc", S+"toc/TocStore.cc"],
  [("archiver keeps an LRU of open databases and flushes on eviction", S+"database/Archiver.cc"), ("promise per archived field", S+"database/ArchiveVisitor.cc")])

p("C11", "Wipe removes exactly what was asked for, and only when asked to do it",
  "Wipe without commitment changes nothing on disk; with it, it removes exactly the databases (request within database keys) or indexes with their data (request down to index keys) that match the request, so that afterwards exactly their fields are gone from listing and retrieval and every other field is untouched and still retrievable. Requests more specific than an index remove nothing; databases locked against wiping are left untouched, the wipe reporting an error or skipping them; files in a database directory that the FDB does not know, and anything outside the directory, are never deleted unless unsafe wiping is demanded, and unknown files stop the wipe of their database. What dry-run announces is what the committed run deletes, and the same identifiers can be archived again afterwards.",
  ["histories", "inputs"],
  "all contents, requests and foreign files; main TOC and sub-TOC layouts, several databases and roots",
  "Wipe tests check a few fixed combinations by counting files.",
  [S+"api/local/WipeVisitor.cc", S+"api/WipeCoordinator.cc", S+"database/WipeState.cc", S+"toc/TocCatalogue.cc", S+"toc/TocStore.cc", S+"tools/fdb-wipe.cc"],
  [("wipe state collects include/exclude sets, sanity-checked before deletion", S+"database/WipeState.cc, "+S+"toc/TocCatalogue.cc")])

p("C12", "Purge removes only data that cannot be reached any more",
  "Purge never changes what retrieval, inspection or de-duplicated listing deliver, for any history of overwriting; it removes only indexes and data files all of whose fields are masked, and never data files outside the database directory, files it does not own, or auxiliary files of data that stay. Without commitment it changes nothing on disk, repeating it removes nothing more, and writing continues normally afterwards.",
  ["histories"],
  "all histories of overlapping archives, in main-TOC and sub-TOC layouts, with re-indexed data shared between databases",
  "Purge tests use two fixed overwrite patterns.",
  [S+"api/local/PurgeVisitor.cc", S+"toc/TocPurgeVisitor.cc", S+"toc/TocStats.cc", S+"toc/TocCatalogue.cc", S+"toc/TocStore.cc"],
  [("statistics visitor counts live and masked entries per index and data file", S+"toc/TocStats.cc, "+S+"toc/TocPurgeVisitor.cc")])

p("C13", "Control identifiers: a locked operation is refused everywhere until unlocked",
  "After an operation (list, retrieve, archive, wipe) is disabled for a database, no handle opened afterwards in any process can perform it on that database: listing and retrieval behave as if the database held nothing, archiving fails with an error and stores nothing, wiping leaves it untouched; all other operations and all other databases are unaffected, status reports exactly the set of enabled operations, and enabling restores the former behaviour with all data. Control applies to exactly the databases the request names, repeated or combined changes are idempotent and independent, and handles or roots configured as not writable or not visitable report so, a root refusing to archive to or retrieve from its databases likewise.",
  ["histories", "configurations"],
  "all sequences of enabling and disabling sets of identifiers mixed with all operations",
  "Tests lock and unlock once through the tool.",
  [S+"api/helpers/ControlIterator.cc", S+"api/local/ControlVisitor.cc", S+"toc/TocHandler.cc", S+"toc/TocCatalogue.cc", S+"database/Catalogue.cc", S+"toc/FileSpace.cc", S+"toc/Root.cc", S+"api/SelectFDB.cc", S+"api/FDBFactory.cc"],
  [("lock files per identifier in the database directory, consulted when a catalogue is opened", S+"toc/TocHandler.cc control/enabled"), ("writable/visitable per configuration and root", S+"api/FDB.cc, "+S+"toc/Root.cc")])

p("C14", "Move relocates a whole database without losing or altering a field",
  "Moving a database to another root leaves, at every point of the documented procedure, each of its fields retrievable with exactly its bytes, and afterwards the same listing (all versions) and retrievals as before from the new root, with auxiliary files carried along and later archives and wipes going to the new place. Nothing else moves, and a move that cannot be made safely (destination not a configured root that may be wiped, or already holding the database; indexes in use by a writer) is refused and changes nothing.",
  ["histories"],
  "all database contents (flush patterns, masked fields, sub-TOCs, auxiliary files) and destinations",
  "One script moves one database with one index.",
  [S+"api/local/MoveVisitor.cc", S+"toc/TocMoveVisitor.cc", S+"tools/fdb-move.cc", S+"api/helpers/MoveIterator.h", S+"toc/TocHandler.cc"],
  [("source locked, files copied, TOC copied last, then source removed", S+"toc/TocMoveVisitor.cc, "+S+"tools/fdb-move.cc")])

p("C15", "Re-indexed, overlaid and hidden data keep pointing at the right bytes",
  "Re-indexing existing fields under other identifiers makes them retrievable there with the same bytes and leaves the original untouched; overlaying a database on another makes every field of the source visible in the target unless the target holds its own version mounted later, and un-overlaying removes exactly that; hiding a database makes its fields disappear until new ones are written. None of these copies or deletes data, and wiping or purging the database that borrows data never deletes the lender's files.",
  ["histories"],
  "all sequences of archive, re-index, overlay, un-overlay, hide, wipe and purge over two databases",
  "Scripts run each tool once on one fixed data set.",
  [S+"tools/fdb-reindex.cc", S+"tools/fdb-overlay.cc", S+"tools/fdb-hide.cc", S+"database/ReindexVisitor.cc", S+"database/Reindexer.cc", S+"toc/TocCatalogueWriter.cc", S+"toc/TocHandler.cc", S+"toc/TocPurgeVisitor.cc"],
  [("sub-TOC entries mount other databases with a remapped key", S+"toc/TocCatalogueWriter.cc overlayDB, "+S+"toc/TocHandler.cc")])

p("C16", "Axes, statistics, dump and status tell the truth about the content",
  "Axes of any request cover every value of every matching stored field and contain no value that no stored field of the selected databases and indexes has; statistics count exactly the stored fields and bytes, with duplicates counted as such; dump shows one initial record, every index with its location and key and every masking record in order; status lists each matching database once with its true location and enabled operations. All of these agree with the listing at all times, across flushes, overwriting, purge and wipe.",
  ["histories", "inputs"],
  "all contents and requests",
  "Tests compare the text output of one data set.",
  [S+"database/IndexAxis.cc", S+"database/AxisRegistry.cc", S+"api/local/AxesVisitor.cc", S+"api/local/StatsVisitor.cc", S+"api/local/DumpVisitor.h", S+"api/local/StatusVisitor.h", S+"toc/TocStats.cc", S+"toc/TocHandler.cc"],
  [("axes stored with each index record", S+"database/IndexAxis.cc"), ("statistics by visiting all entries", S+"toc/TocStats.cc")])

p("C17", "Selecting and distributing front-ends route every field to one right place",
  "With a selecting configuration every archived field goes to the first lane whose selection (and exclusions) its identifiers satisfy, is rejected with an error if no lane accepts it, and is found again by retrieval, inspection and listing through the same configuration; lanes whose selection contradicts a request are not consulted, and results are the union of the lanes that may match. A front-end that distributes (type random) gives each handle exactly one of its lanes: nothing of that handle is read from, written to or deleted from another.",
  ["configurations", "inputs"],
  "all lane selections, exclusions, and partial or full requests",
  "Two tests use a mock with two or three fixed lanes.",
  [S+"api/SelectFDB.cc", S+"api/RandomFDB.cc", S+"rules/SelectMatcher.cc", S+"api/FDBFactory.cc"],
  [("select matcher on first matching lane", S+"rules/SelectMatcher.cc, "+S+"api/SelectFDB.cc")])

p("C18", "Configuration decides where data live and is honoured consistently",
  "For any configuration of spaces, roots, handlers, database naming and experiment-version tables, each database is created under a root of the first space whose regular expression matches and which the handler prescribes, inside no other directory, and all operations of any later process with that configuration find it; roots and spaces not writable are never written to, not visitable never read. Configuration sources override one another in the documented order, and existing databases keep being used where they are.",
  ["configurations"],
  "all combinations of spaces, regular expressions, handlers, root flags, naming files, environment variables and configuration files",
  "Tests use one space with one root or a single fixed expver table.",
  [S+"toc/RootManager.cc", S+"toc/FileSpace.cc", S+"toc/FileSpaceHandler.cc", S+"toc/ExpverFileSpaceHandler.cc", S+"toc/Root.cc", S+"config/Config.cc", S+"database/Manager.cc"],
  [("first matching space, handler picks the root", S+"toc/RootManager.cc, "+S+"toc/FileSpace.cc")])

p("C19", "Remote access is equivalent to local access",
  "Every history of archive, flush, list, inspect, retrieve, read, axes, stats and wipe issued through a remote handle has the same results and the same effects on the store as through a local handle with the server's configuration, for one or many clients at once, one or two connections, and several stores; flush acknowledges only what the store has persisted, errors raised on the server reach the client as errors, and a field is never delivered truncated or mixed with another.",
  ["histories", "schedules", "configurations"],
  "all operation histories by several concurrent clients, message sizes from 1 byte to many MB, and connection modes",
  "Remote tests run one fixed scenario per configuration; the single-connection test is excluded as flaky.",
  [S+"remote/", S+"api/RemoteFDB.cc"],
  [("request/response multiplexing by client and request id", S+"remote/Connection.cc, "+S+"remote/client/"), ("server handlers and archival worker", S+"remote/server/")])

p("C20", "Remote faults end in an error, never in a hang, a crash or false success",
  "If the server process dies or the connection breaks at any point, then every outstanding and later client call either completes correctly or ends with an error in bounded time (destroying a handle whose archival has failed may end its process): no flush reports success for data that were not stored, no retrieval delivers a short result as complete. A long answer that the caller abandons does not block later calls. A server survives any client that vanishes or sends malformed, truncated or unexpected messages and keeps serving the others, and everything acknowledged before the fault stays retrievable.",
  ["fault_sequences", "inputs"],
  "every message boundary as a fault point; all malformed headers and payloads",
  "No test breaks a connection or sends a malformed message.",
  [S+"remote/Connection.cc", S+"remote/Messages.h", S+"remote/client/ClientConnection.cc", S+"remote/server/ServerConnection.cc", S+"remote/server/StoreHandler.cc", S+"remote/server/CatalogueHandler.cc", S+"remote/RemoteFieldLocation.cc", S+"remote/client/RemoteStore.cc"],
  [("listening threads fail outstanding promises and queues on error", S+"remote/client/ClientConnection.cc, "+S+"remote/client/RemoteStore.cc")])

p("C21", "Data handles deliver the same bytes however they are read",
  "The handle returned by a retrieval or by reading listed locations delivers the same byte sequence for every pattern of read sizes, skips, rewinds and, where it claims to be seekable, seeks; announced sizes and positions agree with the bytes delivered, and reading never goes past the caller's buffer. Unsorted reading keeps the requested order; storage-order reading, de-duplication and merging of adjacent or overlapping ranges change order or multiplicity as documented but never the bytes or the set of fields delivered.",
  ["inputs", "programs"],
  "all sequences of read, seek, skip, position, size and rewind calls on handles over any set of fields, in every combination of sorted/unsorted, seekable and de-duplicating modes",
  "Tests copy whole handles once with a large buffer.",
  [S+"io/FieldHandle.cc", S+"io/HandleGatherer.cc", S+"io/SingleGribMungePartFileHandle.cc", S+"io/LustreSettings.h", S+"toc/TocFieldLocation.cc", S+"database/FieldLocation.cc", S+"api/FDB.cc"],
  [("field handle over fields with per-field handles and buffering", S+"io/FieldHandle.cc"), ("gathering and sorting", S+"io/HandleGatherer.cc")])

p("C22", "Stored and transmitted representations round-trip across versions",
  "Databases written with any supported TOC serialisation version, index type, and main-TOC or sub-TOC layout can be read, listed, appended to and wiped by a process configured with any other, with identical results; directories keep their content when relocated as a whole. Every object that travels on a stream (keys, requests, field locations, list elements, axes, statistics, control and wipe elements, schemas) decodes to an equal object.",
  ["configurations", "inputs"],
  "all pairs of writer and reader settings, and all object values",
  "Tests run with the default version; stream round trips are tested for two or three literal objects.",
  [S+"toc/TocSerialisationVersion.cc", S+"toc/TocHandler.cc", S+"toc/TocIndexLocation.cc", S+"toc/BTreeIndex.cc", S+"database/UriStore.cc", S+"database/Key.cc", S+"database/IndexAxis.cc", S+"api/helpers/", S+"database/FieldLocation.cc"],
  [("version tagged TOC records", S+"toc/TocRecord.h, "+S+"toc/TocHandler.cc"), ("encode/decode pairs", S+"api/helpers/")])

p("C23", "No input corrupts memory: malformed files, texts and requests only raise errors",
  "Parsing schema, configuration, key, request and table texts, and reading TOC, index and data files that are truncated, bit-flipped or foreign, never reads or writes out of bounds, uses freed or uninitialised-pointer memory, overflows, recurses or loops without bound, or aborts the process; it ends in a result or in a reported error, and damage to one database does not hide or alter the fields of another.",
  ["inputs", "fault_sequences"],
  "all byte strings as text inputs and all corruptions of stored files",
  "Tests feed well-formed inputs only and run without sanitizers.",
  [S+"rules/SchemaParser.cc", S+"toc/TocHandler.cc", S+"toc/TocRecord.cc", S+"toc/BTreeIndex.cc", S+"database/Key.cc", S+"types/", S+"toc/RootManager.cc", S+"toc/ExpverFileSpaceHandler.cc", S+"config/Config.cc", S+"io/FieldHandle.cc"],
  [("length and version checks on records", S+"toc/TocHandler.cc readNext"), ("parsers raise StreamParser errors", S+"rules/SchemaParser.cc")])

p("C24", "The DAOS backend keeps the same promises as the file backend",
  "With the DAOS catalogue and store every history of archive, flush, list, inspect, retrieve, axes and wipe gives the results the file backend gives: exact bytes, last version wins, exact listings for any partial request, and wiping removes exactly the matching databases or indexes and nothing else. Object and array handles report sizes, positions and errors truthfully for every sequence of reads and writes.",
  ["histories", "inputs"],
  "all histories over the emulated DAOS library",
  "DAOS tests run one fixed scenario each for handle, store and catalogue.",
  [S+"daos/", "src/dummy_daos/"],
  [("key-value catalogue and array store", S+"daos/DaosCatalogueWriter.cc, "+S+"daos/DaosStore.cc")])

p("C25", "Chunked array views place every value of every field where the axes say",
  "For every definition of axes, chunking, extension axis and set of parts, reading any chunk (and, assembled, the whole array) yields for each index tuple exactly the values of the field whose identifiers the axes give there, in row-major order with missing points as the fill value; chunks tile the array exactly, and shape, chunk shape and chunk counts agree. Missing, superfluous or mis-sized fields, inconsistent parts and out-of-range chunk indexes raise an error instead of delivering wrong values.",
  ["inputs", "configurations"],
  "all axis definitions, chunkings, extension axes and part combinations over stored fields",
  "Unit tests fix a few small shapes with mocked fields.",
  ["src/chunked_data_view/", "src/chunked_data_view_bindings/", "src/z3fdb/", "src/pychunked_data_view/"],
  [("axis index arithmetic and extraction", "src/chunked_data_view/ChunkedDataViewImpl.cc, src/chunked_data_view/ViewPart.cc, src/chunked_data_view/GribExtractor.cc")])

p("C26", "The Python interface gives the same results as the C++ interface",
  "Every operation of the Python interface (archive, flush, retrieve, list, inspect, axes, status, stats, control, wipe, purge) has the same effect and result as the C++ call it wraps, for any identifiers given as strings, numbers or sequences; errors of the FDB arrive as Python exceptions, and objects returned stay valid when handles, iterators or the FDB that produced them are dropped in any order. Data handles read through Python deliver exactly the stored bytes for any pattern of reads, into any buffer Python can offer, and touch no memory but that buffer's.",
  ["programs", "inputs"],
  "all Python call sequences over the public classes",
  "Python tests exercise each call once or twice on a fixed data set.",
  ["src/pyfdb/", "src/pyfdb_bindings/"],
  [("pybind11 bindings with keep-alive", "src/pyfdb_bindings/bindings.cc"), ("mapping of selections", "src/pyfdb/")])

p("C27", "The C interface is safe and equivalent, and reports every failure",
  "Every function of the C interface has the effect and result of the C++ operation it wraps, reports any failure through its return code and error text instead of letting an exception or abort escape, and returns strings and objects that stay valid as documented and are freed exactly once. End of iteration is signalled by its own code, data readers deliver exactly the stored bytes for any sequence of open, read, seek, skip, tell and size calls, and failed calls leave the handle usable.",
  ["programs", "inputs"],
  "all call sequences of the C interface, including invalid arguments",
  "The C interface test needs downloaded data and does not run here.",
  [S+"api/fdb_c.h", S+"api/fdb_c.cc"],
  [("every call wrapped in a try block mapping exceptions to codes", S+"api/fdb_c.cc wrapApiFunction")])

p("C28", "Comparison and copying tools never overlook or invent a difference",
  "Comparing two stores reports equality exactly when both hold the same fields with equal content under the chosen criteria, whatever the kind, position and number of differences, and its exit status says so. Copying, reading and writing through the tools transfers exactly the requested fields with exactly their bytes, and the tools signal failure by exit status whenever the operation did not happen as asked.",
  ["inputs", "histories"],
  "all pairs of contents differing in any field, key or byte, and all tool options",
  "Scripts run a few fixed pairs per comparison mode.",
  [S+"tools/"],
  [("hash and bit/key-wise comparison of matched fields", S+"tools/compare/"), ("copy by list and archive", S+"tools/fdb-copy.cc")])

p("C29", "Message archiving obeys its request, filters and modifiers",
  "Archiving a stream of messages stores every message exactly once under the identifiers its own headers give, in order, for any number and size of messages. When a request accompanies it, the call succeeds only if messages and request describe exactly the same set of fields, and otherwise raises an error; include and exclude filters store exactly the messages they select, modifiers change exactly the named keys, and data that are not a valid message are reported and not stored.",
  ["inputs"],
  "all streams of messages, requests, filters and modifiers",
  "Tests archive whole fixed files with one matching request.",
  [S+"message/", S+"api/FDB.cc", S+"tools/fdb-write.cc"],
  [("hypercube check of the request", S+"api/FDB.cc archive(request, handle)"), ("filters and modifiers", S+"message/MessageArchiver.cc")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
