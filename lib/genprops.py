#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below and from checks.CHECKS."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/lib")
import checks
P = []
def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": ["src/fdb5/" + f if not f.startswith("src/") else f for f in files], "mechanism": [{"name": mech, "where": ", ".join(files[:4])}],
              "state": [{"name": a, "meaning": b} for a, b in state]}})

prop("C01", "Archive, flush, retrieve gives back exactly the archived fields, last write wins",
     "After fields are archived and flush has returned, a reader (a new one, or any process) that retrieves a key obtains exactly the bytes last archived under that key and nothing for keys never archived. Listing the same database reports each archived key exactly once (deduplicated), pointing at those bytes. This holds whatever the order of archive, re-archive and flush calls and whichever indexes and data files they go to.",
     ["histories", "inputs"], "every sequence of archive / flush operations over a few keys (same or different database, index and datum), every payload length and content within the bounds, every choice of the re-archived key",
     "the tests archive a handful of fixed GRIB fields in one order; overwrites, index switches, flush placement and payload boundaries are quantified over histories",
     ["api/LocalFDB.cc", "database/Archiver.cc", "database/ArchiveVisitor.cc", "toc/TocCatalogueWriter.cc", "toc/TocCatalogueReader.cc", "toc/TocStore.cc", "toc/BTreeIndex.cc", "toc/TocIndex.cc", "database/Inspector.cc", "database/MultiRetrieveVisitor.cc"],
     "TocStore appends data and returns a location, TocCatalogueWriter records it in the full and partial index and the TOC at flush; the reader walks indexes newest first and the first match wins")
prop("C02", "Keyword types canonicalise consistently and never merge distinct values",
     "For every keyword type of a schema, two spellings of the same value canonicalise to the same key value, two different values never do, and canonicalising is idempotent. Values that are not legal for the type are rejected with an error rather than stored under some other value. The values a request expands to are exactly the values it denotes, and matching a stored value against a request value agrees with equality of their canonical forms.",
     ["inputs"], "every string value within the length bounds, for each registered keyword type",
     "tests check a few fixed spellings per type; a collision or a lossy spelling needs one particular value out of all of them",
     ["types/Type.cc", "types/TypeStep.cc", "types/TypeDate.cc", "types/TypeTime.cc", "types/TypeExpver.cc", "types/TypeParam.cc", "types/TypeDouble.cc", "types/TypeInteger.cc", "types/TypeMonth.cc", "types/TypeYear.cc", "types/TypeYearMonth.cc", "types/TypeMonthOfDate.cc", "types/TypeClimateDaily.cc", "types/TypeClimateMonthly.cc", "types/TypeGrid.cc", "types/TypeAbbreviation.cc", "types/TypesRegistry.cc"],
     "Type::tidy/toKey/match/getValues, dispatched by TypesRegistry by keyword")
prop("C03", "A schema selects exactly the rules whose predicates the key satisfies",
     "A field key is routed to the first rule whose every predicate it satisfies and the key is split into database, index and datum keys exactly as that rule lists the keywords, with optional and default values filled in; a key that no rule accepts, or that has leftover or missing keywords, is rejected. A request expands to exactly the rule-wise combinations of its values that satisfy those same predicates. Parsing a schema text yields the predicates the text states (values, exclusions, optionals, defaults, hidden keys).",
     ["inputs", "configurations"], "every key, request and schema predicate combination within the bounds, including the schema text characters",
     "tests use a few schemas with fixed keys; the matcher/predicate/value space and the precedence between rules are unbounded",
     ["rules/Schema.cc", "rules/Rule.cc", "rules/Predicate.cc", "rules/SchemaParser.cc", "rules/MatchAny.cc", "rules/MatchValue.cc", "rules/MatchOptional.cc", "rules/ExcludeAll.cc", "rules/MatchHidden.cc", "rules/MatchAlways.cc"],
     "Schema::expand → RuleDatabase/RuleIndex/RuleDatum::expand visit the rules with RuleGraph; Predicate::match asks the Matcher")
prop("C04", "Index axes never hide an archived field and survive encoding",
     "An index's axes contain every value of every datum key put into that index, so a request that names the values of an archived field never skips the index; an axis never reports a keyword value that was not archived. Encoding and decoding an axis (every serialisation version) and merging, sorting or de-duplicating it keeps exactly the same set of values, and an axis that has been written equals the axis that is read.",
     ["inputs", "histories"], "every set and insertion order of keyword values within the bounds, including absent keywords and empty values, every on-disk version",
     "tests insert a few fixed keys; ordering, duplicates, absent keywords and version codecs are input-dependent",
     ["database/IndexAxis.cc", "database/AxisRegistry.cc", "database/Index.cc", "toc/TocIndex.cc"],
     "IndexAxis insert/sort/merge/encode/decode/partialMatch/contains, with AxisRegistry sharing of identical axes")
prop("C05", "Keys compare, match and serialise by their keyword values",
     "Two keys are equal exactly when they have the same keyword-value pairs, and ordering is a strict total order consistent with it. Serialising a key and reading it back gives an equal key, and matching a key against a key or request is true exactly when every keyword present in both has an agreeing value. The textual form and value fingerprint of keys with different values of the same keywords differ.",
     ["inputs"], "every key with up to three keywords and every value within the length bounds",
     "tests use a few literal keys; agreement of equality, order, matching and codecs is a statement about all pairs",
     ["database/BaseKey.cc", "database/Key.cc"],
     "BaseKey stores the pairs and an ordered keyword list; Key adds the keyword order used to print and split")
prop("C06", "Field locations survive being stored, encoded and passed as URIs",
     "A field location (file, offset, length) that is turned into an index reference, a URI, a stream or a remote message and back refers to the same bytes of the same file, and keeps its remap key where the form carries one (URIs and streams). Distinct files get distinct index numbers, and reading the numbering back from disk resolves each number to the file it was given to.",
     ["inputs", "histories"], "every offset, length and remap key up to 64 bits, every sequence of file registrations within the bounds",
     "tests exercise small offsets and one or two files; width truncation or a renumbering needs large or particular values",
     ["toc/FieldRef.cc", "toc/TocFieldLocation.cc", "database/FieldLocation.cc", "database/UriStore.cc", "database/Field.cc", "remote/RemoteFieldLocation.cc"],
     "FieldRef = (uri id, offset, length, details) resolved through UriStore; locations encode to eckit::Stream and to file://path?length#offset URIs")
prop("C07", "The table of contents survives torn writes and crashes",
     "Wherever between two operations on the file system an archiving process dies, another process that opens the database afterwards sees each flushed index completely or not at all, never wrong entries, everything whose flush had returned before is still retrieved, and the database can be written again. The same holds for a reader or a second writer running at that point. A record of which only a part reached the disk is reported as an error or not there, it never gives other entries. A record read back is the record written, whether or not the table of contents is kept in memory.",
     ["crash_points", "inputs"], "every crash point between and inside write calls of an archive/flush session within the bounds; every record content",
     "tests never crash a writer; each crash point and torn length is a separate execution",
     ["toc/TocHandler.cc", "toc/TocRecord.cc", "toc/TocCatalogueWriter.cc", "toc/TocIndex.cc"],
     "data and index are flushed before the TOC record that makes them visible is appended with a single O_APPEND write")
prop("C08", "Reading the table of contents applies masking and newest-first precedence",
     "The indexes visible in a database are exactly those whose records were appended and not later masked (by a clear record for that index or by a masked sub-table), in newest-first order, and sub-tables and overlays contribute their indexes at the position where they were attached. Rewriting or masking an index changes no other index. What is mounted can be unmounted and mounted again, independently of other mounted databases, and whatever is masked, purged or wiped, no file of a mounted database is touched.",
     ["histories", "inputs"], "every sequence of TOC records (init, index, clear, sub-table, overlay) within the bounds and all their offsets and locations",
     "tests build one or two TOC shapes; the record sequences are quantified over histories",
     ["toc/TocHandler.cc", "toc/TocCatalogueReader.cc", "toc/TocCatalogue.cc"],
     "TocHandler::readNext with maskedEntries_ / enumeratedMaskedEntries_, populateMaskedEntriesList, loadIndexes")
prop("C09", "Wipe removes what was requested and nothing else",
     "A wipe removes exactly the indexes (and only the data files no surviving index uses) that its request selects, refuses to remove anything when the database contains files it does not recognise (unless told otherwise), and removes nothing without being told to do it. Every remaining field can still be retrieved after the wipe, and no path outside the databases selected is ever marked for deletion.",
     ["inputs", "histories", "configurations"], "every assignment of indexes, data files and auxiliary files to the selected and unselected sets within the bounds, every option combination",
     "tests wipe a handful of fixed layouts; sharing of data files between indexes and unrecognised files vary over all layouts",
     ["database/WipeState.cc", "database/WipeCoordinator.cc", "toc/TocCatalogue.cc", "toc/TocStore.cc", "api/local/WipeVisitor.cc"],
     "catalogue and store each classify URIs into safe / delete / unknown sets in a WipeState; the coordinator cross-checks them before deletion")
prop("C10", "Purge deletes only duplicated data that no live index entry needs",
     "Purge deletes a data file or an index only when every field in it has been superseded by a newer field with the same key; after a purge every key still retrieves the same bytes as before, and without the do-it option nothing changes.",
     ["histories", "inputs"], "every assignment of fields to indexes and data files and every supersession pattern within the bounds",
     "tests purge one fixed duplication pattern",
     ["toc/TocPurgeVisitor.cc", "toc/TocStats.cc", "api/local/PurgeVisitor.cc", "database/PurgeVisitor.h"],
     "the purge visitor counts adjusted (non-duplicated) entries per index and per data file, newest index first")
prop("C11", "A locked operation is refused and only that operation",
     "After an operation class (list, retrieve, archive, wipe, unique root) is disabled on a database, exactly the disabled classes are refused on that database until they are enabled again, for every combination of classes and sequence of enable/disable calls, and control requests touch no other database. A set of control identifiers iterates, prints, parses and streams as exactly the set it was built from.",
     ["inputs", "histories"], "every subset of identifiers and every sequence of enable/disable operations",
     "tests toggle a few individual identifiers",
     ["api/helpers/ControlIterator.cc", "api/helpers/ControlIterator.h", "toc/TocCatalogue.cc", "api/local/ControlVisitor.cc", "config/Config.cc"],
     "ControlIdentifiers is a bit set; TocCatalogue stores one lock file per disabled identifier")
prop("C12", "Remote protocol headers and messages arrive as they were sent",
     "A message sent over a remote connection is decoded by the peer into the same message kind, client, request identifier and payload, and control and data messages of different clients are never confused, for every value of those fields. Malformed headers or truncated payloads are reported as errors rather than acted on. Each response, data message or error reaches the request it answers, errors with their text, and requests pending on a lost connection fail rather than wait for ever.",
     ["inputs", "schedules", "fault_sequences"], "every header field value, payload size and split, and every header byte corruption within the bounds",
     "tests run a client and server on loopback with a few well-formed exchanges",
     ["remote/Messages.h", "remote/Messages.cc", "remote/Connection.cc", "remote/Connection.h", "remote/client/ClientConnection.cc", "remote/client/RemoteStore.cc", "api/RemoteFDB.cc"],
     "MessageHeader packs marker, version, message, clientID (with the control bit), requestID, payloadSize; Connection reads the fixed header then the payload and end marker")
prop("C13", "Remote read limiting keeps the memory bound and never loses a request",
     "With read limiting, the total size of results outstanding never exceeds the configured limit, a single request larger than the limit is refused, every other request that is queued is eventually sent, exactly once and in order, as earlier ones finish, and finishing or aborting requests in any order releases exactly what they reserved.",
     ["schedules", "histories", "inputs"], "every sequence of tryNextRequest/add/finish/evict operations and every request size within the bounds",
     "no test drives the limiter with interleaved finishes and evictions",
     ["remote/client/ReadLimiter.cc", "remote/client/ReadLimiter.h"],
     "a FIFO of pending requests plus the sum of active result sizes, guarded by one mutex")
prop("C14", "Databases are placed in, and found again under, a matching root",
     "The directory name and root chosen when a key is archived is one that the same configuration finds again when that key is read, two different database keys never share a directory, and only roots that permit an operation (writable to archive, visitable/listable to read) are used for it. Configured naming and space rules apply exactly to the keys their patterns match.",
     ["configurations", "inputs"], "every combination of root flags, space regular expressions and naming templates within the bounds, and every key value",
     "tests use one or two root configurations",
     ["toc/RootManager.cc", "toc/FileSpace.cc", "toc/Root.cc", "toc/TocCommon.cc", "toc/FileSpaceHandler.cc", "toc/ExpverFileSpaceHandler.cc"],
     "RootManager reads spaces/roots/dbNames files; FileSpace::filesystem picks a root through a handler, visitable/writable roots enumerate")
prop("C15", "Data handles read, seek and size like the concatenation of their fields",
     "A handle over several fields yields exactly the fields' bytes in request order: reads of any size, seeks, skips and restarts at any position return the bytes that the concatenation has there, and the estimated size, position and actual length agree. Reading past the end returns short and never repeats, drops or reorders bytes; a failing part is reported and not skipped.",
     ["inputs", "histories", "fault_sequences"], "every list of part lengths and every sequence of read/seek/skip operations and sizes within the bounds",
     "tests read whole handles with one buffer size",
     ["io/FieldHandle.cc", "io/HandleGatherer.cc", "io/SingleGribMungePartFileHandle.cc", "io/FDBFileHandle.cc", "toc/TocFieldLocation.cc"],
     "FieldHandle keeps the list of parts and a current part; HandleGatherer optionally sorts and merges adjacent parts")
prop("C16", "Chunked data views map every chunk index to the right request values",
     "For every axis definition, each chunk index maps to exactly the request values whose row-major position lies in that chunk, different indexes cover disjoint values, together they cover the whole view, and out-of-range indexes are refused. Extension along an axis concatenates parts in order.",
     ["inputs", "configurations"], "every axis shape, chunking choice and index within the bounds",
     "tests use a few fixed shapes",
     ["src/chunked_data_view/ChunkedDataViewImpl.cc", "src/chunked_data_view/ViewPart.cc", "src/chunked_data_view/RequestManipulation.cc", "src/chunked_data_view/Axis.cc"],
     "index_mapping converts flat and multidimensional indexes; ViewPart builds the request of a chunk; ViewImpl picks the part and copies it to the buffer")
prop("C17", "Deduplicated listing reports each key once and keeps the newest",
     "A deduplicated list reports every key visible in the databases exactly once, as the first (newest) occurrence, and a non-deduplicated one reports all occurrences; the combined iterators of several databases yield every element of every source, in order, and end when all have ended. An error in a source is delivered to the consumer.",
     ["inputs", "histories", "schedules"], "every sequence of elements with repeated keys, every distribution over sources within the bounds",
     "tests list a few fixed fields",
     ["api/helpers/ListIterator.cc", "api/helpers/ListIterator.h", "api/helpers/ListElement.cc", "api/helpers/APIIterator.h"],
     "ListIterator keeps a set of seen keys; APIAggregateIterator and APIAsyncIterator combine sources through a queue")
prop("C18", "Multi-lane selection sends each key and request to the matching lanes",
     "A field is archived to the first lane whose selection it satisfies and to no other, a field that no lane accepts is refused, and a query visits exactly the lanes whose selection may hold matching fields, so that a field archived through the selection is always found through it.",
     ["configurations", "inputs"], "every lane configuration (select / exclude rules) and key or request value within the bounds",
     "tests use a few fixed lanes",
     ["api/SelectFDB.cc", "rules/SelectMatcher.cc"],
     "SelectFDB keeps (matcher, FDB) lanes; SelectMatcher holds regex select and exclude lists and a policy for missing keywords")
prop("C19", "Archiving to more databases than can be open loses nothing",
     "When an archiver touches more databases than it may keep open, the database closed is the least recently used and it is flushed before it is closed; every field archived before a flush returns is durable and visible afterwards. Flushing calls every open database, and the archive callbacks fire once per field with its final location.",
     ["histories"], "every sequence of archive operations over more databases than the limit",
     "the default limit is larger than the number of databases in any test",
     ["database/Archiver.cc", "database/BaseArchiveVisitor.cc", "database/ArchiveVisitor.cc"],
     "Archiver::database() keeps a map from database key to (time, catalogue, store) and evicts the oldest at the limit")
prop("C20", "DAOS object ids and UUIDs convert losslessly",
     "A DAOS object identifier or UUID converts to text and back to the same value, carries exactly the type and class bits it was created with, rejects text that is not a legal identifier, and different names hash deterministically with the reserved bits kept clear.",
     ["inputs"], "every 128-bit identifier, every type/class and every text within the bounds",
     "tests use a few literal identifiers",
     ["daos/DaosOID.cc", "daos/UUID.cc", "daos/DaosName.cc"],
     "DaosOID packs hi/lo 64-bit words; hex text with dots separates them")
prop("C21", "C API calls report failures as error codes and never throw",
     "Every C API function returns success only if it did its work, turns every C++ exception (and null arguments) into a documented error code with a message, never lets an exception cross the boundary, and delivers the same values (keys, locations, data) as the C++ API does.",
     ["inputs", "fault_sequences"], "every combination of null/valid handles and failing underlying calls within the bounds, every call order",
     "tests use the C API only in success scenarios and a few errors",
     ["api/fdb_c.cc", "api/fdb_c.h"],
     "wrapApiFunction maps exceptions to codes; handles wrap C++ objects")
prop("C22", "Statistics add up",
     "Summing statistics objects adds every counter exactly, in any order, and the totals reported for archive and flush, for indexes, databases and data files equal the sums over what was done or is stored; encoding statistics and reading them back gives the same numbers.",
     ["inputs", "histories"], "every counter value (64-bit) and every sequence of operations within the bounds",
     "tests check one or two small totals",
     ["api/FDBStats.cc", "toc/TocStats.cc", "database/IndexStats.cc", "database/DataStats.cc", "database/DbStats.cc"],
     "operator+= / add over counters; streamed with eckit::Stream")
prop("C23", "The comparison tool reports a difference exactly when there is one",
     "fdb-compare reports two collections as equal exactly when every field of one has a counterpart with matching content in the other under the selected comparison method and tolerances; missing, extra and differing fields are all reported.",
     ["inputs", "configurations"], "every pair of field sets and every value within the bounds, every tolerance",
     "tests compare a few fixed files",
     ["tools/compare/common/Types.cc", "tools/compare/grib/Compare.cc", "tools/compare/mars/Compare.cc", "tools/compare/common/Util.cc"],
     "DataIndex maps of keys are intersected, then message bytes, keys or values are compared")
prop("C24", "Schemas, rules and wipe plans survive being sent to another process",
     "A schema, a rule or a wipe plan that is streamed to another process behaves there as it does here: the same keys match the same rules, and the same URIs are classified for deletion, kept or unknown. A wipe plan whose signature does not match its contents is refused.",
     ["inputs", "configurations"], "every rule and predicate shape and every wipe plan within the bounds",
     "tests send one schema between processes",
     ["rules/Rule.cc", "rules/Schema.cc", "rules/Predicate.cc", "database/WipeState.cc", "database/Signature.h"],
     "eckit::Streamable encode/constructor pairs and the HMAC-like signature over the URIs of a wipe state")
prop("C25", "Requests parse, print and limit listings as the user wrote them",
     "A tool request that is parsed from text selects exactly the keys the text denotes, is refused when it lacks a required keyword, and prints and streams as the same request; an empty request selects everything only when it says so. A listing limited to a depth shows exactly the databases (depth 1), indexes (depth 2) or fields (depth 3) that the request selects, each once; the axes of a request hold every value of the fields it selects, and a compact listing denotes and counts exactly the fields listed.",
     ["inputs", "histories"], "every request text, set of archived fields and depth within the bounds",
     "tests parse a few fixed requests and list fixed data; which combination of keywords is absent, single or multiple at which level is open",
     ["api/helpers/FDBToolRequest.cc", "api/local/ListVisitor.h", "api/local/AxesVisitor.cc", "api/helpers/ListElement.cc", "api/helpers/ListIterator.cc", "database/EntryVisitMechanism.cc"],
     "FDBToolRequest::requestsFromString and minimum key checks; ListVisitor and AxesVisitor emit one element per database, index or field; ListIterator::dumpCompact merges keys into hypercubes")
prop("C26", "Python and Rust bindings pass requests and data through unchanged",
     "The Python and Rust packages present the same selections, identifiers, data and errors as the C++ API they wrap.",
     ["inputs"], "every request dictionary and returned value",
     "binding tests use a few fixed requests",
     ["src/pyfdb", "rust"], "pybind / cxx wrappers converting requests and handles")
P[-1]["anchors"]["files"] = ["src/pyfdb", "src/pyfdb_bindings", "rust"]
prop("C27", "Moving a database to another root loses, doubles and changes nothing",
     "At any point of a move of a database to another root, whatever the order in which its files are copied, each of its fields is found exactly as it was archived, also after the move has removed the source, and other databases are as they were. A move to where FDB would not find the database, onto an existing database, or from where it may not be removed is refused and changes nothing, and a database being moved takes no further fields at its old place.",
     ["inputs", "histories", "schedules", "configurations"], "every set of fields over databases, indexes, sub-tables and data files within the bounds, every order of copying the files, with and without keeping the source, every destination",
     "tests move one database and look at it afterwards; what a reader sees between the steps, and databases named by rules, are left out",
     ["toc/TocMoveVisitor.cc", "toc/TocStore.cc", "api/local/MoveVisitor.cc", "api/helpers/MoveIterator.h", "toc/RootManager.cc", "tools/fdb-move.cc"],
     "MoveVisitor locks the database and asks TocMoveVisitor and TocStore::moveTo for the files to copy; the TOC is copied after the data and index files, the source is removed last")
prop("C28", "Message streams and copying tools archive each selected field once, unchanged",
     "Reading a stream of messages into an FDB archives exactly the messages the filters select, each under its key with the modifications asked for, in order and with its own bytes; messages without a required keyword or that cannot be archived are reported, and counted as such, not dropped silently. Copying between two FDBs archives in the target every field the request selects, with the same bytes, and nothing else; reindexing makes every selected field readable under the same key from where its data already is.",
     ["inputs", "histories", "fault_sequences"], "every sequence of messages, filters, modifiers and failures within the bounds; every set of fields and request within the bounds",
     "tests copy a few fixed fields without filters or failures",
     ["message/MessageArchiver.cc", "message/MessageDecoder.cc", "tools/fdb-copy.cc", "tools/fdb-reindex.cc", "database/Reindexer.cc", "database/ReindexVisitor.cc"],
     "MessageArchiver decodes each message to a key, filters and modifies it and calls FDB::archive; fdb-copy feeds it from a retrieval, fdb-reindex calls FDB::reindex with the listed location")
prop("C29", "A request for several fields finds each of them, once",
     "Retrieving or inspecting a request that names one or several values of any keywords yields exactly those of the archived fields that it denotes, each once with its newest bytes, whichever databases, rules, indexes and flushes they went to and in whatever accepted spelling the values are given; combinations that were not archived are left out. Retrieve delivers them in the order in which inspect finds them.",
     ["inputs", "histories"], "every set of fields over databases, schema rules, indexes and flushes within the bounds; every combination of single and multiple values",
     "tests retrieve a few whole requests; which values are in which index, and combinations that are not there, are open",
     ["database/MultiRetrieveVisitor.cc", "database/ReadVisitor.cc", "database/Inspector.cc", "toc/TocCatalogueReader.cc", "types/TypeParam.cc", "types/TypeStep.cc", "rules/Rule.cc", "api/LocalFDB.cc"],
     "Inspector expands the request by the schema; MultiRetrieveVisitor opens each database, selects indexes and looks the expanded keys up; the axes of the selected indexes limit the values")
prop("C30", "Servers store, index and answer exactly what each client sent",
     "Each field a client sends to a store server is stored with its own bytes and answered once, to that client, with its location; each location sent to a catalogue server is indexed under its key in that client's database. When a flush is acknowledged, everything the client sent before it is stored and can be found, wherever the server's threads were at the time. Reads and queries are answered by all their data and one end or one error, under the number of the request, and give what the database holds.",
     ["inputs", "schedules", "histories"], "every sequence of fields of two clients within the bounds, alone or several in a message, every flush, and every point between messages at which the archiving and reading threads run",
     "tests run a server with one client and real threads; which thread is ahead is left to chance",
     ["remote/server/ServerConnection.cc", "remote/server/StoreHandler.cc", "remote/server/CatalogueHandler.cc", "remote/Connection.cc", "remote/RemoteConfiguration.cc"],
     "ServerConnection::handle dispatches messages and queues blobs for an archiving thread; CatalogueHandler::flush waits until the number of locations announced has been archived")

NA = {
 "C26": "the Python package and the Rust crate are interpreter and cross-language glue (pybind11, cxx) around the C++ API; their code cannot be lowered into the C++ encoding used here, and the Rust crate cannot be built offline",
}

def docs():
    """CASES.md (every case with its bounds) and the generated tables of DESIGN.md"""
    import glob, re
    out = "# Cases and bounds\n\nGenerated by lib/genprops.py from the harnesses and lib/checks.py.  (thorough N) or (deep N) are the bounds of the thorough tier.\n"
    for p in P:
        i = p["id"]
        out += "\n## %s %s\n" % (i, p["title"])
        if i not in checks.CHECKS:
            out += "Not applicable: %s.\n" % NA.get(i, "no check")
            continue
        C = checks.CHECKS[i]
        for h in C["harness"]:
            src = open(HERE + "/harness/%s.cpp" % h["file"]).read()
            out += "\n`harness/%s.cpp`, code: %s\n\n" % (h["file"], ", ".join(h.get("groups", ["core"])))
            for m in re.finditer(r'SYM_CASE\((\w+),((?:\s*"(?:[^"\\\\]|\\\\.)*")+)', src):
                t = "".join(re.findall(r'"((?:[^"\\\\]|\\\\.)*)"', m.group(2))).replace("\\n", " ")
                out += "* **%s**: %s\n" % (m.group(1), t)
        out += "\nOutside: %s.\n" % C["outside"]
        for a in C.get("assumptions", []):
            out += "Assumed: %s.\n" % a
    open(HERE + "/CASES.md", "w").write(out)
    d = open(HERE + "/DESIGN.md").read()
    k = json.load(open(HERE + "/known_findings.json"))
    t = "| property | commit | what failed |\n|---|---|---|\n"
    for f in k["fixed"]:
        t += "| %s | %s | %s |\n" % tuple(f[len("fixed: property="):].split(" ", 2))
    s = "| change | property and check | breaks | needs |\n|---|---|---|---|\n"
    for f in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
        m = json.load(open(f))
        s += "| %s | %s | %s | %s |\n" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"])
    for name, text in (("defects", t), ("seeds", s)):
        a = "<!-- begin %s -->\n" % name
        if a in d and (name != "seeds" or os.path.isdir(HERE + "/seeded")):
            i = d.index(a) + len(a)
            d = d[:i] + text + d[d.index("<!-- end -->", i):]
    open(HERE + "/DESIGN.md", "w").write(d)
def main():
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    ch = []
    na = []
    for p in P:
        i = p["id"]
        if i in checks.CHECKS:
            C = checks.CHECKS[i]
            ch.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the compiled code (LLVM instrumentation, Z3 bit-vectors)", "level": "model_checking",
                       "level_note": C.get("note", "every path of the harnessed code within the stated bounds is decided by Z3; outside: " + C["outside"])})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": ch, "not_applicable": na,
         "notes": "Each check rebuilds the instrumented library from /repo's working tree, explores the harness cases with Z3 and replays every counterexample natively before reporting it. See DESIGN.md."}
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
docs()
