"""Which harnesses decide which property, and within which time."""
TRUST = [
    "clang 18 code generation, the instrumentation pass (engine/pass.cpp), the runtime (engine/runtime.cpp) and Z3 are trusted to find counterexamples; every counterexample is replayed natively before it is reported",
    "library functions re-implemented in engine/models.cpp behave as the originals (compared with them by the selftest check of setup_cmd)",
    "eckit/metkit/eccodes code runs natively: symbolic bytes passed to it are concretised and enumerated (value splits)",
]
CHECKS = {
    "C02": {"harness": [{"file": "types"}], "quick_s": 120, "thorough_s": 700, "outside": "values longer than the stated bounds; dates outside the listed years; parameter numbers outside the listed ranges"},
    "C05": {"harness": [{"file": "key"}], "quick_s": 60, "thorough_s": 500,
            "outside": "values longer than stated per case, more than 3 keywords"},
    "C12": {"harness": [{"file": "remote", "groups": ["fdb5", "-ClientConnectionRouter.cc"]}], "quick_s": 120, "thorough_s": 600,
            "outside": "more messages, longer payloads and more clients than stated; real sockets; interleavings of the listening threads (their loops are run to completion on scripted input) and of the sending thread other than at its steps of taking and sending a queued message (case send_order)",
            "assumptions": ["TCPSocket::read/write are replaced by in-memory byte queues; the connection router returns the one scripted connection"]},
    "C13": {"harness": [{"file": "readlimiter", "groups": ["core", "fdb5/remote/client/ReadLimiter.cc"]}], "quick_s": 90, "thorough_s": 600,
            "outside": "longer histories and more clients than stated; concurrent entry into the limiter (every operation holds its mutex)"},
    "C01": {"harness": [{"file": "history", "share": 0.75}, {"file": "dedupret", "share": 0.25}], "quick_s": 150, "thorough_s": 800,
            "outside": "longer histories, more fields, concurrent processes (C07); fields that differ in keywords MARS does not know, with FDB_DEDUPLICATE_FIELDS; key values are concrete (symbolic key handling is decided by C02, C03, C05)",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C11": {"harness": [{"file": "control"}], "quick_s": 110, "thorough_s": 800,
            "outside": "other actions than those stated; remote control",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C09": {"harness": [{"file": "wipe"}], "quick_s": 200, "thorough_s": 800,
            "outside": "longer histories, more databases; other backends than toc; remote wipes",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C10": {"harness": [{"file": "purge"}], "quick_s": 130, "thorough_s": 800,
            "outside": "longer histories; other backends than toc; overlays; more auxiliary extensions than the default one",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C04": {"harness": [{"file": "axes"}], "quick_s": 120, "thorough_s": 700,
            "outside": "more keys, keywords and longer values than stated; stored indexes (decided with C01, C08)",
            "assumptions": []},
    "C06": {"harness": [{"file": "location", "groups": ["fdb5"]}], "quick_s": 60, "thorough_s": 500,
            "outside": "more fields and files than stated, longer names; the fam store (its URI scheme is not in the eckit of this build)",
            "assumptions": []},
    "C20": {"harness": [{"file": "daos", "groups": ["core", "daosoid"]}], "quick_s": 100, "thorough_s": 700,
            "outside": "the real DAOS client library (the dummy implementation of the repository is used); names longer than 2 characters",
            "assumptions": []},
    "C16": {"harness": [{"file": "cdv", "groups": ["core", "cdv"]}], "quick_s": 150, "thorough_s": 800,
            "outside": "more axes, values and parts than stated; GRIB decoding (a message splitter of the harness stands for it); the Python layer",
            "assumptions": []},
    "C17": {"harness": [{"file": "list"}], "quick_s": 60, "thorough_s": 800,
            "outside": "more elements and sources than stated; values with ':'; keys of different schema rules with the same values; interleavings of producer and consumer (the producer runs to its end first)",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C18": {"harness": [{"file": "select"}], "quick_s": 120, "thorough_s": 800,
            "outside": "more lanes and other match expressions than stated; general regular expressions (metkit's matcher is replaced by a literal reading of the expressions used, which is itself compared with the real one)",
            "assumptions": ["sub-FDBs are recorders of the calls they receive"]},
    "C03": {"harness": [{"file": "schema"}, {"file": "admit"}], "quick_s": 130, "thorough_s": 800,
            "outside": "schemas of other shapes than stated; two database rules of which one key fits both, or two index rules of a database rule with the same index key (the first is then used for both); values that a typed keyword rewrites; explicit types for hidden keywords",
            "assumptions": ["the character reader of eckit (StreamParser) is restated in the harness and compared with the real one"]},
    "C22": {"harness": [{"file": "stats"}], "quick_s": 60, "thorough_s": 600,
            "outside": "counts (not sizes) from 2^31 on a stream (eckit writes a long in 32 bits); printed reports; statistics of the DAOS, fam and remote backends; times",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C14": {"harness": [{"file": "roots"}], "quick_s": 110, "thorough_s": 600,
            "outside": "other rules, patterns and templates than those stated, WeightedRandom/LeastUsed choice among roots (they depend on free space), the fdbRootDirectory/EnvVar overrides, values of more than 2 characters in names (5 for expver); keys whose values contain ':' or '/'",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; regular expressions are libc's"]},
    "C15": {"harness": [{"file": "handles"}], "quick_s": 120, "thorough_s": 600,
            "outside": "handles with re-mapped GRIB messages (eccodes), de-duplicating handles, Lustre striping, asynchronous writing; fields of no bytes; more fields and operations than stated; reading from a server is C12",
            "assumptions": ["eckit's file and memory handles are run, not encoded; the file system of the scratch directory (tmpfs) behaves as POSIX"]},
    "C19": {"harness": [{"file": "archiver"}], "quick_s": 110, "thorough_s": 600,
            "outside": "limits other than 2, more databases and operations than stated, several threads archiving, stores of a server, asynchronous writing",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; the clock is the one of the harness (seconds; it does not go back)"]},
    "C08": {"harness": [{"file": "toc"}], "quick_s": 110, "thorough_s": 600,
            "outside": "longer histories, more indexes, sub-tables and databases than stated; several processes writing at the same time; purging with a database mounted (not implemented in FDB); rewriting (reconsolidation) with a database mounted; fields written to a masked sub-table before its writer closes",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C07": {"harness": [{"file": "crash", "groups": ["fdb5"], "share": 0.8}, {"file": "tocrec", "groups": ["fdb5"], "share": 0.2}], "quick_s": 220, "thorough_s": 780,
            "outside": "data lost or reordered by the kernel after a write call returned (no power failure); more archives, flushes and writers than stated; file systems without atomic append; what is appended after a torn record",
            "assumptions": ["a write of one record with O_APPEND is one atomic step unless it is the torn one; the stand-ins for file system calls apply their effect before the crash point and none after it"]},
    "C24": {"harness": [{"file": "serial", "groups": ["fdb5"]}], "quick_s": 110, "thorough_s": 600,
            "outside": "schemas of other shapes and longer values than stated; plans of more URIs and stores than stated; hash collisions of longer texts; the data files of a plan that the catalogue itself got wrong; auxiliary and unrecognised URIs of a plan (the signature does not cover them)",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; the socket of the server is a recorder of what is written"]},
    "C25": {"harness": [{"file": "tool"}], "quick_s": 130, "thorough_s": 600,
            "outside": "request texts of other shapes than stated (the parser and the expansion are metkit's); keywords that are not of the schema; compact listings of keywords that MARS does not know; locked databases in axes",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C21": {"harness": [{"file": "capi", "groups": ["fdb5"]}], "quick_s": 70, "thorough_s": 600,
            "outside": "fdb_initialise and fdb_new_handle (process-wide state, default configuration); fdb_archive_multiple with real messages; fdb_expand_request; threads sharing the error text; longer call orders than stated",
            "assumptions": ["the FDB behind a handle is a recorder of the calls it receives, which answers with what the harness chose"]},
    "C23": {"harness": [{"file": "compare", "groups": ["fdb5", "compare", "-fdb-compare.cc"]}], "quick_s": 100, "thorough_s": 600,
            "outside": "messages longer than stated, GRIB1 messages over 8 MB, repeated sections of multi-field GRIB2 messages; doubles other than the grid of 12 values and 4 tolerances (floating point is not symbolic); keys found only in the second message with grib-keys; the option parsing of the program",
            "assumptions": ["the eccodes handle of a message is a stand-in that reads the harness's own messages", "the two FDBs are lists of fields of the harness"]},
    "C27": {"harness": [{"file": "move"}], "quick_s": 90, "thorough_s": 600,
            "outside": "which of two complete copies precedes while both exist (a field archived to the new one before the old one is removed, or with --keep); copies of the table of contents cut short; the argument checks of the program; distribution over MPI; index files locked by an open writer",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C28": {"harness": [{"file": "message"}], "quick_s": 120, "thorough_s": 600,
            "outside": "decoding and splitting of GRIB messages (a message format of the harness stands for it); fdb-patch (eccodes); command lines and request files; fdb-write's options",
            "assumptions": ["the base class of the tools that reads their command line is replaced by one that keeps the requests", "in case archive the FDB is a recorder of the calls it receives"]},
    "C29": {"harness": [{"file": "multi"}], "quick_s": 80, "thorough_s": 600,
            "outside": "ranges of steps, wind components computed from others, values spelled otherwise than parameters and dates of the case; other schemas; several roots (C14); FDB_DEDUPLICATE_FIELDS (C01)",
            "assumptions": ["the file system of the scratch directory (tmpfs) behaves as POSIX; threads started by the API run to completion at creation"]},
    "C30": {"harness": [{"file": "server", "groups": ["fdb5"]}], "quick_s": 140, "thorough_s": 600,
            "outside": "separate data connections; the archiving thread stopped in the middle of a field; failures of the file system while a server archives; wiping through servers (C24); statistics and axes through servers; more clients and messages than stated",
            "assumptions": ["TCPSocket::read/write are replaced by in-memory byte queues", "the archiving and reading threads run at points between messages that the harness chooses, or when the server waits for them"]},
}
