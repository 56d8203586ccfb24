# prop: (what is decided and how, oracle, cost in s, why beyond tests)
P = {
"C01": ("Database files are composed bit by bit by enc.h (not by the writer), opened with loc_database_new() and looked up at the first, last and neighbouring addresses of every network and its siblings, forward and backward, so that results that depend on previous lookups show.",
  "longest prefix match over the list of encoded networks with 128-bit integers", 33, "tests look up a few addresses of one file; the answer depends on every constellation of nested and sibling networks and on the prefix length"),
"C02": ("Networks are added to a real writer, written, and the file is both read with libloc and decoded by the independent decoder.",
  "longest prefix match over what was added; no stored network equals its closest enclosing one; no two mergeable halves", 55, "deduplication and merging depend on the properties of whole subtrees and insertion order"),
"C03": ("Encoded files are enumerated under all filter combinations.", "sorted list of the encoded networks, filtered by the model", 5, "each filter is an index path of its own and its combination with depth and order is never tested"),
"C04": ("Flattened enumerations of encoded files are collected and compared address class by address class.", "partition computed from the model's longest prefix match; disjointness, order and union", 20, "splitting around nested networks depends on nesting, properties and borders"),
"C05": ("Bogon enumerations of encoded files.", "complement of the union of networks with a country code, as integer intervals", 27, "off-by-one gaps at borders need exhaustive border placement"),
"C06": ("ASes are added to a writer; lookups of every added number and its neighbours, enumeration, count, search.", "sorted map", 5, "binary search and insertion errors depend on the count and position"),
"C07": ("Same for countries, including invalid codes and absent names and continents.", "sorted map", 6, "order of insertion decides whether the binary search works"),
"C08": ("Metadata and names set in all sequences; lengths across every page and growth border.", "last value set, byte for byte", 12, "string pool sharing and growth depend on the history"),
"C09": ("Signature slots are filled by OpenSSL directly; every byte of the file is altered.", "a slot counts iff it is a genuine signature of these bytes by that key", 9, "tests verify one good file and one wrong key"),
"C10": ("All read operations on damaged files in a child process: ASan, guard pages behind the mapping, operation and time budget. Lists of refused files are asserted for the header.", "no crash, no hang, no out-of-bounds access; refused if outside the file", 30, "needs a damaged byte at the right place"),
"C11": ("The output is a cookie stream (fopencookie) which fails at operation n.", "success is only reported if the bytes decode, verify and hold everything", 18, "needs a fault at the right operation"),
"C12": ("System calls are wrapped and fail at call n while opening and verifying; cookie streams for keys.", "no success unless the result is right; descriptor usable; repeated executions do not grow", 30, "needs a fault at the right call"),
"C13": ("Every pair of networks; all functions of network.h.", "128-bit interval arithmetic, and order axioms over all pairs and triples", 7, "edges of the address space"),
"C14": ("Every subset excluded from every enclosing network.", "set difference of intervals", 6, "recursion depends on nesting and order"),
"C15": ("Texts are enumerated from tokens and edits.", "inet_pton and a hand-written grammar for the prefix; print/parse round trip", 5, "acceptance of invalid texts needs enumeration"),
"C16": ("Every prefix of both families.", "names composed from the digits by the model", 3, "only a few prefixes tested"),
"C17": ("Operation sequences on lists.", "sorted set / deduplicated sequence", 11, "growth and order depend on the history"),
"C18": ("All release orders and histories of references; every object is used after each step.", "reference counts in the model: an object is usable while referenced, and all memory, descriptors and mappings are gone at the end", 15, "lifetime errors need a particular order"),
"C19": ("Programs (enumerators with filters, lookups, writers) are stepped by a scheduler; each result is compared with the same program run alone.", "sequential run of each program", 20, "needs two cursors at once in a particular interleaving"),
"C20": ("The Lua and Perl bindings run scripts generated from queries, Python runs in-process with ASan; the results are compared with the C library by ctypes.", "C library (itself decided by C01-C09), model of lifetimes", 13, "bindings convert values of each range differently"),
"C21": ("location export and Exporter write to a scratch directory; the files are loaded back by readers for each format.", "address sets by lookup in the decoded file", 27, "routing of networks to files depends on requests and properties"),
"C22": ("location update runs in a child with a fake mirror; the shim kills or fails each file-system operation; the installed file is inspected after each operation.", "the installed file is the old or the complete new database; exit status; no leftovers", 24, "crash points and mirror sequences"),
"C23": ("Replies are composed and injected by wrapping res_query(); they end at a guard page.", "independent parser of replies and dates", 12, "replies come from the network"),
"C24": ("The location script is run in-process and as a process for every argument sequence.", "texts composed from the decoded database", 10, "no test covers the commands"),
"C25": ("The importer runs on generated sources; its tables are read back from the stand-in database.", "independent parsers that state what each record means", 30, "no test covers the importer"),
"C26": ("The event loop is replaced by one whose ready queue is a choice; cancellations and faults at each step.", "monitors in the stand-in driver: session ownership, transaction nesting, return to the pool", 27, "needs a schedule"),
"C27": ("Content is written by several writers in several orders with patterned memory.", "byte equality apart from time and signatures", 15, "needs repeated writes from different states"),
"C28": ("location-importer write runs on generated table contents; the written file is decoded.", "each address's answer computed level by level from the tables", 29, "no test covers the importer"),
"C29": ("Jobs run with a fault at each statement or download; tables are compared afterwards.", "each source's rows are all old or all new", 9, "needs a fault at a particular point"),
"C30": ("Bird's answers are served by a fake socket in pieces.", "parser of the complete answer; table with ages", 8, "needs a cut at a particular byte"),
"C31": ("Programs that together use the entire API run with the n-th allocation failing (all allocation functions are wrapped at link time); calls that report a failure are repeated with memory available.", "the transcript of the same program without failures; no live allocations, descriptors or mappings at the end; AddressSanitizer", 40, "needs an allocation to fail at a particular point"),
"C32": ("Each operation, and each sequence of operations on objects, is repeated in one process; allocated bytes (as counted by AddressSanitizer's allocator), descriptors and mappings are compared before and after.", "nothing grows with the number of repetitions, nothing is accessed after it was released", 40, "leaks are invisible to tests that run an operation once"),
"C33": ("The library is built with ENABLE_DEBUG; programs run at each priority with monitors as callbacks (or with standard error captured); then with failing allocations, and on damaged files.", "the messages at one priority are exactly those of the debug run that are important enough; the transcripts without logging; a parser of LOC_LOG", 30, "messages are built by code that tests never execute"),
"C34": ("Each function of each class is called by real interpreters with objects in each state (never, in vain, twice initialised, closed, finalized, of other classes, in finalizers) and with values of all types; sequences of initialisations are compared with new objects; then a shim linked into libloc, the binding and Python's allocators lets each allocation of each operation fail in turn.", "AddressSanitizer; the interpreter's exit; facts about the objects compared with those of objects that were initialised once; the result without failures, or an error; allocated bytes before and after", 40, "the tests use the bindings as intended"),
}
