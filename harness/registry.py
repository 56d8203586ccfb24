"""Which harness decides which property, and within which bounds"""
from framework import python_harness

NOTE = ("Exhaustive within the stated bounds: every execution of the bounded space is run on the real code, built from the working tree "
    "(C: with AddressSanitizer), and compared with an independent reference model. Trusts the reference model, the compiler and the sanitizer runtime; "
    "says nothing beyond the bounds. ")
NOT_APPLICABLE = {}
CHECKS = {}

def check(prop, quick, thorough=None, technique=None, note="", **kw):
	CHECKS[prop] = dict(bounds=dict(quick=quick, thorough=thorough and "as quick, and: " + thorough or quick),
		technique=technique or INPUTS, note=(NOTE + note).strip(), **kw)

INPUTS = "stateless model checking of the real code: every database content and query of a bounded universe, against a reference model"
HISTORY = "stateless model checking of the real code: every operation sequence up to a depth, against a reference model"
FAULTS = "stateless model checking of the real code under a fault injector: every fault point and kind of every history"
SCHED = "stateless model checking of the real code under a controlled scheduler: every interleaving of bounded programs"
BYTES = "stateless model checking of the real code: every bounded mutation of every input file, with memory and time monitors"

check("C01", src=["c01.c"],
	quick="database files encoded without the writer: all 32768 sets of the 15 networks of a 3-bit tree at every base (sets of at most 4 at bases from the ninth on), each "
		"looked up at every address class in two orders; all pairs of prefix lengths along 5 IPv4 and 6 IPv6 bit patterns; a network at every level with and without siblings; "
		"128 x 128 IPv4 and IPv6 sets in one file; all country codes, every AS bit, all 16 flag bits; network tables of more than 65536 and of more than 262144 entries with trees of more than 262144 nodes",
	thorough="all sets at all bases; all triples of IPv4 prefix lengths")
check("C02", src=["c02.c"],
	quick="all 4^7 assignments of properties to the networks of a 2-bit tree at 4 bases; sets of at most 4 networks of a 3-bit tree; all insertion orders of up to 4 networks; duplicates and "
		"invalid networks at every position; all pairs of prefix lengths; full universes of 1 to 5 bits with every hole; both families together; sets of more than 65536 networks with more than 262144 nodes",
	thorough="10 bases; sets of at most 6; all orders of 5; universes of 6 bits", technique=HISTORY)
check("C03", src=["c03.c"],
	quick="all sets of networks of a 3-bit tree; 128 sets x all filter combinations of families, countries, AS numbers and flags in 2 tree shapes; all prefix pairs; a network at every level; all property "
		"values; more than 65536 and more than 262144 networks; files of the writer",
	thorough="6 tree shapes")
check("C04", src=["c04.c"],
	quick="all sets of networks of a 3-bit tree, with every filter combination on 128 sets; all pairs of prefix lengths with a third network; a network at every level; IPv4 next to enclosing IPv6 networks; large files",
	thorough="more bases and tree shapes")
check("C05", src=["c05.c"],
	quick="all sets of networks (with and without a country) of a 3-bit tree at the start, the middle and the end of both address spaces; both families together; gaps between all pairs of boundaries; all prefix pairs",
	thorough="more bases")
check("C06", src=["c06.c"], technique=HISTORY,
	quick="all sequences of up to 5 additions from numbers at every byte boundary; 0 to 139 ASes in every order pattern; more than 65536 ASes; every bit of the number; all search strings of up to 3 characters over 6",
	thorough="6 additions; up to 599 ASes; search strings of 4")
check("C07", src=["c07.c"], technique=HISTORY,
	quick="all sequences of up to 3 additions; all orders of 5 countries; 0 to 650 countries; all 65536 two-byte codes; names and continents set, unset and changed", thorough="all orders of 6")
check("C08", src=["c08.c"], wraps=["time"], hang=150, technique=HISTORY,
	quick="all sequences of up to 4 settings of metadata and names that share prefixes and suffixes; every length from 0 to 2499; pools around 16 KiB to 2 MiB; many strings; pools of more than 2 GiB up to the limit of 4 GiB; every position of the clock",
	thorough="5 settings; every length up to 9999")
check("C09", src=["c09.c"], technique=BYTES, note="OpenSSL is trusted to sign and verify.",
	quick="every combination of contents (absent, genuine, foreign, damaged, moved) of the two signature slots x keys; every byte changed (3 values), removed, inserted, every truncation; every pair of writer keys; "
		"files that end around every boundary of a buffer; every truncation of a key",
	thorough="all 255 other values of every byte")
check("C10", src=["c10.c"], technique=BYTES,
	quick="every truncation; every header field x boundary values, and pairs of fields; every byte x 256 values in small files; all small node trees including cycles; string pools without a terminator; chains of 127 to 130 "
		"levels; all read operations on each, in a child process with address sanitizer, guard pages behind the file and an operation budget",
	thorough="more pairs of fields; chains of 120 to 139 levels")
check("C11", src=["c11.c"], technique=FAULTS,
	quick="every operation of the output stream fails (error, short, disk full) once or from then on, x 4 kinds of buffering x 0 to 2 keys x contents; a device that is full after every number of bytes",
	thorough="all combinations of keys, contents and kinds; devices that are full after every third byte")
check("C12", src=["c12.c"], technique=FAULTS,
	wraps=["dup", "lseek", "lseek64", "fstat", "read", "pread", "fdopen", "fileno", "fileno_unlocked"],
	quick="every system call and stream operation made while opening (16) and verifying (50), and while reading the key, fails in every way, once, twice, or from then on; repeated to detect growth of memory and descriptors")
check("C13", src=["c13.c"],
	quick="all pairs of networks of 3-bit trees at all pairs of bases at the edges and in the middle of both families; every prefix length with every address bit; invalid prefixes", thorough="4-bit trees")
check("C14", src=["c14.c"],
	quick="all sets of networks of a 3-bit tree excluded in different orders, with duplicates; a network of every length from a network of every length; deep nests; lists of up to 1025 networks", thorough="all bases; all pairs of lengths")
check("C15", src=["c15.c"],
	quick="all sequences of up to 3 tokens; all prefix texts; all single-character edits of representative texts; all 65536 country codes; printing of every prefix length and address bit", thorough="4 tokens; double edits")
check("C16", src=["c16.c"], quick="all prefix lengths of both families x all octet and nibble values at all positions x suffixes")
check("C17", src=["c17.c"], technique=HISTORY,
	quick="all sequences of 5 operations on network lists and 6 on AS and country lists; merges of all small lists; lists of up to 65540 elements", thorough="6 and 7 operations")
check("C18", src=["c18.c"], technique=HISTORY,
	quick="all orders of releasing the objects of every scenario; all histories of 5 creating, referencing and releasing operations; all histories of 2 to 3 writer operations; failing constructors; damaged files; up to 70000 references to one object. "
		"Monitors: address sanitizer, live allocations, descriptors and mappings",
	thorough="7 operations; 4 writer operations")
check("C19", src=["c19.c"], technique=SCHED, quick="all interleavings of 2 programs (enumerators, lookups, writers) of up to 5 steps, on the same and on different databases, and of 3 shorter ones", thorough="8 steps")
check("C23", src=["c23.c"], technique=BYTES,
	wraps=["res_init", "__res_init", "res_ninit", "__res_ninit", "res_query", "__res_query", "res_nquery", "__res_nquery", "res_search", "__res_search"],
	quick="all shapes of replies (CNAME chains, compression, record types and classes); every truncation; every byte x values and pairs of bytes; all sizes of strings; all dates of a grid of time zones; replies cut at 512 bytes; all failures of the resolver. "
		"The reply ends at a guard page, and is followed by different bytes otherwise",
	thorough="more pairs of bytes")
check("C27", src=["c27.c"], technique=HISTORY,
	quick="all sets and all 720 orders of 6 additions; all histories of 4 operations including repeated writes; memory filled with different patterns by the allocator", thorough="5 operations")
check("C20", build=python_harness("c20.py", san=True, languages=("python", "lua", "perl")), technique=INPUTS,
	quick="every query of a universe of arguments (valid, absent, invalid) on every database, in each language; all searches x families x flattening; writers of every version; lists of up to many countries, networks and ASes; all lifetimes of objects; all sequences of 4 logging operations in Lua", thorough="more databases and searches; 5 logging operations")
check("C21", build=python_harness("c21.py"),
	quick="all assignments of properties to the networks of small trees x requests x families x formats; the files loaded back by readers of their formats; 0 to more than 65536 networks",
	thorough="more assignments")
check("C22", build=python_harness("c22.py", shim="fsshim.c"), technique=FAULTS,
	quick="all sequences of 2 mirrors x 5 installed states x 4 announcements, among them versions that differ by a second; kill, ENOSPC, EIO at every file-system operation of an update, and the observable file afterwards; cron; keys", thorough="3 mirrors")
check("C24", build=python_harness("c24.py"), quick="all sequences of 1 to 2 arguments of a vocabulary x databases for every command; formats x families; kinds of standard output; with --quiet and --debug; damaged databases", thorough="3 arguments")
check("C25", build=python_harness("c25.py"), note="PostgreSQL is replaced by a stand-in which executes the importer's statements.",
	quick="all sequences of 1 to 2 records of a vocabulary of valid, malformed and borderline records for every kind of source; every boundary of plausible networks; every encoding of the sources", thorough="3 to 4 records")
check("C26", build=python_harness("c26.py"), technique=SCHED, note="PostgreSQL's driver and pool are replaced by stand-ins that monitor sessions and transactions.",
	quick="all schedules of pairs of tasks of up to 3 steps with at most one cancellation anywhere; longer pairs; triples; tasks started later, or that go on after their cancellation; every single fault of a statement; an exhausted pool", thorough="4 steps")
check("C28", build=python_harness("c28.py"), note="PostgreSQL is replaced by a stand-in which executes the importer's statements.",
	quick="all sets of 1 to 3 facts of a vocabulary that covers every table and level; all subsets of levels; flags; metadata; everything except one fact", thorough="4 facts")
check("C29", build=python_harness("c29.py"), technique=FAULTS, note="PostgreSQL is replaced by a stand-in which executes the importer's statements, with transactions.",
	quick="an error, a lost connection and a crash at every statement of every job, and histories of several runs; every download cut or damaged at every position of a grid; all orders in which geofeeds complete; ages; selections of sources", thorough="every way of failing for every source; all subsets of geofeeds that fail")
check("C30", build=python_harness("c30.py"), technique=HISTORY, note="PostgreSQL is replaced by a stand-in which executes the importer's statements.",
	quick="all sequences of 1 to 3 lines of a vocabulary of routes; the answer cut at every byte and into pieces of every size; end of file at every byte; every reply code; ages of announcements", thorough="4 lines; the answer cut at all pairs of bytes")
check("C31", src=["c31.c"], technique=FAULTS,
	wraps=["EVP_MD_CTX_new", "malloc", "calloc", "realloc", "reallocarray", "strdup", "__strdup", "strndup", "asprintf", "vasprintf", "__asprintf_chk", "__vasprintf_chk"],
	quick="12 programs that use all of the API: any allocation fails, once, together with one of the next two, or with all others until the call returns; failed calls are repeated",
	thorough="together with any of the next 40", note="Allocations made inside of OpenSSL and libc are not failed.")
check("C32", build=python_harness("c32.py", san=True, languages=("python", "lua", "perl"), shim="liveshim.c"), technique=HISTORY,
	quick="every operation of the bindings with every argument of C20's universe, repeated; all sequences of up to 3 operations that create, initialise again, use and drop objects in Python and 2 in Lua", thorough="4 in Python, 3 in Lua")
check("C33", src=["c33.c", "c33b.c"], libcflags=["-DENABLE_DEBUG"], technique=FAULTS,
	wraps=["EVP_MD_CTX_new", "malloc", "calloc", "realloc", "reallocarray", "strdup", "__strdup", "strndup", "asprintf", "vasprintf", "__asprintf_chk", "__vasprintf_chk",
		"res_init", "__res_init", "res_query", "__res_query"],
	quick="15 programs that use all of the API x 13 priorities x a callback or standard error; all sequences of 5 changes of callback, priority and logging operations; all values of LOC_LOG of up to 3 tokens; "
		"C31's programs with any one allocation failing, and C10's damaged files, with everything logged", thorough="6 changes; 4 tokens; lasting failures of allocations; all of C10's thorough files",
	note="Built with debug messages.")
check("C34", build=python_harness("c34.py", san=True, languages=("python", "lua", "perl"), shim="liveshim.c", oom=True), technique=INPUTS,
	quick="every attribute, method and special function of every class x 7 states of the object (among them never initialised, initialised in vain, again, closed) x 40 values of all types, in Python, Lua and Perl; all sequences of up to 3 initialisations; use in finalizers; any one allocation of 56 operations in Python, 17 in Lua and 13 in Perl failing", thorough="pairs of values; 4 initialisations; lasting failures of allocations")
