import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

p("C01","Address lookup returns exactly the most specific stored network",
"For every database file with a well-formed network tree and every IPv4 or IPv6 address, a lookup returns the most specific network of the file that contains the address, with exactly the prefix, country code, AS number and flags stored for it. When no network of the file contains the address the lookup succeeds and reports 'not found'. This holds for every prefix length from the default route to single hosts, and whatever was looked up before.",
["inputs","histories"],"all sets of networks (nesting, siblings, gaps, host routes, default routes, both families) and all addresses",
"Tests look up a handful of addresses in one sample database; nesting shapes where the deepest branch dead-ends and a covering ancestor must answer are never built.",
["src/database.c","src/network.c","src/address.c"],
[("recursive tree walk with fall-back to the deepest covering node","src/database.c:__loc_database_lookup"),("decoding of a stored network","src/network.c:loc_network_new_from_database_v1")],
["loc_database_lookup","loc_database_lookup_from_string"])

p("C02","Building a database never changes the answer for any address",
"Whatever networks are added to a writer and in whatever order, after writing and reopening the database every address resolves to the country code, AS number and flags of the most specific network that was added for it, or to nothing if none was added. Removing redundant networks and merging neighbours is therefore invisible to lookups, and the stored networks contain no redundancy of the kinds that are removed (no network equal in properties to its closest enclosing one and, where networks are not nested, no two halves that could be one). Adding a network that is already present, or an invalid one, is refused and leaves the first one in place.",
["inputs","histories"],"all sets of networks with all property assignments, in all insertion orders, up to the stated bounds",
"networks-dedup.py samples five sets; merging and de-duplication interact with nesting and properties in exponentially many ways.",
["src/network-tree.c","src/writer.c"],
[("redundant network removal","src/network-tree.c:loc_network_tree_dedup"),("merging of neighbours","src/network-tree.c:loc_network_tree_merge"),("tree serialisation","src/writer.c:loc_database_write_networks")],
["loc_writer_add_network","loc_writer_write","loc_database_lookup"])

p("C03","Network enumeration is complete, ordered and filtered exactly",
"Enumerating the networks of a database yields every stored network exactly once, with its stored properties, in address order with enclosing networks before the networks inside them. With filters set, it yields exactly those networks that belong to the chosen address family (if any) and match at least one of the chosen countries, AS numbers or flags (if any of these are chosen). A family, a list of countries or a list of AS numbers that is set again replaces the one that was set before.",
["inputs","configurations"],"all trees and all combinations of family, country, ASN and flag filters",
"The test suite counts networks of one database with a couple of filters.",
["src/database.c","src/network.c"],
[("depth-first tree enumeration","src/database.c:__loc_database_enumerator_next_network"),("filter predicate","src/database.c:loc_database_enumerator_match_network")],
["loc_database_enumerator_next_network"])

p("C04","Flattened enumeration is a disjoint partition that agrees with lookup",
"The flattened enumeration of a database yields pairwise disjoint networks in ascending address order whose union is exactly the set of addresses covered by stored networks, and every address lies in an element that carries the country code, AS number and flags that a lookup of this address returns. With filters set it yields exactly the addresses whose most specific network matches the filters.",
["inputs","configurations"],"all sets of nested networks and all filters",
"Only an element count on one database is tested; a lost or duplicated sliver of address space is invisible to it.",
["src/database.c","src/network.c","src/network-list.c"],
[("subnet collection and exclusion","src/database.c:__loc_database_enumerator_next_network_flattened"),("exclusion of a list of networks","src/network.c:loc_network_exclude_list")],
["loc_database_enumerator_next_network with LOC_DB_ENUMERATOR_FLAGS_FLATTEN"])

p("C05","Bogon listing is exactly the address space nobody is assigned",
"For each address family in which the database stores networks with a country code, the list of bogons consists of valid, pairwise disjoint networks in ascending order that together cover exactly those addresses of the family that lie in no network with a country code. This includes gaps of a single address, gaps that do not start on a power of two, and gaps at the very start and end of the address space.",
["inputs"],"all sets of stored networks with and without country codes",
"test-database checks the first few bogons of one fixed database.",
["src/database.c","src/network-list.c","src/address.c"],
[("gap detection","src/database.c:__loc_database_enumerator_next_bogon"),("range to CIDR conversion","src/network-list.c:loc_network_list_summarize")],
["location list-bogons","loc_database_enumerator_new(LOC_DB_ENUMERATOR_BOGONS)"])

p("C06","Autonomous systems survive storage and are found by number and name",
"Every AS added to a writer is found by its number in the written database with exactly the name given, for every 32-bit number and every number of entries, whatever the insertion order; numbers that were not added are reported as not found and the count equals the number of distinct AS numbers. Enumerating yields every AS exactly once in ascending order, and with a search string exactly those whose name contains it, ignoring case.",
["inputs","histories"],"all sets and insertion orders of AS numbers and names, all probes and search strings",
"The tests store a few ASes and probe them; binary search boundaries and list growth boundaries are not covered.",
["src/writer.c","src/database.c","src/as.c","src/as-list.c","src/stringpool.c"],
[("binary search","src/database.c:loc_database_get_as"),("sorted list","src/as-list.c"),("search","src/as.c:loc_as_match_string")],
["loc_writer_add_as","loc_database_get_as","loc_database_count_as","loc_database_enumerator_next_as"])

p("C07","Countries survive storage and are found by code in any order",
"Every country added to a writer is found by its code in the written database with exactly the name and continent code given, whatever the order in which countries were added and however many there are; a missing continent stays missing and a missing name reads back as missing or empty. Codes that were not added are reported as not found, and enumerating yields every country exactly once in ascending order.",
["inputs","histories"],"all sets and insertion orders of countries, with and without continent and name",
"test-country adds two countries in sorted order.",
["src/writer.c","src/database.c","src/country.c","src/country-list.c"],
[("binary search","src/database.c:loc_database_get_country"),("serialisation","src/country.c:loc_country_to_database_v1")],
["loc_writer_add_country","loc_database_get_country","loc_database_enumerator_next_country"])

p("C08","Strings and metadata are stored and returned byte for byte",
"Vendor, description, license and every AS and country name are returned by the written database byte for byte as they were last set, whatever their length, their number, their sharing of prefixes or suffixes, or the order in which they were set; unset metadata is absent or empty. The creation time lies between the start and the end of the write.",
["inputs","histories"],"all sequences of set/add operations over an adversarial set of strings (empty, shared, multi-byte, longer than any internal block)",
"test-stringpool appends some random strings and checks a few offsets.",
["src/stringpool.c","src/writer.c","src/database.c"],
[("string pool","src/stringpool.c"),("metadata","src/writer.c:loc_writer_set_vendor")],
["loc_database_get_vendor","loc_database_get_description","loc_database_get_license","loc_as_get_name","loc_country_get_name"])

p("C09","A database verifies only if a genuine signature covers its exact bytes",
"Verification with a public key succeeds if and only if at least one of the (up to two) signatures in the file was made with the matching private key over exactly this file's contents; the two signature slots work in every combination of present, absent, foreign and damaged. Changing, inserting, removing or appending any byte outside the signature area makes verification fail, and every failure is reported as a failure.",
["inputs","configurations","fault_sequences"],"all single-byte changes, truncations and appends of a signed file; all combinations of signature slots, key types and verification keys",
"test-signature verifies one valid signature and one wrong key.",
["src/writer.c","src/database.c"],
[("signing","src/writer.c:loc_writer_create_signature"),("verification","src/database.c:loc_database_verify")],
["loc_database_verify","location verify"])

p("C10","No database file can crash, hang or make the reader read out of bounds",
"Whatever bytes a database file contains (truncated, damaged or malicious), opening it and performing every read operation on it terminates and touches only memory that belongs to the library or the file: it either returns an error, 'not found', or a value. A file that is too short, carries a wrong magic or an unknown version, claims a signature longer than the 2048 bytes the format has room for, or whose sections lie outside the file is refused.",
["inputs"],"all single-field corruptions with boundary values, all truncations, and all small trees with arbitrary (also cyclic) edges",
"Tests open two broken files only.",
["src/database.c","src/stringpool.c","src/network.c","src/as.c","src/country.c"],
[("boundary checks","src/database.c:__loc_database_check_boundaries"),("object bounds","src/database.c:loc_database_objects_get"),("string lookup","src/stringpool.c:loc_stringpool_get")],
["loc_database_new and every read operation"])

p("C11","A reported successful write means a complete database was written",
"If any output operation fails while a database is being written (at any point, in any way: short write, error, failure on flush), the write returns an error in bounded time, and never success. If it reports success, the output is a complete database that opens, verifies with the keys used and holds everything that was added.",
["crash_points","fault_sequences"],"all failure positions of the output stream, permanent and transient, with and without signing keys",
"No test injects an I/O failure.",
["src/writer.c"],
[("output with error checks","src/writer.c:loc_writer_write"),("page alignment","src/writer.c:align_page_boundary")],
["loc_writer_write"])

p("C12","Read failures are reported and never mistaken for a valid database",
"If reading or mapping the database or a key fails at any point while it is opened or verified, the operation returns an error in bounded time, releases everything it acquired and never reports a valid database or a valid signature; the caller's file descriptor stays open and usable for a retry.",
["fault_sequences"],"all failure positions of the system calls used for opening and verifying, for all errors they can return",
"No test injects a read failure.",
["src/database.c"],
[("opening","src/database.c:loc_database_open"),("verification","src/database.c:loc_database_verify")],
["loc_database_new","loc_database_verify"])

p("C13","Network arithmetic is exact for every network",
"For every network of either family the first and last address, the prefix, the family, the membership test, the overlap and subnet tests, the ordering and the split into halves agree with exact integer arithmetic on address ranges, IPv4 being the block ::ffff:0:0/96. The ordering is a total order consistent with equality, and no comparison is ever off by one at the edges of an address space.",
["inputs"],"all pairs of networks over bounded universes placed at every depth of both address spaces",
"test-network checks about a dozen pairs.",
["src/network.c","src/address.c","src/libloc/address.h"],
[("address primitives","src/libloc/address.h"),("network predicates","src/network.c")],
["loc_network_* predicates"])

p("C14","Excluding networks leaves exactly the remaining address space",
"Excluding a network, or a whole list of (possibly nested, duplicated or unordered) networks, from an enclosing network yields valid, pairwise disjoint networks inside it whose union is exactly the original addresses minus the excluded ones; excluding the network itself or something larger leaves nothing.",
["inputs"],"all networks and all lists of excluded subnets over bounded universes at several depths of both address spaces",
"test-network excludes three fixed cases.",
["src/network.c","src/network-list.c"],
[("exclusion","src/network.c:loc_network_exclude"),("exclusion of lists","src/network.c:loc_network_exclude_list")],
["loc_network_exclude","loc_network_exclude_list","Network.exclude"])

p("C15","Addresses, networks and country codes are parsed and printed exactly",
"Exactly the valid textual forms of addresses and networks (address, optionally a slash and a decimal prefix length within the family's range) are accepted, everything else is refused without side effects, and an accepted text denotes the address and prefix it says, with host bits cleared. Printing an object and parsing the result gives the same object (the texts of the first and the last address of a network can be used side by side), and country codes are valid exactly if they are two upper-case letters from A to Z that do not start with the reserved X. A network matches a country code exactly if it carries it or, for the special codes A1, A2, A3 and XD, the flag they stand for. (IPv4 networks written in IPv6-mapped notation are outside this property.)",
["inputs"],"all short strings over an adversarial alphabet plus all single-character edits of valid texts, all prefixes, all two-byte country codes",
"Tests parse some well-formed addresses and a few broken ones.",
["src/address.c","src/network.c","src/country.c","src/libloc/country.h"],
[("parser","src/address.c:loc_address_parse"),("formatter","src/address.c:loc_address_str"),("country code check","src/libloc/country.h")],
["loc_network_new_from_string","loc_network_str","loc_database_lookup_from_string","loc_country_new"])

p("C16","Reverse pointers name exactly the network's zone",
"For every network the reverse DNS name consists of exactly the whole octets (IPv4) or nibbles (IPv6) covered by its prefix, in reverse order, under in-addr.arpa or ip6.arpa with the given or default suffix, and with a leading wildcard label exactly if the network is not a single host. Networks whose prefix does not end on an octet or nibble boundary are refused.",
["inputs"],"all prefix lengths of both families and all octet/nibble values at every position",
"test-network checks a few pointers.",
["src/network.c"],
[("reverse pointers","src/network.c:loc_network_reverse_pointer")],
["loc_network_reverse_pointer"])

p("C17","Network, AS and country lists behave like their abstract collections",
"Under every sequence of operations a network list is an ordered set (no duplicates, elements in network order, push/pop/merge/contains/size/get agree with it) and AS and country lists are sequences without duplicates, in the order of insertion until they are sorted, with exact size, get, contains, sort and clear. Growing a list to any size loses, duplicates and reorders nothing, and out-of-range accesses return nothing.",
["histories"],"all operation sequences up to the stated depth, plus growth across all capacity boundaries",
"test-network-list pushes about ten networks.",
["src/network-list.c","src/as-list.c","src/country-list.c"],
[("binary search insertion","src/network-list.c"),("growth","src/as-list.c:loc_as_list_grow")],
["loc_network_list_*","loc_as_list_*","loc_country_list_*"])

p("C18","Objects live exactly as long as someone holds them",
"Whatever objects a program creates (context, database, enumerator, network, AS, country, lists, writer), in whatever order it takes additional references and releases them, every object and everything obtained from it stays valid until its last reference is dropped, nothing is freed twice, and when all references are gone all memory, file handles and mappings have been released.",
["histories"],"all release orders of the object graphs the API can create, including error paths",
"Tests release in one fixed order and check nothing about leaks.",
["src/libloc.c","src/database.c","src/network.c","src/as.c","src/country.c","src/as-list.c","src/country-list.c","src/network-list.c","src/network-tree.c","src/stringpool.c","src/writer.c"],
[("reference counting","src/*.c: loc_*_ref/loc_*_unref")],
["loc_*_ref","loc_*_unref"])

p("C19","Concurrent cursors, handles and writers do not disturb each other",
"Any number of enumerators, lookups and writers can be in progress at the same time in one process, on the same or on different databases: however their steps are interleaved, each one returns exactly what it returns when run alone. Changing the lists passed as filters or objects obtained from the library afterwards does not corrupt the others, and the database can be re-read any number of times with the same result.",
["schedules","histories"],"all interleavings of the steps of several cursors/writers up to the stated bounds",
"Tests run one cursor at a time.",
["src/database.c","src/writer.c","src/network.c"],
[("cursor state lives in the enumerator","src/database.c:struct loc_database_enumerator")],
["loc_database_enumerator_next_*","loc_database_lookup","loc_writer_*"])

p("C20","Python, Lua and Perl bindings give the same answers as the library",
"For every database and every query, the Python, Lua and Perl bindings return the same networks, ASes, countries, strings and verification results as the C library, over the full range of values (32-bit AS numbers, missing names or continents, absent entries, both families). Invalid arguments and absent entries give an exception or nil/undef, never a crash or a wrong value. The function a Lua program sets for logging receives exactly the messages the library logs at the chosen level, whichever coroutine sets it or causes them, and its errors do not disturb the operation.",
["inputs"],"all operations of each binding over databases covering all value classes and over all classes of invalid arguments",
"Binding tests touch a few happy paths each; several need a database that is not shipped.",
["src/python","src/lua","src/perl"],
[("Python binding","src/python/*.c"),("Lua binding","src/lua/*.c"),("Perl binding","src/perl/Location.xs")],
["location module (Python)","location (Lua)","Location (Perl)"])

p("C21","Exports list exactly the addresses of each country, AS or flag",
"For every database, set of requested countries, AS numbers and special codes, address families and output format, the exported files together contain exactly one list per request and family, and each list covers exactly the addresses a lookup attributes to this country, AS or flag. Every line is well-formed for the chosen format, and loading it back (text list, ipset, nftables set, binary ranges) yields the same set of addresses.",
["inputs","configurations"],"all combinations of formats, families and requests over all small databases",
"test-export needs a database that is not available and only checks that nothing raises.",
["src/python/location/export.py","src/scripts/location.in"],
[("routing of networks to writers","src/python/location/export.py:Exporter.export"),("output formats","src/python/location/export.py:*OutputWriter")],
["location export","location.export.Exporter"])

p("C22","An update installs only a complete, verified and newer database",
"Whatever the mirrors do (errors, truncated, corrupt, unsigned, stale or hanging-up responses, in any order) and wherever the update is interrupted, the installed database is at every moment either the previous one or a complete new one that verified with the trusted key, was not older than announced and not older than the one installed. Failing mirrors are skipped as long as another one can serve the database, a failed update is reported by its exit status, and an update that ran to its end or was interrupted by the user leaves no temporary files behind.",
["crash_points","fault_sequences","histories"],"all sequences of mirror behaviours up to the number of mirrors, all crash points of the installation, all announced/installed/offered version relations",
"No test covers the downloader.",
["src/python/location/downloader.py","src/scripts/location.in"],
[("mirror fail-over and checks","src/python/location/downloader.py:Downloader.download"),("atomic replacement","src/scripts/location.in:handle_update")],
["location update","location.downloader.Downloader"])

p("C23","Version discovery understands every DNS answer or reports an error",
"For every DNS reply of up to 512 bytes, well-formed or not, asking for the latest database version terminates without touching memory outside the reply and without depending on anything behind it. From a well-formed reply it returns exactly the timestamp, in RFC date format, in the first string of the TXT record that follows any CNAME records, independent of the local time zone; it reports an error if the record behind the CNAMEs is not a TXT record, does not fit into the reply or holds no such date, or if the lookup fails.",
["inputs","fault_sequences"],"all truncations, length manipulations and record sequences of replies up to the maximum reply size",
"test-libloc does not query DNS (no network).",
["src/resolv.c"],
[("reply parser","src/resolv.c:loc_discover_latest_version")],
["loc_discover_latest_version","location.discover_latest_version"])

p("C24","Command-line answers and exit codes tell the truth",
"For every database and arguments the commands lookup, get-as, search-as, list-countries, list-networks-by-as/cc/flags, list-bogons, dump, verify and version print exactly what the database holds for these arguments. They exit with success exactly if all requested items were found or valid and with a non-zero code, without a traceback, otherwise.",
["inputs","configurations"],"all commands with all combinations of options and argument classes over a set of databases",
"No test runs the command-line program.",
["src/scripts/location.in"],
[("command handlers","src/scripts/location.in:CLI.handle_*")],
["location <command>"])

p("C25","The importer accepts only plausible networks and parses records exactly",
"From every RIR database, delegation list, geofeed, network or AS feed, override file and country list the importer takes over exactly what the valid records state (networks, AS numbers, names, countries, geofeed URLs, flags): address ranges become exactly the networks that cover them, comments, unknown and repeated fields are handled, and records that are malformed or hold invalid values are skipped without affecting their neighbours or failing the import. Networks of RIRs and network feeds which are not globally routable, start at the unspecified address or are larger than a /7 (IPv4) or /10 (IPv6), and their AS numbers which are not publicly routable, are never imported.",
["inputs","histories"],"all sequences of record fields up to the stated bounds and all networks at the plausibility boundaries",
"The importer has no tests.",
["src/scripts/location-importer.in","src/python/location/downloader.py"],
[("parsers","src/scripts/location-importer.in:_parse_*"),("plausibility check","src/scripts/location-importer.in:_check_parsed_network"),("block readers","src/scripts/location-importer.in:iterate_over_blocks, read_blocks"),("downloads","src/python/location/downloader.py:Downloader.retrieve")],
["location-importer"])

p("C26","Concurrent tasks never share a database session",
"However tasks using the import database are scheduled, every task works in a database session of its own: statements and transactions of one task are never seen inside another task's transaction, a transaction is committed if its block finishes and rolled back if it raises or its task is cancelled, every task keeps using the same session until it ends, and all sessions are given back, exactly once and with no transaction open, when their tasks have ended, however they ended.",
["schedules","fault_sequences"],"all interleavings of several tasks' statements and all single failure points, up to the stated bounds",
"There is no test and no PostgreSQL in the test environment.",
["src/python/location/database.py"],
[("per-task connection","src/python/location/database.py:Connection")],
["location.database.Connection"])

p("C27","The same content always gives the same file",
"Writing the same content again, from the same or another writer, with the networks, ASes and countries added in any order, gives the same file contents apart from the creation time and the signatures, and no byte of the file depends on uninitialised or leftover memory. Writing does not alter the writer: it can be written again, extended, and written again with the results expected of its current content.",
["histories"],"all insertion orders and repetitions of writes up to the stated bounds, under different initial memory contents",
"Every test writes once.",
["src/writer.c","src/network-tree.c","src/country.c","src/as.c","src/network.c"],
[("serialisation","src/writer.c:loc_writer_write")],
["loc_writer_write"])

p("C28","A written database states exactly what has been imported",
"For every content of the import database, 'location-importer write' succeeds, leaves that content as it was and writes a database in which every address has the AS of the most specific announcement that covers it, and the country and flags of the most specific applicable entry at each level, later levels taking precedence where they state something: WHOIS networks, geofeeds (only inside networks they are permitted for), network feeds, AS feeds, network overrides, AS overrides. It has the AS names (overridden ones where there are any), countries, vendor, description and license given, and verifies with exactly the keys it was signed with.",
["inputs","histories"],"all combinations of a few facts over nested and neighbouring networks of both families at all levels, and all values of every flag at every level",
"The importer has no tests and there is no PostgreSQL in the test environment.",
["src/scripts/location-importer.in"],
[("compilation","src/scripts/location-importer.in:handle_write")],
["location-importer write"])

p("C29","Every source is imported as a whole or not at all",
"Whatever goes wrong at whatever point of an import (a download that fails, ends early or is corrupt, a database statement that fails, a lost connection, a killed process), the data of every WHOIS source, feed, geofeed, and the overrides and countries is afterwards either all of the previous or all of the new data. A failing source does not keep others from being updated, and is reported by the exit status (for geofeeds by their status in the database). Only requested sources are touched; geofeeds are updated when they are older than a week, keep their data for two weeks when they cannot be updated, and lose it at once when they do not exist any more or are no longer linked.",
["crash_points","fault_sequences","schedules"],"all statements and all download positions as failure points, all orders in which concurrent downloads finish, all combinations of failing geofeeds and of requested sources",
"The importer has no tests.",
["src/scripts/location-importer.in","src/python/location/downloader.py","src/python/location/database.py"],
[("WHOIS sources","src/scripts/location-importer.in:_process_source"),("feeds","src/scripts/location-importer.in:_process_feed"),("geofeeds","src/scripts/location-importer.in:_fetch_geofeed"),("downloads","src/python/location/downloader.py:Downloader.retrieve")],
["location-importer update-whois","location-importer update-feeds","location-importer update-geofeeds","location-importer update-overrides","location-importer import-countries"])

p("C30","Announcements are exactly the valid routes of the routing daemon",
"However Bird's answers are cut into pieces on the socket, the announcements after an update are exactly the routes it reported (of several routes to a network the best, for aggregated routes the last AS of the path before the set) together with those seen during the last 14 days. Default routes, prefixes longer than /24 or /48, networks inside special-purpose IPv4 blocks or outside of global unicast IPv6 space (or in 6to4 space), and AS numbers that are not publicly routable, are never kept. If Bird cannot be reached, reports an error or hangs up, the update ends, reports a failure and changes nothing.",
["inputs","fault_sequences"],"all routing tables of a few lines, all positions at which the stream is cut or ends, all networks and AS numbers at the boundaries",
"The importer has no tests.",
["src/scripts/location-importer.in"],
[("Bird client","src/scripts/location-importer.in:_bird_cmd"),("routes","src/scripts/location-importer.in:_handle_update_announcements_from_bird"),("purge","src/scripts/location-importer.in:handle_update_announcements")],
["location-importer update-announcements"])
p("C31","Running out of memory is reported and does no damage",
"If any memory allocation fails during any call of the library, the call either still gives its complete and correct result or reports a failure; it never crashes, hangs, returns a wrong, incomplete or less specific result as if nothing had happened, writes a database with other contents, or leaves anything behind (memory, file handles, partial results to be released by the caller). All objects stay usable: the same call gives the correct result once memory is available again (an enumeration can be started again), and everything can be released.",
["fault_sequences","histories"],"all allocations of programs that together use the entire API, failing once, twice or until the call returns",
"No test lets an allocation fail.",
["src/network.c","src/network-tree.c","src/network-list.c","src/as.c","src/as-list.c","src/country.c","src/country-list.c","src/database.c","src/writer.c","src/stringpool.c"],
[("growth of lists","src/network-list.c:loc_network_list_grow"),("network tree","src/network-tree.c:loc_network_tree_get_path"),("serialisation","src/writer.c:loc_database_write_networks"),("string pool","src/stringpool.c:loc_stringpool_grow"),("exclusion","src/network.c:loc_network_exclude_list"),("lookup","src/database.c:__loc_database_lookup")],
["all functions of libloc's API"])
p("C32","The bindings hand back everything they took",
"Every operation of the Python, Lua and Perl bindings, whatever its arguments and whether it succeeds or fails, releases all memory, files and mappings it acquired once the objects it returned are no longer used, in whatever order a program creates, uses and drops databases, enumerators, networks, ASes, countries and writers. A program can therefore repeat any operation, also with invalid arguments, any number of times without growing.",
["histories","inputs"],"all operations of the bindings with all arguments of a universe of valid, absent and invalid ones, and all short sequences of operations",
"The tests execute each operation once and never look at what is left behind.",
["src/python/database.c","src/python/network.c","src/python/as.c","src/python/country.c","src/python/writer.c","src/python/locationmodule.c","src/lua/database.c","src/lua/network.c","src/lua/as.c","src/lua/country.c","src/perl/Location.xs","src/perl/typemap"],
[("searches","src/python/database.c:Database_search_networks"),("iteration","src/python/database.c:DatabaseEnumerator_next"),("key files","src/python/writer.c:Writer_init"),("Lua handles","src/lua/database.c:Database_gc"),("Perl handles","src/perl/Location.xs:DESTROY")],
["all methods of the bindings"])
p("C33","Logging goes where it is wanted and changes nothing",
"Every message whose priority a context has been told to log is handed exactly once, in order, to the callback that was registered last for that context, with the context and the data registered with it (or written to standard error, marked as libloc's, when there is none), and nothing less important is ever logged. The priority is initially the one the environment variable LOC_LOG states (a number, or a word that begins with err, info or debug; errors if it is not set; nothing but emergencies if it is not understood), and one context's settings never affect another one. Whatever is logged, also in builds with debug messages, with damaged databases or when memory runs out, every operation gives the same result and touches only valid memory.",
["configurations","inputs","fault_sequences"],"all priorities and callbacks with programs that use all of the API, all short sequences of changes of the settings, all damaged files and failing allocations, and all short values of LOC_LOG",
"The tests run with the default settings, so that code that builds messages is hardly ever executed.",
["src/libloc.c","src/libloc/private.h","src/database.c","src/network.c","src/network-tree.c","src/writer.c","src/stringpool.c","src/resolv.c"],
[("priority","src/libloc.c:log_priority"),("delivery","src/libloc.c:loc_log"),("selection","src/libloc/private.h:loc_log_cond")],
["loc_set_log_callback","loc_set_log_priority","LOC_LOG","all operations"])
p("C34","No program can crash its interpreter through the bindings",
"Whatever a Python, Lua or Perl program does with the objects of the library - uses them before or without initialising them, initialises them again or in vain, uses them after they were closed, from finalizers or while the interpreter exits, passes values of any other type or range - it gets the right result or an exception in the language: never a crash, an access to invalid memory, a result for something that is no database, an error without an exception, or an exception without an error. Objects that were initialised again behave exactly like new ones, and what failed to be initialised keeps its previous state or can be told to be uninitialised. The same holds when memory runs out at any one allocation, after which the objects are still usable.",
["inputs","histories","fault_sequences"],"all functions of all classes in all states of the objects with all values of a universe of all types, all short sequences of initialisations, and all points at which memory can run out",
"The tests use the bindings as they are meant to be used.",
["src/python/database.c","src/python/network.c","src/python/as.c","src/python/country.c","src/python/writer.c","src/python/locationmodule.c","src/lua/database.c","src/lua/network.c","src/lua/as.c","src/lua/country.c","src/perl/Location.xs","src/perl/typemap"],
[("uninitialised objects","src/python/locationmodule.h:RETURN_IF_UNINITIALISED"),("initialisation","src/python/database.c:Database_init"),("Lua checks","src/lua/database.c:luaL_checkdatabase"),("Perl checks","src/perl/typemap:T_LOC_DATABASE")],
["all methods of the bindings"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["id"]
