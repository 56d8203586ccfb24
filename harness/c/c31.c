/*
	C31: running out of memory is reported and does no damage

	All allocations of the library go through stand-ins (--wrap). A program is a
	sequence of API calls that writes down what it observes; it is run with any of
	its allocations failing, once or until the call has returned. A call that
	reports a failure is repeated, with memory available again, and the transcript
	must in the end be the one of a run in which nothing fails.
*/
#include "sig.h"

const char* mc_property = "C31";

/*
	Faults
*/
static int active;			// inside of a call
static int armed;			// may allocations fail?
static int position = -1;	// of the allocation that fails
static int second;			// distance of another one that fails (0: none)
static int lasting;			// do all following ones fail until the call returns?
static int allocs;			// so far
static int hits;			// allocations that failed during this call

static int no_memory(void) {
	if (!active)
		return 0;
	int i = allocs++;
	if (!armed)
		return 0;
	if (i == position || (lasting && hits) || (second && i == position + second)) {
		hits++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

void* __real_malloc(size_t n);
void* __wrap_malloc(size_t n) { return no_memory() ? NULL : __real_malloc(n); }
void* __real_calloc(size_t n, size_t m);
void* __wrap_calloc(size_t n, size_t m) { return no_memory() ? NULL : __real_calloc(n, m); }
void* __real_realloc(void* p, size_t n);
void* __wrap_realloc(void* p, size_t n) { return n && no_memory() ? NULL : __real_realloc(p, n); }
void* __real_reallocarray(void* p, size_t n, size_t m);
void* __wrap_reallocarray(void* p, size_t n, size_t m) { return n && no_memory() ? NULL : __real_reallocarray(p, n, m); }
char* __real_strdup(const char* s);
char* __wrap_strdup(const char* s) { return no_memory() ? NULL : __real_strdup(s); }
char* __wrap___strdup(const char* s) { return no_memory() ? NULL : __real_strdup(s); }
char* __real_strndup(const char* s, size_t n);
char* __wrap_strndup(const char* s, size_t n) { return no_memory() ? NULL : __real_strndup(s, n); }
int __real_vasprintf(char** p, const char* fmt, va_list args);
int __wrap_vasprintf(char** p, const char* fmt, va_list args) {
	if (no_memory()) {
		// (the contents of the pointer are undefined then)
		*p = (char*)0x10;
		return -1;
	}
	return __real_vasprintf(p, fmt, args);
}
int __wrap___vasprintf_chk(char** p, int flag, const char* fmt, va_list args) { return __wrap_vasprintf(p, fmt, args); }
int __wrap_asprintf(char** p, const char* fmt, ...) {
	va_list args;
	va_start(args, fmt);
	int r = __wrap_vasprintf(p, fmt, args);
	va_end(args);
	return r;
}
int __wrap___asprintf_chk(char** p, int flag, const char* fmt, ...) {
	va_list args;
	va_start(args, fmt);
	int r = __wrap_vasprintf(p, fmt, args);
	va_end(args);
	return r;
}

EVP_MD_CTX* __real_EVP_MD_CTX_new(void);
EVP_MD_CTX* __wrap_EVP_MD_CTX_new(void) { return no_memory() ? NULL : __real_EVP_MD_CTX_new(); }

/*
	Transcripts
*/
#define MAXTEXT (1 << 20)
static char text[MAXTEXT], expected[MAXTEXT];
static size_t length;

static void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
static void say(const char* fmt, ...) {
	va_list args;
	va_start(args, fmt);
	length += vsnprintf(text + length, MAXTEXT - length, fmt, args);
	va_end(args);
	if (length >= MAXTEXT)
		mc_abort("the transcript is too long");
}

static int failures;		// calls that reported a failure
static const char* during;	// the program

static void begin(void) {
	hits = 0;
	active = 1;
}
// Returns whether the call has to be repeated
static int again(int ok, const char* what) {
	active = 0;
	mc_ops(1);
	mc_checks(1);
	if (ok)
		return 0;
	if (!hits)
		mc_fail("%s: %s failed although memory was available", during, what);
	failures++;
	return 1;
}
// Calls until it succeeds
#define CALL(ok, call) do { begin(); call; } while (again(!!(ok), #call))
// Calls once; true if it failed for lack of memory
#define FAILS(ok, call) ({ begin(); call; again(!!(ok), #call); })

static void say_net(const char* what, struct loc_network* n) {
	if (!n) {
		say("%s: none\n", what);
		return;
	}
	net_t x;
	lk_read(n, &x);
	say("%s: %s (%s) %s\n", what, m_net_str(&x), loc_network_str(n), m_props_str(&x));
}
static void say_nets(const char* what, struct loc_network_list* list) {
	size_t n = loc_network_list_size(list);
	say("%s: %zu networks\n", what, n);
	for (size_t i = 0; i < n; i++) {
		struct loc_network* x = loc_network_list_get(list, i);
		say_net(what, x);
		loc_network_unref(x);
	}
}
static struct loc_network* net(const char* s) {
	struct loc_network* n = NULL;
	int r;
	CALL(r == 0, r = loc_network_new_from_string(lk_ctx, &n, s));
	return n;
}

/*
	Programs
*/
static void p_objects(void) {
	int r;
	struct loc_ctx* ctx = NULL;
	CALL(r == 0, r = loc_new(&ctx));
	loc_unref(ctx);

	struct loc_as* as = NULL;
	CALL(r == 0, r = loc_as_new(lk_ctx, &as, 4200000000u));
	CALL(r == 0, r = loc_as_set_name(as, "First"));
	say("%u %s\n", loc_as_get_number(as), loc_as_get_name(as));
	while (FAILS(r == 0, r = loc_as_set_name(as, "Second"))) {
		// Whatever name it has now
		const char* s = loc_as_get_name(as);
		mc_assert(!s || !*s || !strcmp(s, "First"), "an AS has the name %s after setting it has failed", s);
	}
	say("%u %s\n", loc_as_get_number(as), loc_as_get_name(as));
	CALL(r == 0, r = loc_as_set_name(as, NULL));
	loc_as_unref(as);

	struct loc_country* c = NULL;
	CALL(r == 0, r = loc_country_new(lk_ctx, &c, "DE"));
	CALL(r == 0, r = loc_country_set_continent_code(c, "EU"));
	CALL(r == 0, r = loc_country_set_name(c, "First"));
	while (FAILS(r == 0, r = loc_country_set_name(c, "Second"))) {
		const char* s = loc_country_get_name(c);
		mc_assert(!s || !*s || !strcmp(s, "First"), "a country has the name %s after setting it has failed", s);
	}
	say("%s %s %s\n", loc_country_get_code(c), loc_country_get_continent_code(c), loc_country_get_name(c));
	loc_country_unref(c);

	struct loc_network* n = net("10.1.0.0/16");
	CALL(r == 0, r = loc_network_set_country_code(n, "DE"));
	say_net("network", n);
	struct loc_network* x = NULL;
	CALL(r == 0, r = loc_network_new(lk_ctx, &x, loc_network_get_first_address(n), 24));
	say_net("network", x);
	loc_network_unref(x);
	loc_network_unref(n);
}

static void p_pointers(void) {
	static const char* nets[] = { "10.11.12.13/32", "10.11.12.0/24", "10.11.0.0/16", "10.0.0.0/8", "0.0.0.0/0", "::/0", "2001:db8::/32", "2001:db8::1/128" };
	for (int i = 0; i < 8; i++)
		for (int s = 0; s < 2; s++) {
			struct loc_network* n = net(nets[i]);
			char* p;
			CALL(p, p = loc_network_reverse_pointer(n, s ? "example.com." : NULL));
			say("%s\n", p);
			free(p);
			loc_network_unref(n);
		}
}

static void p_subnets(void) {
	static const char* nets[] = { "10.0.0.0/8", "0.0.0.0/0", "::/0", "2001:db8::/127" };
	for (int i = 0; i < 4; i++) {
		struct loc_network* n = net(nets[i]);
		struct loc_network* a = NULL;
		struct loc_network* b = NULL;
		int r;
		loc_network_set_country_code(n, "DE");
		while (FAILS(r == 0, r = loc_network_subnets(n, &a, &b)))
			a = b = NULL;
		say_net("first", a);
		say_net("second", b);
		loc_network_unref(a);
		loc_network_unref(b);
		loc_network_unref(n);
	}
}

static void p_exclude(void) {
	struct loc_network* n = net("10.0.0.0/8");
	static const char* others[] = { "10.128.0.0/9", "10.3.0.0/16", "10.0.0.1/32", "10.255.255.255/32" };
	struct loc_network_list* list;
	struct loc_network_list* result;
	int r;
	for (int i = 0; i < 4; i++) {
		struct loc_network* o = net(others[i]);
		CALL(result, result = loc_network_exclude(n, o));
		say_nets("exclude", result);
		loc_network_list_unref(result);
		loc_network_unref(o);
	}
	for (int set = 1; set < 16; set++) {
		CALL(r == 0, r = loc_network_list_new(lk_ctx, &list));
		for (int i = 0; i < 4; i++)
			if (set >> i & 1) {
				struct loc_network* o = net(others[i]);
				CALL(r == 0, r = loc_network_list_push(list, o));
				loc_network_unref(o);
			}
		CALL(result, result = loc_network_exclude_list(n, list));
		say_nets("exclude list", result);
		loc_network_list_unref(result);
		loc_network_list_unref(list);
	}
	loc_network_unref(n);
}

static void p_network_lists(void) {
	struct loc_network_list* a = NULL;
	struct loc_network_list* b = NULL;
	int r;
	CALL(r == 0, r = loc_network_list_new(lk_ctx, &a));
	CALL(r == 0, r = loc_network_list_new(lk_ctx, &b));
	for (int i = 0; i < 1100; i++) {
		char s[64];
		struct loc_network* n = NULL;
		snprintf(s, sizeof(s), "10.%d.%d.0/24", i * 7 % 1100 / 256, i * 7 % 1100 % 256);
		if (loc_network_new_from_string(lk_ctx, &n, s))
			mc_abort("network");
		CALL(r == 0, r = loc_network_list_push(i % 3 ? a : b, n));
		if (i % 11 == 0)
			CALL(r == 0, r = loc_network_list_push(a, n));
		loc_network_unref(n);
	}
	say("%zu %zu\n", loc_network_list_size(a), loc_network_list_size(b));
	CALL(r == 0, r = loc_network_list_merge(a, b));
	say_nets("merged", a);
	loc_network_list_unref(b);
	loc_network_list_clear(a);
	struct loc_network* n = net("::/0");
	CALL(r == 0, r = loc_network_list_push(a, n));
	say_nets("again", a);
	loc_network_unref(n);
	loc_network_list_unref(a);
}

static void p_as_lists(void) {
	struct loc_as_list* l = NULL;
	int r;
	CALL(r == 0, r = loc_as_list_new(lk_ctx, &l));
	for (int i = 0; i < 1030; i++) {
		struct loc_as* as = NULL;
		if (loc_as_new(lk_ctx, &as, (i * 7) % 1030 + 1))
			mc_abort("AS");
		CALL(r == 0, r = loc_as_list_append(l, as));
		loc_as_unref(as);
	}
	for (int i = 0; i < 3; i++) {
		static const uint32_t numbers[] = { 1, 1030, 1031 };
		CALL(r >= 0, r = loc_as_list_contains_number(l, numbers[i]));
		say("%u: %d\n", numbers[i], !!r);
	}
	for (size_t i = 0; i < loc_as_list_size(l); i++) {
		struct loc_as* as = loc_as_list_get(l, i);
		say("%u ", loc_as_get_number(as));
		loc_as_unref(as);
	}
	loc_as_list_unref(l);

	struct loc_country_list* c = NULL;
	CALL(r == 0, r = loc_country_list_new(lk_ctx, &c));
	static const char* codes[] = { "DE", "AT", "ZZ", "CH" };
	for (int i = 0; i < 3; i++) {
		struct loc_country* x = NULL;
		CALL(r == 0, r = loc_country_new(lk_ctx, &x, codes[i]));
		CALL(r == 0, r = loc_country_list_append(c, x));
		loc_country_unref(x);
	}
	for (int i = 0; i < 4; i++) {
		CALL(r >= 0, r = loc_country_list_contains_code(c, codes[i]));
		say("%s: %d\n", codes[i], !!r);
	}
	for (size_t i = 0; i < loc_country_list_size(c); i++) {
		struct loc_country* x = loc_country_list_get(c, i);
		say("%s ", loc_country_get_code(x));
		loc_country_unref(x);
	}
	loc_country_list_unref(c);
}

// Databases
static struct key keys[2];
static unsigned char* file;
static size_t file_length;

static void init(void) {
	lk_init();
	for (int i = 0; i < 2; i++)
		sig_key(&keys[i], "EC", "P-256", 0);
	static net_t nets[] = {
		{ .plen = 104, .cc = "DE", .asn = 100 },
		{ .plen = 112, .cc = "AT", .asn = 200, .flags = 4 },
		{ .plen = 128, .asn = 100 },
		{ .plen = 112, .cc = "DE", .flags = 1 },
		{ .plen = 32, .cc = "DE", .asn = 300 },
		{ .plen = 48, .cc = "CH", .asn = 4200000000u },
	};
	static const char* texts[] = { "::ffff:10.0.0.0", "::ffff:10.1.0.0", "::ffff:10.1.2.3", "::ffff:172.16.0.0", "2001:db8::", "2001:db8:1::" };
	for (int i = 0; i < 6; i++)
		nets[i].addr = m_parse(texts[i]);
	m_sort(nets, 6);
	static struct enc_as as[] = { { 100, "Hundred" }, { 200, "Two Hundred" }, { 300, "" }, { 4200000000u, "Large" } };
	static struct enc_country countries[] = { { "AT", "EU", "Austria" }, { "CH", "EU", "Switzerland" }, { "DE", "EU", "Germany" } };
	struct enc e = { .nets = nets, .nnets = 6, .as = as, .nas = 4, .countries = countries, .ncountries = 3, .vendor = "Vendor",
		.description = "Description", .license = "CC", .created_at = 1700000000, .compact = 1 };
	file = encode(&e, &file_length);
	unsigned char sig[2048];
	size_t l = sig_sign(&keys[0], file, file_length, sig);
	sig_put(file, 1, sig, l);
}
void (*mc_worker_init)(void) = init;

static struct loc_database* database(void) {
	struct loc_database* db = NULL;
	FILE* f = lk_file(file, file_length);
	int r;
	CALL(r == 0, r = loc_database_new(lk_ctx, &db, f));
	fclose(f);
	return db;
}

static void p_database(void) {
	struct loc_database* db = database();
	int r;
	say("%s %s %s %zu\n", loc_database_get_vendor(db), loc_database_get_description(db), loc_database_get_license(db), loc_database_count_as(db));
	static const char* addresses[] = { "10.1.2.3", "10.1.2.4", "10.2.0.0", "11.0.0.0", "2001:db8:1::1", "2001:db8::", "2001:db9::", "::1" };
	for (int i = 0; i < 8; i++) {
		struct loc_network* n = NULL;
		CALL(r == 0, r = loc_database_lookup_from_string(db, addresses[i], &n));
		say_net(addresses[i], n);
		if (n)
			loc_network_unref(n);
	}
	static const uint32_t numbers[] = { 100, 200, 300, 4200000000u };
	for (int i = 0; i < 4; i++) {
		struct loc_as* as = NULL;
		CALL(r == 0 && as, r = loc_database_get_as(db, &as, numbers[i]));
		say("AS%u %s\n", loc_as_get_number(as), loc_as_get_name(as));
		loc_as_unref(as);
	}
	static const char* codes[] = { "AT", "CH", "DE" };
	for (int i = 0; i < 3; i++) {
		struct loc_country* c = NULL;
		CALL(r == 0 && c, r = loc_database_get_country(db, &c, codes[i]));
		say("%s %s %s\n", loc_country_get_code(c), loc_country_get_continent_code(c), loc_country_get_name(c));
		loc_country_unref(c);
	}
	for (int i = 0; i < 2; i++) {
		FILE* k = sig_file(keys[i].pub, keys[i].publen);
		begin();
		r = loc_database_verify(db, k);
		active = 0;
		fclose(k);
		// A signature that cannot be verified is not valid
		mc_assert(i ? r != 0 : (r == 0 || hits), "the signature is %svalid", r ? "in" : "");
	}
	loc_database_unref(db);
}

enum { E_ALL, E_FLAT, E_CC, E_AS, E_FLAT_AS, E_FLAG, E_V6, E_BOGONS, E_BOGONS6, E_ASES, E_SEARCH, E_COUNTRIES, E_KINDS };
// Returns the number of objects, or -1 if there was not enough memory
static int enumerate(struct loc_database* db, int kind) {
	struct loc_database_enumerator* e = NULL;
	int r, n = 0;
	int mode = kind >= E_COUNTRIES ? LOC_DB_ENUMERATE_COUNTRIES : kind >= E_ASES ? LOC_DB_ENUMERATE_ASES :
		kind >= E_BOGONS ? LOC_DB_ENUMERATE_BOGONS : LOC_DB_ENUMERATE_NETWORKS;
	CALL(r == 0, r = loc_database_enumerator_new(&e, db, mode, kind == E_FLAT || kind == E_FLAT_AS ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0));
	if (kind == E_CC) {
		struct loc_country_list* l = NULL;
		struct loc_country* c = NULL;
		CALL(r == 0, r = loc_country_list_new(lk_ctx, &l));
		CALL(r == 0, r = loc_country_new(lk_ctx, &c, "DE"));
		CALL(r == 0, r = loc_country_list_append(l, c));
		CALL(r == 0, r = loc_database_enumerator_set_countries(e, l));
		loc_country_unref(c);
		loc_country_list_unref(l);
	}
	if (kind == E_AS || kind == E_FLAT_AS) {
		struct loc_as_list* l = NULL;
		struct loc_as* a = NULL;
		CALL(r == 0, r = loc_as_list_new(lk_ctx, &l));
		CALL(r == 0, r = loc_as_new(lk_ctx, &a, 200));
		CALL(r == 0, r = loc_as_list_append(l, a));
		CALL(r == 0, r = loc_database_enumerator_set_asns(e, l));
		loc_as_unref(a);
		loc_as_list_unref(l);
	}
	if (kind == E_FLAG)
		CALL(r == 0, r = loc_database_enumerator_set_flag(e, LOC_NETWORK_FLAG_ANYCAST));
	if (kind == E_V6 || kind == E_BOGONS6)
		CALL(r == 0, r = loc_database_enumerator_set_family(e, AF_INET6));
	if (kind == E_SEARCH) {
		CALL(r == 0, r = loc_database_enumerator_set_string(e, "Large"));
		CALL(r == 0, r = loc_database_enumerator_set_string(e, "hUNDRED"));
	}
	for (;;) {
		struct loc_network* network = NULL;
		struct loc_as* as = NULL;
		struct loc_country* c = NULL;
		int failed;
		if (mode == LOC_DB_ENUMERATE_COUNTRIES)
			failed = FAILS(r == 0, r = loc_database_enumerator_next_country(e, &c));
		else if (mode == LOC_DB_ENUMERATE_ASES)
			failed = FAILS(r == 0, r = loc_database_enumerator_next_as(e, &as));
		else
			failed = FAILS(r == 0, r = loc_database_enumerator_next_network(e, &network));
		if (failed) {
			// The enumerator cannot be expected to continue, but must not do any damage
			loc_database_enumerator_unref(e);
			return -1;
		}
		if (network) {
			say_net("-", network);
			loc_network_unref(network);
		} else if (as) {
			say("AS%u %s\n", loc_as_get_number(as), loc_as_get_name(as));
			loc_as_unref(as);
		} else if (c) {
			say("%s %s\n", loc_country_get_code(c), loc_country_get_name(c));
			loc_country_unref(c);
		} else
			break;
		if (++n > 1000)
			mc_fail("an enumeration does not end");
	}
	loc_database_enumerator_unref(e);
	return n;
}
static void enumerations(int from, int to) {
	struct loc_database* db = database();
	for (int kind = from; kind < to; kind++) {
		size_t at = length;
		say("enumeration %d\n", kind);
		size_t start = length;
		while (enumerate(db, kind) < 0) {
			length = start;
			text[length] = 0;
		}
	}
	loc_database_unref(db);
}
static void p_networks(void) { enumerations(E_ALL, E_BOGONS); }
static void p_others(void) { enumerations(E_BOGONS, E_KINDS); }

// What a written file says
static void say_file(FILE* f) {
	size_t l;
	unsigned char* p = lk_contents(f, &l);
	// Leave out the time of creation and the signatures
	memset(p + 8, 0, 8);
	memset(p + OFF_SIG1_LEN, 0, OFF_PAD - OFF_SIG1_LEN);
	uint64_t h = mc_hash(MC_HASH_INIT, p, l);
	say("a file of %zu bytes, %016llx\n", l, (unsigned long long)h);
	free(p);
	struct loc_database* db = NULL;
	if (loc_database_new(lk_ctx, &db, f))
		mc_fail("%s: the written database cannot be opened", during);
	for (int i = 0; i < 2; i++) {
		FILE* k = sig_file(keys[i].pub, keys[i].publen);
		say("verify: %d\n", loc_database_verify(db, k) ? 1 : 0);
		fclose(k);
	}
	loc_database_unref(db);
}
static void write_database(struct loc_writer* w) {
	int r;
	FILE* f = lk_file("", 0);
	while (FAILS(r == 0, r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET))) {
		fclose(f);
		f = lk_file("", 0);
	}
	rewind(f);
	say_file(f);
	fclose(f);
}
static struct loc_writer* writer(int n) {
	struct loc_writer* w = NULL;
	int r;
	do {
		FILE* f1 = n > 0 ? sig_file(keys[0].priv, keys[0].privlen) : NULL;
		FILE* f2 = n > 1 ? sig_file(keys[1].priv, keys[1].privlen) : NULL;
		begin();
		r = loc_writer_new(lk_ctx, &w, f1, f2);
		active = 0;
		if (f1)
			fclose(f1);
		if (f2)
			fclose(f2);
	} while (again(r == 0, "loc_writer_new"));
	return w;
}
static void add_networks(struct loc_writer* w, const char** nets, int n) {
	int r;
	for (int i = 0; i < n; i++) {
		struct loc_network* x = NULL;
		CALL(r == 0, r = loc_writer_add_network(w, &x, nets[i]));
		loc_network_set_country_code(x, i % 3 ? "DE" : "AT");
		loc_network_set_asn(x, 100);
		loc_network_unref(x);
	}
}
static void p_writer(void) {
	struct loc_writer* w = writer(2);
	int r;
	CALL(r == 0, r = loc_writer_set_vendor(w, "Vendor"));
	CALL(r == 0, r = loc_writer_set_description(w, "Description"));
	CALL(r == 0, r = loc_writer_set_license(w, "License"));
	say("%s %s %s\n", loc_writer_get_vendor(w), loc_writer_get_description(w), loc_writer_get_license(w));
	for (int i = 0; i < 3; i++) {
		static const uint32_t numbers[] = { 300, 100, 200 };
		struct loc_as* as = NULL;
		CALL(r == 0, r = loc_writer_add_as(w, &as, numbers[i]));
		CALL(r == 0, r = loc_as_set_name(as, i ? "Name" : "Other"));
		loc_as_unref(as);
		static const char* codes[] = { "DE", "AT", "CH" };
		struct loc_country* c = NULL;
		CALL(r == 0, r = loc_writer_add_country(w, &c, codes[i]));
		CALL(r == 0, r = loc_country_set_name(c, i ? "A country" : "Germany"));
		CALL(r == 0, r = loc_country_set_continent_code(c, "EU"));
		loc_country_unref(c);
	}
	static const char* nets[] = { "128.0.0.0/1", "2000::/3" };
	add_networks(w, nets, 2);
	write_database(w);
	static const char* more[] = { "0.0.0.0/4" };
	add_networks(w, more, 1);
	write_database(w);
	loc_writer_unref(w);
}
// Networks that are merged and removed while the database is written
static void p_merge(void) {
	struct loc_writer* w = writer(0);
	static const char* nets[] = { "::/2", "8000::/2", "c000::/3", "4000::/2", "e000::/3", "2000::/4" };
	add_networks(w, nets, 6);
	struct loc_network* n = NULL;
	if (loc_writer_add_network(w, &n, "::/2") == 0)
		mc_fail("a network could be added twice");
	write_database(w);
	write_database(w);
	loc_writer_unref(w);
}
// A string pool that has to grow
static void p_strings(void) {
	struct loc_writer* w = writer(1);
	static char s[300 * 1024];
	int r;
	memset(s, 'x', sizeof(s) - 1);
	for (int i = 0; i < 6; i++) {
		s[0] = 'a' + i;
		struct loc_as* as = NULL;
		CALL(r == 0, r = loc_writer_add_as(w, &as, i + 1));
		CALL(r == 0, r = loc_as_set_name(as, s));
		loc_as_unref(as);
		struct loc_country* c = NULL;
		char code[] = { 'A', 'A' + i, 0 };
		CALL(r == 0, r = loc_writer_add_country(w, &c, code));
		s[0] = 'A' + i;
		CALL(r == 0, r = loc_country_set_name(c, s));
		loc_country_unref(c);
		s[0] = '0' + i;
		if (i % 2)
			CALL(r == 0, r = loc_writer_set_vendor(w, s));
		else
			CALL(r == 0, r = loc_writer_set_description(w, s));
	}
	write_database(w);
	loc_writer_unref(w);
}

static const struct { const char* name; void (*run)(void); } programs[] = {
	{ "objects", p_objects }, { "reverse pointers", p_pointers }, { "subnets", p_subnets }, { "exclusion", p_exclude },
	{ "network lists", p_network_lists }, { "AS and country lists", p_as_lists }, { "database", p_database }, { "enumerating networks", p_networks },
	{ "enumerating bogons, ASes and countries", p_others }, { "writer", p_writer }, { "merging", p_merge }, { "strings", p_strings },
};
#define NPROGRAMS ((int)(sizeof(programs) / sizeof(*programs)))

static void run(int p) {
	during = programs[p].name;
	length = 0;
	*text = 0;
	allocs = failures = 0;
	programs[p].run();
}

void mc_run(void) {
	static int counts[NPROGRAMS];
	static int current = -1;
	int p = mc_choose(NPROGRAMS);
	armed = 0;
	if (!counts[p]) {
		// The first run may allocate things that are kept (OpenSSL)
		run(p);
		counts[p] = allocs;
	}
	position = mc_choose(counts[p]);
	lasting = mc_choose(2);
	int far = counts[p] - position - 1;
	second = lasting ? 0 : mc_choose(mc_thorough ? (far > 40 ? 41 : far + 1) : (far > 2 ? 3 : far + 1));
	mc_shard();
	if (current != p) {
		run(p);
		memcpy(expected, text, length + 1);
		current = p;
	}
	long live = lk_live_allocs;
	int mappings = lk_mappings, fds = lk_open_fds();
	armed = 1;
	run(p);
	armed = 0;
	mc_note("%s: allocation %d of %d fails%s (and %d later): %d calls fail", during, position, counts[p], lasting ? " and all others during the same call" : "",
		second, failures);
	mc_assert(!strcmp(text, expected), "%s: different results when allocation %d (and %d later) fails%s", during, position, second, lasting ? " lastingly" : "");
	mc_assert(lk_mappings == mappings, "%s: %d mappings are left when allocation %d fails", during, lk_mappings - mappings, position);
	mc_assert(lk_open_fds() == fds, "%s: %d file descriptors are left when allocation %d fails", during, lk_open_fds() - fds, position);
	mc_assert(lk_live_allocs == live, "%s: %ld allocations are left when allocation %d (and %d later) fails%s", during, lk_live_allocs - live, position, second,
		lasting ? " lastingly" : "");
	uint64_t h = mc_hash(MC_HASH_INIT, &p, sizeof(p));
	h = mc_hash(h, &failures, sizeof(failures));
	h = mc_hash(h, &position, sizeof(position));
	mc_state(h);
}
