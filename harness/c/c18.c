/*
	C18: objects live exactly as long as someone holds them
*/
#include "lk.h"
#include "sig.h"
#include <openssl/err.h>

// The damaged files of C10, for what remains after failures
#pragma push_macro("mc_assert")
#undef mc_assert
#define mc_assert(cond, ...) do { (void)(cond); } while (0)
#define mc_property c10_property
#define mc_worker_init c10_worker_init
#define mc_run c10_run
#define exercise c10_exercise
#define REDUCED 1
#include "c10.c"
#undef mc_property
#undef mc_worker_init
#undef mc_run
#undef exercise
#pragma pop_macro("mc_assert")

const char* mc_property = "C18";

static unsigned char* file;
static size_t file_length;
static struct key key1, key2;

static void init18(void) {
	init();
	sig_key(&key1, "EC", "P-256", 0);
	sig_key(&key2, "EC", "P-256", 0);
	static net_t nets[8];
	static const struct { const char* a; int plen; int p; } t[] = {
		{ "10.0.0.0", 104, 1 }, { "10.1.0.0", 112, 3 }, { "10.1.1.0", 120, 2 }, { "192.0.2.0", 120, 8 },
		{ "2001:db8::", 32, 1 }, { "2001:db8:1::", 48, 5 }, { "2001:db8:1:1::", 64, 4 }, { "fe80::", 10, 6 } };
	for (int i = 0; i < 8; i++) {
		nets[i].addr = m_parse(t[i].a);
		nets[i].plen = t[i].plen;
		u_props(&nets[i], t[i].p);
	}
	struct enc e = { .nets = nets, .nnets = 8, .as = ases, .nas = 3, .countries = countries, .ncountries = 3, .vendor = "Vendor",
		.description = "Description", .license = "License", .created_at = 1700000000, .compact = 1 };
	file = encode(&e, &file_length);
}
void (*mc_worker_init)(void) = init18;

/*
	Objects
*/
enum kind { CTX, DB, ENUMERATOR, NETWORK, AS, COUNTRY, NETWORKS, ASES, COUNTRIES, WRITER, STREAM, NOTHING };
static const char* kinds[] = { "context", "database", "enumerator", "network", "AS", "country", "network list", "AS list", "country list", "writer", "file" };

struct obj { enum kind kind; void* p; int refs; int mode; char text[64]; uint32_t number; };
#define MAXOBJ 16
static struct obj objs[MAXOBJ];
static int nobjs;

static int add(enum kind kind, void* p) {
	if (nobjs == MAXOBJ)
		mc_abort("too many objects");
	struct obj* o = &objs[nobjs];
	memset(o, 0, sizeof(*o));
	o->kind = kind;
	o->p = p;
	o->refs = 1;
	switch (kind) {
		case NETWORK:
			snprintf(o->text, sizeof(o->text), "%s", loc_network_str(p));
			o->number = loc_network_get_asn(p);
			break;
		case AS:
			o->number = loc_as_get_number(p);
			snprintf(o->text, sizeof(o->text), "%s", loc_as_get_name(p) ? loc_as_get_name(p) : "");
			break;
		case COUNTRY:
			snprintf(o->text, sizeof(o->text), "%s", loc_country_get_code(p));
			break;
		default:
			break;
	}
	return nobjs++;
}

static void ref(struct obj* o) {
	void* p = NULL;
	mc_ops(1);
	switch (o->kind) {
		case CTX: p = loc_ref(o->p); break;
		case DB: p = loc_database_ref(o->p); break;
		case ENUMERATOR: p = loc_database_enumerator_ref(o->p); break;
		case NETWORK: p = loc_network_ref(o->p); break;
		case AS: p = loc_as_ref(o->p); break;
		case COUNTRY: p = loc_country_ref(o->p); break;
		case NETWORKS: p = loc_network_list_ref(o->p); break;
		case ASES: p = loc_as_list_ref(o->p); break;
		case COUNTRIES: p = loc_country_list_ref(o->p); break;
		case WRITER: p = loc_writer_ref(o->p); break;
		default: return;
	}
	mc_assert(p == o->p, "taking a reference to a %s returned something else", kinds[o->kind]);
	o->refs++;
}

static void unref(struct obj* o) {
	mc_ops(1);
	switch (o->kind) {
		case CTX: loc_unref(o->p); break;
		case DB: loc_database_unref(o->p); break;
		case ENUMERATOR: loc_database_enumerator_unref(o->p); break;
		case NETWORK: loc_network_unref(o->p); break;
		case AS: loc_as_unref(o->p); break;
		case COUNTRY: loc_country_unref(o->p); break;
		case NETWORKS: loc_network_list_unref(o->p); break;
		case ASES: loc_as_list_unref(o->p); break;
		case COUNTRIES: loc_country_list_unref(o->p); break;
		case WRITER: loc_writer_unref(o->p); break;
		case STREAM: fclose(o->p); break;
		case NOTHING: break;
	}
	o->refs--;
}

// Uses an object in all ways that do not depend on what happened before; the sanitizer watches
static void use(struct obj* o) {
	if (o->refs <= 0)
		return;
	mc_ops(1);
	switch (o->kind) {
		case CTX: {
			struct loc_as* a = NULL;
			loc_get_log_priority(o->p);
			if (loc_as_new(o->p, &a, 1))
				mc_fail("the context cannot be used");
			loc_as_unref(a);
			break;
		}
		case DB: {
			struct loc_network* n = NULL;
			int r = loc_database_lookup_from_string(o->p, "10.1.1.1", &n);
			mc_assert(r == 0 && n && !strcmp(loc_network_get_country_code(n), "AT"), "the database cannot be used any more");
			loc_network_unref(n);
			mc_assert(!strcmp(loc_database_get_vendor(o->p), "Vendor"), "the database cannot be used any more");
			struct loc_as* a = NULL;
			loc_database_get_as(o->p, &a, 5);
			mc_assert(a && !strcmp(loc_as_get_name(a), "Five"), "the database cannot be used any more");
			loc_as_unref(a);
			break;
		}
		case ENUMERATOR: {
			if (o->mode == 0) {
				struct loc_network* n = NULL;
				mc_assert(loc_database_enumerator_next_network(o->p, &n) == 0, "the enumerator cannot be used any more");
				if (n)
					loc_network_unref(n);
			} else if (o->mode == 1) {
				struct loc_as* a = NULL;
				mc_assert(loc_database_enumerator_next_as(o->p, &a) == 0, "the enumerator cannot be used any more");
				if (a)
					loc_as_unref(a);
			} else {
				struct loc_country* c = NULL;
				mc_assert(loc_database_enumerator_next_country(o->p, &c) == 0, "the enumerator cannot be used any more");
				if (c)
					loc_country_unref(c);
			}
			break;
		}
		case NETWORK:
			mc_assert(!strcmp(loc_network_str(o->p), o->text) && loc_network_get_asn(o->p) == o->number, "a network has become %s instead of %s",
				loc_network_str(o->p), o->text);
			break;
		case AS:
			mc_assert(loc_as_get_number(o->p) == o->number && !strcmp(loc_as_get_name(o->p) ? loc_as_get_name(o->p) : "", o->text),
				"AS%u has become AS%u %s", o->number, loc_as_get_number(o->p), loc_as_get_name(o->p));
			break;
		case COUNTRY:
			mc_assert(!strcmp(loc_country_get_code(o->p), o->text), "country %s has become %s", o->text, loc_country_get_code(o->p));
			loc_country_get_name(o->p);
			loc_country_get_continent_code(o->p);
			break;
		case NETWORKS:
			for (size_t i = 0; i < loc_network_list_size(o->p); i++) {
				struct loc_network* n = loc_network_list_get(o->p, i);
				mc_assert(n && loc_network_str(n), "element %zu is missing", i);
				loc_network_unref(n);
			}
			break;
		case ASES:
			for (size_t i = 0; i < loc_as_list_size(o->p); i++) {
				struct loc_as* n = loc_as_list_get(o->p, i);
				mc_assert(n, "element %zu is missing", i);
				touch(loc_as_get_name(n));
				loc_as_unref(n);
			}
			break;
		case COUNTRIES:
			for (size_t i = 0; i < loc_country_list_size(o->p); i++) {
				struct loc_country* n = loc_country_list_get(o->p, i);
				mc_assert(n, "element %zu is missing", i);
				touch(loc_country_get_code(n));
				loc_country_unref(n);
			}
			break;
		case WRITER: {
			touch(loc_writer_get_vendor(o->p));
			struct loc_network* n = NULL;
			// Already there
			if (loc_writer_add_network(o->p, &n, "10.0.0.0/8") == 0)
				mc_fail("the writer cannot be used any more");
			break;
		}
		default:
			break;
	}
}

/*
	Scenarios
*/
static struct loc_ctx* ctx;

static FILE* open_file(void) { return lk_file(file, file_length); }

static struct loc_database* open_db(void) {
	FILE* f = open_file();
	struct loc_database* db = NULL;
	int r = loc_database_new(ctx, &db, f);
	fclose(f);
	if (r)
		mc_fail("the database could not be opened");
	return db;
}
static int add_enum(struct loc_database* db, enum loc_database_enumerator_mode mode, int flags) {
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, mode, flags))
		mc_fail("no enumerator");
	int i = add(ENUMERATOR, e);
	objs[i].mode = mode == LOC_DB_ENUMERATE_ASES ? 1 : mode == LOC_DB_ENUMERATE_COUNTRIES ? 2 : 0;
	return i;
}
static struct loc_network* network(const char* s) {
	struct loc_network* n = NULL;
	if (loc_network_new_from_string(ctx, &n, s))
		mc_fail("no network %s", s);
	return n;
}

#define NSCENARIOS 8
static void scenario(int s) {
	struct loc_database* db;
	struct loc_network *n = NULL, *n2 = NULL;
	struct loc_as* a = NULL;
	struct loc_country* c = NULL;
	int e;
	nobjs = 0;
	ctx = lk_new_ctx();
	add(CTX, ctx);
	switch (s) {
		case 0: {		// a database and what comes out of it
			FILE* f = open_file();
			add(STREAM, f);
			if (loc_database_new(ctx, &db, f))
				mc_fail("no database");
			add(DB, db);
			loc_database_lookup_from_string(db, "10.1.2.3", &n);
			add(NETWORK, n);
			loc_database_get_as(db, &a, 4294967295u);
			add(AS, a);
			loc_database_get_country(db, &c, "DE");
			add(COUNTRY, c);
			add_enum(db, LOC_DB_ENUMERATE_NETWORKS, 0);
			break;
		}
		case 1: {		// enumerators with filters, in the middle of their work
			db = open_db();
			add(DB, db);
			e = add_enum(db, LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
			struct loc_country_list* cl = NULL;
			loc_country_list_new(ctx, &cl);
			loc_country_new(ctx, &c, "DE");
			loc_country_list_append(cl, c);
			loc_database_enumerator_set_countries(objs[e].p, cl);
			loc_database_enumerator_set_countries(objs[e].p, cl);
			add(COUNTRIES, cl);
			add(COUNTRY, c);
			struct loc_as_list* al = NULL;
			loc_as_list_new(ctx, &al);
			loc_as_new(ctx, &a, 64512);
			loc_as_list_append(al, a);
			loc_as_unref(a);
			loc_database_enumerator_set_asns(objs[e].p, al);
			loc_database_enumerator_set_asns(objs[e].p, al);
			add(ASES, al);
			loc_database_enumerator_next_network(objs[e].p, &n);
			mc_assert(n, "no network");
			add(NETWORK, n);
			break;
		}
		case 2: {		// bogons and a flattened enumeration side by side, lists obtained from them
			db = open_db();
			e = add_enum(db, LOC_DB_ENUMERATE_BOGONS, 0);
			loc_database_unref(db);		// only the enumerator holds it
			loc_database_enumerator_next_network(objs[e].p, &n);
			mc_assert(n, "no bogon");
			add(NETWORK, n);
			e = add_enum(db, LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATOR_FLAGS_FLATTEN);
			struct loc_country_list* cl = NULL;
			loc_country_list_new(ctx, &cl);
			loc_database_enumerator_set_countries(objs[e].p, cl);
			loc_country_list_unref(cl);
			struct loc_as_list* al = NULL;
			loc_as_list_new(ctx, &al);
			loc_database_enumerator_set_asns(objs[e].p, al);
			loc_as_list_unref(al);
			cl = loc_database_enumerator_get_countries(objs[e].p);
			mc_assert(cl, "no list");
			loc_country_new(ctx, &c, "DE");
			loc_country_list_append(cl, c);
			loc_country_unref(c);
			add(COUNTRIES, cl);
			al = loc_database_enumerator_get_asns(objs[e].p);
			mc_assert(al, "no list");
			add(ASES, al);
			loc_database_enumerator_next_network(objs[e].p, &n2);
			mc_assert(n2, "no network");
			add(NETWORK, n2);
			break;
		}
		case 3: {		// a writer and what was added to it
			struct loc_writer* w = NULL;
			if (loc_writer_new(ctx, &w, NULL, NULL))
				mc_fail("no writer");
			add(WRITER, w);
			loc_writer_set_vendor(w, "Vendor");
			loc_writer_set_vendor(w, "Another");
			loc_writer_add_network(w, &n, "10.0.0.0/8");
			add(NETWORK, n);
			loc_writer_add_network(w, &n2, "10.0.0.0/9");
			add(NETWORK, n2);
			loc_writer_add_as(w, &a, 5);
			loc_as_set_name(a, "Five");
			add(AS, a);
			a = NULL;
			loc_writer_add_as(w, &a, 5);
			add(AS, a);
			loc_writer_add_country(w, &c, "DE");
			loc_country_set_name(c, "Germany");
			add(COUNTRY, c);
			break;
		}
		case 4: {		// lists and their elements
			struct loc_network_list *l = NULL, *l2 = NULL;
			loc_network_list_new(ctx, &l);
			add(NETWORKS, l);
			n = network("10.0.0.0/8");
			loc_network_list_push(l, n);
			loc_network_list_push(l, n);
			add(NETWORK, n);
			n2 = network("2001:db8::/32");
			loc_network_list_push(l, n2);
			loc_network_unref(n2);
			add(NETWORK, loc_network_list_get(l, 1));
			loc_network_list_new(ctx, &l2);
			loc_network_list_merge(l2, l);
			add(NETWORKS, l2);
			add(NETWORK, loc_network_list_pop(l2));
			add(NETWORK, loc_network_list_pop_first(l));
			break;
		}
		case 5: {		// splitting and excluding
			n = network("10.0.0.0/8");
			add(NETWORK, n);
			struct loc_network *s1 = NULL, *s2 = NULL;
			loc_network_subnets(n, &s1, &s2);
			add(NETWORK, s1);
			add(NETWORK, s2);
			struct loc_network_list* l = loc_network_exclude(n, s1);
			add(NETWORKS, l);
			struct loc_network_list* l2 = loc_network_exclude_list(n, l);
			add(NETWORKS, l2);
			add(NETWORK, loc_network_list_get(l2, 0));
			break;
		}
		case 6: {		// enumerating ASes and countries
			db = open_db();
			add(DB, db);
			e = add_enum(db, LOC_DB_ENUMERATE_ASES, 0);
			loc_database_enumerator_set_string(objs[e].p, "Something");
			loc_database_enumerator_set_string(objs[e].p, "E");
			loc_database_enumerator_next_as(objs[e].p, &a);
			mc_assert(a, "no AS");
			add(AS, a);
			e = add_enum(db, LOC_DB_ENUMERATE_COUNTRIES, 0);
			loc_database_enumerator_next_country(objs[e].p, &c);
			mc_assert(c, "no country");
			add(COUNTRY, c);
			c = NULL;
			loc_database_enumerator_next_country(objs[e].p, &c);
			add(COUNTRY, c);
			break;
		}
		case 7: {		// AS and country lists
			struct loc_as_list* al = NULL;
			loc_as_list_new(ctx, &al);
			add(ASES, al);
			loc_as_new(ctx, &a, 7);
			loc_as_set_name(a, "Seven");
			loc_as_list_append(al, a);
			loc_as_list_append(al, a);
			add(AS, a);
			a = NULL;
			loc_as_new(ctx, &a, 3);
			loc_as_list_append(al, a);
			loc_as_unref(a);
			loc_as_list_sort(al);
			add(AS, loc_as_list_get(al, 0));
			struct loc_country_list* cl = NULL;
			loc_country_list_new(ctx, &cl);
			add(COUNTRIES, cl);
			loc_country_new(ctx, &c, "DE");
			loc_country_list_append(cl, c);
			loc_country_list_append(cl, c);
			add(COUNTRY, c);
			add(COUNTRY, loc_country_list_get(cl, 0));
			break;
		}
	}
	for (int i = 0; i < nobjs; i++)
		mc_assert(objs[i].p, "scenario %d: object %d (%s) is missing", s, i, kinds[objs[i].kind]);
}

// What is left over
struct left { long allocs; int fds, maps; };
static struct left now(void) {
	ERR_clear_error();
	struct left l = { lk_live_allocs, lk_open_fds(), lk_mappings };
	return l;
}
static void nothing_left(struct left before, void (*again)(void)) {
	struct left after = now();
	mc_checks(3);
	mc_assert(after.maps == before.maps, "%d files are still mapped", after.maps - before.maps);
	mc_assert(after.fds == before.fds, "%d file descriptors are still open", after.fds - before.fds);
	if (after.allocs == before.allocs)
		return;
	// Once is not enough: something may have been set up for good
	again();
	struct left second = now();
	again();
	struct left third = now();
	mc_assert(!(second.allocs > after.allocs && third.allocs > second.allocs), "%ld blocks of memory were not released",
		third.allocs - second.allocs);
}

static int perm[8], the_scenario, extra, when;

static void play_orders(void) {
	scenario(the_scenario);
	if (extra) {
		ref(&objs[extra - 1]);
		if (when)
			ref(&objs[extra - 1]);
	}
	for (int i = 0; i < nobjs; i++)
		use(&objs[i]);
	for (int i = 0; i < nobjs; i++) {
		unref(&objs[perm[i]]);
		for (int k = 0; k < nobjs; k++)
			use(&objs[k]);
	}
	if (extra && objs[extra - 1].refs) {
		while (objs[extra - 1].refs) {
			use(&objs[extra - 1]);
			unref(&objs[extra - 1]);
		}
	}
}

// All orders in which the objects can be released
static void mode_orders(void) {
	static const int counts[NSCENARIOS] = { 7, 7, 7, 7, 7, 7, 7, 7 };
	the_scenario = mc_choose(NSCENARIOS);
	int n = counts[the_scenario];
	extra = mc_choose(n + 1);
	when = extra && mc_thorough ? mc_choose(2) : 0;
	int used = 0;
	for (int i = 0; i < n; i++) {
		int k = mc_choose(n - i);
		for (int j = 0; j < n; j++) {
			if (used & (1 << j))
				continue;
			if (!k--) {
				perm[i] = j;
				used |= 1 << j;
				break;
			}
		}
		if (!mc_thorough && extra && i >= 4 && n - i > 1) {
			// With an additional reference only the first ones vary
			for (int j = 0, x = i + 1; j < n; j++)
				if (!(used & (1 << j)))
					perm[x++] = j;
			break;
		}
	}
	mc_shard();
	mc_note("scenario %d, extra %d, order ", the_scenario, extra);
	for (int i = 0; i < n; i++)
		mc_note("%d ", perm[i]);
	struct left before = now();
	play_orders();
	if (nobjs != n)
		mc_abort("scenario %d has %d objects", the_scenario, nobjs);
	nothing_left(before, play_orders);
	mc_state(mc_hash(MC_HASH_INIT, perm, sizeof(int) * n) + the_scenario);
}

/*
	All histories of taking and dropping references
*/
#define DEPTH 7
static int hist[DEPTH], depth;

static void play_history(void) {
	nobjs = 0;
	ctx = lk_new_ctx();
	add(CTX, ctx);
	add(DB, open_db());
	int net = -1, en = -1;
	for (int i = 0; i < depth; i++) {
		struct loc_network* n = NULL;
		int h = hist[i];
		switch (h) {
			case 0: case 1: {		// the context or the database
				struct obj* o = &objs[h];
				if (o->refs)
					unref(o);
				break;
			}
			case 2:
				if (objs[1].refs)
					ref(&objs[1]);
				break;
			case 3:				// another enumerator replaces the current one
				if (!objs[1].refs)
					break;
				if (en >= 0 && objs[en].refs)
					unref(&objs[en]);
				en = add_enum(objs[1].p, LOC_DB_ENUMERATE_NETWORKS, i % 2 ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0);
				break;
			case 4:
				if (en >= 0 && objs[en].refs)
					unref(&objs[en]);
				break;
			case 5:				// the next network
				if (en < 0 || !objs[en].refs)
					break;
				loc_database_enumerator_next_network(objs[en].p, &n);
				if (n)
					net = add(NETWORK, n);
				break;
			case 6:				// a lookup
				if (!objs[1].refs)
					break;
				loc_database_lookup_from_string(objs[1].p, "2001:db8:1::1", &n);
				mc_assert(n, "nothing was found");
				net = add(NETWORK, n);
				break;
			case 7:
				if (net >= 0 && objs[net].refs)
					unref(&objs[net]);
				break;
		}
		for (int k = 0; k < nobjs; k++)
			if (objs[k].kind != ENUMERATOR)
				use(&objs[k]);
	}
	for (int k = nobjs - 1; k >= 0; k--)
		while (objs[k].refs > 0)
			unref(&objs[k]);
}

static void mode_histories(void) {
	depth = mc_thorough ? 7 : 5;
	for (int i = 0; i < depth; i++)
		hist[i] = mc_choose(8);
	mc_shard();
	struct left before = now();
	play_history();
	nothing_left(before, play_history);
	mc_state(mc_hash(MC_HASH_INIT, hist, sizeof(int) * depth));
}

/*
	Writers: everything that can be done to them, including what fails
*/
#define WOPS 16
static int wkeys;
static void play_writer(void) {
	ctx = lk_new_ctx();
	struct loc_writer* w = NULL;
	FILE* k1 = wkeys & 1 ? sig_file(key1.priv, key1.privlen) : NULL;
	FILE* k2 = wkeys & 2 ? sig_file(key2.priv, key2.privlen) : NULL;
	if (wkeys & 4)
		k2 = sig_file(key2.pub, key2.publen);		// not a private key
	int r = loc_writer_new(ctx, &w, k1, k2);
	if (k1)
		fclose(k1);
	if (k2)
		fclose(k2);
	mc_assert((r == 0) == !(wkeys & 4), "loc_writer_new() returned %d", r);
	for (int i = 0; r == 0 && i < depth; i++) {
		struct loc_network* n = NULL;
		struct loc_as* a = NULL;
		struct loc_country* c = NULL;
		mc_ops(1);
		switch (hist[i]) {
			case 0: loc_writer_set_vendor(w, i % 2 ? "One" : "Two"); break;
			case 1: loc_writer_set_description(w, i % 2 ? "One" : "Three"); loc_writer_set_license(w, "One"); break;
			case 2: case 3: case 4: case 5: {
				static const char* nets[] = { "10.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "not a network" };
				if (!loc_writer_add_network(w, &n, nets[hist[i] - 2])) {
					loc_network_set_country_code(n, "DE");
					loc_network_unref(n);
				}
				break;
			}
			case 6: case 7: {
				if (!loc_writer_add_as(w, &a, hist[i])) {
					loc_as_set_name(a, "Name");
					loc_as_set_name(a, i % 2 ? NULL : "Another name");
					loc_as_unref(a);
				}
				break;
			}
			case 8: case 9:
				if (!loc_writer_add_country(w, &c, hist[i] == 8 ? "DE" : "XX")) {
					loc_country_set_name(c, "Name");
					loc_country_set_name(c, i % 2 ? NULL : "Another name");
					loc_country_set_continent_code(c, "EU");
					loc_country_set_continent_code(c, "EUROPE");
					loc_country_unref(c);
				}
				break;
			case 10: case 11: case 12: {
				// A file, a full device, a file that cannot be written
				FILE* f = hist[i] == 10 ? lk_file("", 0) : fopen(hist[i] == 11 ? "/dev/full" : "/dev/null", hist[i] == 11 ? "w" : "r");
				int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
				if (hist[i] == 10) {
					struct loc_database* db = NULL;
					mc_assert(r == 0, "writing failed");
					if (loc_database_new(ctx, &db, f))
						mc_fail("the database could not be opened");
					for (int k = 0; k < 3; k++) {
						FILE* pub = k == 0 ? sig_file(key1.pub, key1.publen) : k == 1 ? sig_file(key2.pub, key2.publen) : sig_file("garbage", 7);
						loc_database_verify(db, pub);
						fclose(pub);
					}
					loc_database_unref(db);
				}
				fclose(f);
				break;
			}
			case 13: {
				FILE* f = lk_file("", 0);
				loc_writer_write(w, f, 77);
				fclose(f);
				break;
			}
			case 14: loc_writer_ref(w); loc_writer_unref(w); break;
			case 15: loc_writer_set_vendor(w, NULL); break;
		}
	}
	if (w)
		loc_writer_unref(w);
	loc_unref(ctx);
}

static void mode_writer(void) {
	wkeys = mc_choose(6);
	depth = wkeys >= 4 ? 0 : mc_thorough ? 4 : wkeys ? 2 : 3;
	for (int i = 0; i < depth; i++) {
		hist[i] = mc_choose(WOPS);
		if (hist[i] == 15)
			mc_prune();		// (NULL is not a string)
	}
	mc_shard();
	mc_note("writer, keys %d:", wkeys);
	for (int i = 0; i < depth; i++)
		mc_note(" %d", hist[i]);
	struct left before = now();
	play_writer();
	nothing_left(before, play_writer);
	mc_state(mc_hash(MC_HASH_INIT, hist, sizeof(int) * depth) + wkeys);
}

/*
	Single operations on networks, including what fails
*/
static int op_a, op_b, op_kind;
static void play_ops(void) {
	static const char* nets[] = { "0.0.0.0/0", "10.0.0.0/8", "10.0.0.0/32", "::/0", "2001:db8::/32", "2001:db8::/33", "2001:db8::1/128", "::fffe:0:0/95" };
	ctx = lk_new_ctx();
	struct loc_network *a = network(nets[op_a]), *b = network(nets[op_b]), *s1 = NULL, *s2 = NULL;
	struct loc_network_list* l = NULL;
	switch (op_kind) {
		case 0:
			loc_network_subnets(a, &s1, &s2);
			if (s1)
				loc_network_unref(s1);
			if (s2)
				loc_network_unref(s2);
			break;
		case 1:
			l = loc_network_exclude(a, b);
			if (l)
				loc_network_list_unref(l);
			break;
		case 2: {
			struct loc_network_list* e = NULL;
			loc_network_list_new(ctx, &e);
			loc_network_list_push(e, b);
			struct loc_network* c = network("2001:db8:8000::/34");
			loc_network_list_push(e, c);
			l = loc_network_exclude_list(a, e);
			if (l)
				loc_network_list_unref(l);
			loc_network_unref(c);
			loc_network_list_unref(e);
			break;
		}
		case 3: {
			char* p = loc_network_reverse_pointer(a, NULL);
			free(p);
			p = loc_network_reverse_pointer(b, "example.org.");
			free(p);
			break;
		}
		case 4: {
			struct loc_network* n = NULL;
			struct in6_addr in = m_in6(op_a);
			if (!loc_network_new(ctx, &n, &in, 120 + op_b * 3))
				loc_network_unref(n);
			n = NULL;
			if (!loc_network_new_from_string(ctx, &n, op_b ? "10.0.0.0/33" : "garbage"))
				loc_network_unref(n);
			struct loc_country* c = NULL;
			if (!loc_country_new(ctx, &c, op_a ? "??" : "XA"))
				loc_country_unref(c);
			break;
		}
		case 5: {
			// A file that is no database, a closed one
			FILE* f = lk_file(file, op_a * 1000 + op_b);
			struct loc_database* db = NULL;
			if (!loc_database_new(ctx, &db, f))
				loc_database_unref(db);
			fclose(f);
			break;
		}
		case 6: {
			struct loc_country_list* cl = NULL;
			loc_country_list_new(ctx, &cl);
			loc_country_list_contains_code(cl, op_a % 2 ? "DE" : "XX");
			loc_country_list_clear(cl);
			loc_country_list_sort(cl);
			loc_country_list_unref(cl);
			struct loc_as_list* al = NULL;
			loc_as_list_new(ctx, &al);
			loc_as_list_contains_number(al, op_b);
			loc_as_list_clear(al);
			loc_as_list_unref(al);
			loc_as_list_unref(NULL);
			break;
		}
	}
	loc_network_unref(a);
	loc_network_unref(b);
	loc_unref(ctx);
}

static void mode_ops(void) {
	op_kind = mc_choose(7);
	op_a = mc_choose(8);
	op_b = mc_choose(8);
	mc_shard();
	mc_note("operation %d with %d and %d", op_kind, op_a, op_b);
	struct left before = now();
	play_ops();
	nothing_left(before, play_ops);
}

/*
	Damaged files
*/
static unsigned char* dfile;
static size_t dlength;
static void play_file(void) {
	FILE* f = lk_file(dfile, dlength);
	struct loc_database* db = NULL;
	if (!loc_database_new(lk_ctx, &db, f)) {
		c10_exercise(db, dlength % 64 == 0);
		loc_database_unref(db);
	}
	fclose(f);
}
static void hook_attempt(const unsigned char* p, size_t length, int verify) {
	dfile = (unsigned char*)p;
	dlength = length;
	struct left before = now();
	play_file();
	nothing_left(before, play_file);
}

/*
	Many references to the same object
*/
static int many_refs, which_one;
static void play_many(void) {
	scenario(the_scenario);
	struct obj* o = &objs[which_one];
	if (o->kind >= STREAM)
		many_refs = 0;
	for (int i = 0; i < many_refs; i++)
		ref(o);
	use(o);
	for (int i = 0; i < many_refs; i++) {
		unref(o);
		if (i % 251 == 0 || i > many_refs - 4)
			use(o);
	}
	for (int i = nobjs - 1; i >= 0; i--) {
		while (objs[i].refs)
			unref(&objs[i]);
		for (int k = 0; k < i; k++)
			use(&objs[k]);
	}
}
static void mode_many(void) {
	static const int N[] = { 126, 127, 128, 254, 255, 256, 300, 32767, 65534, 65535, 65536, 70000 };
	the_scenario = mc_choose(NSCENARIOS);
	which_one = mc_choose(7);
	many_refs = N[mc_choose(12)];
	mc_shard();
	mc_note("scenario %d, %d references to object %d", the_scenario, many_refs, which_one);
	struct left before = now();
	play_many();
	nothing_left(before, play_many);
	int obs[] = { the_scenario, which_one, many_refs };
	mc_state(mc_hash(MC_HASH_INIT, obs, sizeof(obs)));
}

void mc_run(void) {
	switch (mc_choose(6)) {
		case 5: mode_many(); break;
		case 0: mode_orders(); break;
		case 1: mode_histories(); break;
		case 2: mode_writer(); break;
		case 3: mode_ops(); break;
		case 4: c10_attempt = hook_attempt; c10_run(); break;
	}
}
