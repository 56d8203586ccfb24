/*
	C19: concurrent cursors, handles and writers do not disturb each other
*/
#include "lk.h"

const char* mc_property = "C19";

static unsigned char* files[2];
static size_t lengths[2];

#define NKINDS 12
static const char* names[NKINDS] = { "networks", "flattened networks", "bogons", "flattened networks of a country", "IPv6 networks of an AS", "ASes", "countries",
	"lookups", "objects", "writer", "lists", "handles" };

struct actor {
	int kind, which;		// which file
	struct loc_ctx* ctx;
	struct loc_database* db;
	struct loc_database_enumerator* e;
	struct loc_writer* w;
	struct loc_network_list *l1, *l2;
	struct loc_as_list* al;
	struct loc_country_list* cl;
	struct loc_database* own;
	// The network that was read last, and its text
	struct loc_network* kept;
	const char* text;
	char copy[80];
	char log[100000];
	int len;
};

static void logf_(struct actor* a, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void logf_(struct actor* a, const char* fmt, ...) {
	va_list args;
	va_start(args, fmt);
	a->len += vsnprintf(a->log + a->len, sizeof(a->log) - a->len, fmt, args);
	va_end(args);
	if (a->len >= (int)sizeof(a->log) - 200)
		mc_abort("the log of %s is too short", names[a->kind]);
}

// The text of a network lasts as long as the network
static void check_kept(struct actor* a, int drop) {
	if (!a->kept)
		return;
	mc_assert(!strcmp(a->text, a->copy), "the text '%s' of a network became '%s'", a->copy, a->text);
	if (drop) {
		loc_network_unref(a->kept);
		a->kept = NULL;
	}
}

static void log_net(struct actor* a, struct loc_network* n) {
	net_t g;
	const char* text = loc_network_str(n);
	check_kept(a, 1);
	a->kept = loc_network_ref(n);
	a->text = text;
	snprintf(a->copy, sizeof(a->copy), "%s", text);
	lk_read(n, &g);
	logf_(a, "%s %s %s; ", loc_network_str(n), m_net_str(&g), m_props_str(&g));
}

static const int micro[NKINDS] = { 8, 8, 8, 8, 6, 8, 8, 8, 8, 8, 8, 6 };

static void enumerate(struct actor* a, int drain) {
	for (int guard = 0; guard < 5000; guard++) {
		mc_ops(1);
		if (a->kind == 5) {
			struct loc_as* x = NULL;
			int r = loc_database_enumerator_next_as(a->e, &x);
			if (!x) {
				logf_(a, "end(%d) ", r);
				break;
			}
			logf_(a, "AS%u %s; ", loc_as_get_number(x), loc_as_get_name(x));
			loc_as_set_name(x, "changed");
			loc_as_unref(x);
		} else if (a->kind == 6) {
			struct loc_country* x = NULL;
			int r = loc_database_enumerator_next_country(a->e, &x);
			if (!x) {
				logf_(a, "end(%d) ", r);
				break;
			}
			const char* cont = loc_country_get_continent_code(x);
			logf_(a, "%s %s %s; ", loc_country_get_code(x), loc_country_get_name(x), cont ? cont : "-");
			loc_country_set_name(x, "changed");
			loc_country_unref(x);
		} else {
			struct loc_network* x = NULL;
			int r = loc_database_enumerator_next_network(a->e, &x);
			if (!x) {
				logf_(a, "end(%d) ", r);
				break;
			}
			log_net(a, x);
			// What was obtained may be changed
			loc_network_set_country_code(x, "ZZ");
			loc_network_set_asn(x, 4711);
			loc_network_set_flag(x, 15);
			loc_network_unref(x);
		}
		if (!drain)
			break;
	}
}

static struct loc_network* network(struct actor* a, const char* s) {
	struct loc_network* n = NULL;
	if (loc_network_new_from_string(a->ctx, &n, s))
		mc_fail("no network %s", s);
	return n;
}

static void step_(struct actor* a, int i) {
	int last = i == micro[a->kind] - 1;
	mc_ops(1);
	switch (a->kind) {
		case 0: case 1: case 2: case 3: case 4: case 5: case 6:
			if (i == 0) {
				int r = loc_database_enumerator_new(&a->e, a->db, a->kind == 2 ? LOC_DB_ENUMERATE_BOGONS : a->kind == 5 ? LOC_DB_ENUMERATE_ASES :
					a->kind == 6 ? LOC_DB_ENUMERATE_COUNTRIES : LOC_DB_ENUMERATE_NETWORKS, a->kind == 1 || a->kind == 3 ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0);
				if (r)
					mc_fail("no enumerator");
				if (a->kind == 3) {
					struct loc_country* c = NULL;
					loc_country_list_new(a->ctx, &a->cl);
					loc_country_new(a->ctx, &c, "DE");
					loc_country_list_append(a->cl, c);
					loc_country_unref(c);
					loc_database_enumerator_set_countries(a->e, a->cl);
				} else if (a->kind == 4) {
					struct loc_as* x = NULL;
					loc_as_list_new(a->ctx, &a->al);
					loc_as_new(a->ctx, &x, 64512);
					loc_as_list_append(a->al, x);
					loc_as_unref(x);
					loc_database_enumerator_set_asns(a->e, a->al);
					loc_database_enumerator_set_family(a->e, AF_INET6);
				} else if (a->kind == 5)
					loc_database_enumerator_set_string(a->e, "e");
			} else if (last) {
				enumerate(a, 1);
				if (a->kind == 5 || a->kind == 6)
					enumerate(a, 1);		// once more from the start
				loc_database_enumerator_unref(a->e);
				if (a->cl) {
					// Changing the filter when it is not needed any more
					loc_country_list_clear(a->cl);
					loc_country_list_unref(a->cl);
				}
				if (a->al) {
					loc_as_list_clear(a->al);
					loc_as_list_unref(a->al);
				}
			} else
				enumerate(a, 0);
			break;
		case 7: {
			static const char* addrs[] = { "10.1.1.1", "2001:db8:1:1::1", "10.255.0.1", "11.0.0.1", "192.0.2.77", "2001:db8::", "::1", "10.1.0.0" };
			struct loc_network* n = NULL;
			int r = loc_database_lookup_from_string(a->db, addrs[i], &n);
			logf_(a, "%s: %d ", addrs[i], r);
			if (n) {
				log_net(a, n);
				loc_network_set_country_code(n, "ZZ");
				loc_network_set_asn(n, 4711);
				loc_network_set_flag(n, 15);
				loc_network_unref(n);
			}
			break;
		}
		case 8: {
			static const uint32_t numbers[] = { 5, 6, 70000, 4294967295u };
			static const char* codes[] = { "DE", "FJ", "US", "AA" };
			if (i % 2) {
				struct loc_as* x = NULL;
				loc_database_get_as(a->db, &x, numbers[i / 2]);
				if (x) {
					logf_(a, "AS%u %s; ", loc_as_get_number(x), loc_as_get_name(x));
					loc_as_set_name(x, "changed");
					loc_as_unref(x);
				} else
					logf_(a, "AS%u -; ", numbers[i / 2]);
			} else {
				struct loc_country* c = NULL;
				loc_database_get_country(a->db, &c, codes[i / 2]);
				if (c) {
					logf_(a, "%s %s; ", loc_country_get_code(c), loc_country_get_name(c));
					loc_country_set_name(c, "changed");
					loc_country_unref(c);
				} else
					logf_(a, "%s -; ", codes[i / 2]);
			}
			logf_(a, "%s %s %s %zu; ", loc_database_get_vendor(a->db), loc_database_get_description(a->db), loc_database_get_license(a->db),
				loc_database_count_as(a->db));
			break;
		}
		case 9: {
			struct loc_network* n = NULL;
			if (i == 0) {
				if (loc_writer_new(a->ctx, &a->w, NULL, NULL))
					mc_fail("no writer");
				loc_writer_set_vendor(a->w, a->which ? "Vendor B" : "Vendor A");
			} else if (i < 4) {
				static const char* nets[2][3] = { { "10.0.0.0/9", "10.128.0.0/9", "10.0.0.0/16" }, { "10.0.0.0/8", "2001:db8::/32", "10.0.0.0/16" } };
				if (loc_writer_add_network(a->w, &n, nets[a->which][i - 1]))
					mc_fail("could not add a network");
				loc_network_set_country_code(n, a->which ? "DE" : "AT");
				loc_network_set_asn(n, i == 3 ? 7 : 8);
				loc_network_unref(n);
			} else if (i == 4) {
				struct loc_as* x = NULL;
				loc_writer_add_as(a->w, &x, 7 + a->which);
				loc_as_set_name(x, "Seven");
				loc_as_unref(x);
				struct loc_country* c = NULL;
				loc_writer_add_country(a->w, &c, a->which ? "DE" : "AT");
				loc_country_set_name(c, "Somewhere");
				loc_country_unref(c);
			} else if (i == 5 || last) {
				FILE* f = lk_file("", 0);
				int r = loc_writer_write(a->w, f, LOC_DATABASE_VERSION_UNSET);
				size_t l;
				unsigned char* d = lk_contents(f, &l);
				if (l > OFF_CREATED + 8)
					memset(d + OFF_CREATED, 0, 8);
				logf_(a, "written (%d): %zu bytes, %llx; ", r, l, (unsigned long long)mc_hash(MC_HASH_INIT, d, l));
				free(d);
				fclose(f);
				if (last)
					loc_writer_unref(a->w);
			} else {
				if (loc_writer_add_network(a->w, &n, "192.0.2.0/24"))
					mc_fail("could not add a network");
				loc_network_unref(n);
				logf_(a, "%s; ", loc_writer_get_vendor(a->w));
			}
			break;
		}
		case 10: {
			if (i == 0)
				loc_network_list_new(a->ctx, &a->l1);
			else if (i < 4) {
				static const char* nets[2][3] = { { "10.64.0.0/10", "10.1.0.0/16", "10.0.0.0/24" }, { "10.0.0.0/9", "10.200.0.0/16", "10.255.255.255/32" } };
				struct loc_network* n = network(a, nets[a->which][i - 1]);
				loc_network_list_push(a->l1, n);
				loc_network_unref(n);
			} else if (i == 4) {
				struct loc_network* n = network(a, "10.0.0.0/8");
				a->l2 = loc_network_exclude_list(n, a->l1);
				loc_network_unref(n);
			} else if (last) {
				loc_network_list_merge(a->l1, a->l2);
				for (size_t k = 0; k < loc_network_list_size(a->l1); k++) {
					struct loc_network* n = loc_network_list_get(a->l1, k);
					logf_(a, "%s ", loc_network_str(n));
					loc_network_unref(n);
				}
				loc_network_list_unref(a->l1);
				loc_network_list_unref(a->l2);
			} else {
				struct loc_network* n = loc_network_list_get(a->l2, i);
				if (n) {
					char* rp = loc_network_reverse_pointer(n, NULL);
					logf_(a, "%s %s; ", loc_network_str(n), rp ? rp : "-");
					free(rp);
					loc_network_unref(n);
				}
			}
			break;
		}
		case 11: {
			if (i % 2 == 0) {
				// A handle of its own
				FILE* f = lk_file(files[a->which], lengths[a->which]);
				int r = loc_database_new(a->ctx, &a->own, f);
				fclose(f);
				logf_(a, "opened (%d); ", r);
				if (r)
					mc_fail("could not open a database");
			} else {
				struct loc_network* n = NULL;
				loc_database_lookup_from_string(a->own, "10.1.1.1", &n);
				if (n) {
					log_net(a, n);
					loc_network_unref(n);
				}
				loc_database_unref(a->own);
			}
			break;
		}
	}
}

static void step(struct actor* a, int i) {
	check_kept(a, 0);
	step_(a, i);
	check_kept(a, i == micro[a->kind] - 1);
}

static void start(struct actor* a, int kind, int which, struct loc_ctx* ctx, struct loc_database* db) {
	memset(a, 0, offsetof(struct actor, log) + 1);
	a->len = 0;
	a->kind = kind;
	a->which = which;
	a->ctx = ctx;
	a->db = db;
}

static struct loc_database* open_db(struct loc_ctx* ctx, int which) {
	FILE* f = lk_file(files[which], lengths[which]);
	struct loc_database* db = NULL;
	int r = loc_database_new(ctx, &db, f);
	fclose(f);
	if (r)
		mc_fail("the database could not be opened");
	return db;
}

static char* solo[NKINDS][2];

static void init(void) {
	lk_init();
	static const struct enc_as ases[2][3] = { { { 5, "Five" }, { 70000, "e" }, { 4294967295u, "Zebra" } }, { { 5, "Cinque" }, { 6, "Sei" }, { 7, "" } } };
	static const struct enc_country countries[2][3] = { { { "DE", "EU", "Germany" }, { "FJ", NULL, "" }, { "US", "NA", "United States" } },
		{ { "AA", "AS", "A" }, { "DE", "AS", "B" }, { "US", NULL, "C" } } };
	static const struct { const char* a; int plen; int p; } t[2][8] = { {
		{ "10.0.0.0", 104, 1 }, { "10.1.0.0", 112, 3 }, { "10.1.1.0", 120, 2 }, { "192.0.2.0", 120, 8 },
		{ "2001:db8::", 32, 1 }, { "2001:db8:1::", 48, 3 }, { "2001:db8:1:1::", 64, 4 }, { "fe80::", 10, 3 } }, {
		{ "10.0.0.0", 105, 3 }, { "10.128.0.0", 105, 1 }, { "10.1.0.0", 120, 4 }, { "11.0.0.0", 104, 1 },
		{ "2001:db8::", 33, 3 }, { "2001:db8:8000::", 33, 1 }, { "2001:db8:1:1::", 128, 8 }, { "::", 8, 3 } } };
	for (int k = 0; k < 2; k++) {
		net_t nets[8];
		memset(nets, 0, sizeof(nets));
		for (int i = 0; i < 8; i++) {
			nets[i].addr = m_parse(t[k][i].a);
			nets[i].plen = t[k][i].plen;
			u_props(&nets[i], t[k][i].p);
		}
		struct enc e = { .nets = nets, .nnets = 8, .as = ases[k], .nas = 3, .countries = countries[k], .ncountries = 3,
			.vendor = k ? "Vendor B" : "Vendor", .description = k ? "" : "Description", .license = k ? "L" : "License", .created_at = 1700000000, .compact = 1 };
		files[k] = encode(&e, &lengths[k]);
	}
	// What everyone does alone
	for (int kind = 0; kind < NKINDS; kind++)
		for (int which = 0; which < 2; which++) {
			struct actor a;
			struct loc_ctx* ctx = lk_new_ctx();
			struct loc_database* db = open_db(ctx, which);
			start(&a, kind, which, ctx, db);
			for (int i = 0; i < micro[kind]; i++)
				step(&a, i);
			loc_database_unref(db);
			loc_unref(ctx);
			solo[kind][which] = strdup(a.log);
			if (kind != 9 && a.len < 20)
				mc_fail("%s alone gives nothing", names[kind]);
		}
}
void (*mc_worker_init)(void) = init;

static struct actor actors[3];

static void play(int n, const int* kind, const int* chunks, int config, const int* schedule, int steps) {
	/*
		0: one context, one handle
		1: one context, each has its own handle of the same file
		2: own contexts, different files
		3: one context, different files
	*/
	struct loc_ctx* ctx[3];
	struct loc_database* db[3];
	for (int i = 0; i < n; i++) {
		int which = config >= 2 ? i % 2 : 0;
		ctx[i] = i && config != 2 ? loc_ref(ctx[0]) : lk_new_ctx();
		db[i] = i && config == 0 ? loc_database_ref(db[0]) : open_db(ctx[i], which);
		start(&actors[i], kind[i], which, ctx[i], db[i]);
	}
	int at[3] = { 0, 0, 0 };
	for (int s = 0; s < steps; s++) {
		int i = schedule[s];
		int m = micro[kind[i]];
		int from = at[i] * m / chunks[i], to = (at[i] + 1) * m / chunks[i];
		for (int k = from; k < to; k++)
			step(&actors[i], k);
		at[i]++;
	}
	uint64_t h = MC_HASH_INIT;
	for (int i = 0; i < n; i++) {
		const char* want = solo[kind[i]][actors[i].which];
		mc_assert(!strcmp(actors[i].log, want), "%s together with %s gives\n%s\ninstead of\n%s", names[kind[i]], names[kind[(i + 1) % n]], actors[i].log, want);
		h = mc_hash(h, &kind[i], sizeof(int));
	}
	for (int i = 0; i < n; i++) {
		loc_database_unref(db[i]);
		loc_unref(ctx[i]);
	}
	mc_state(mc_hash(mc_hash(h, schedule, sizeof(int) * steps), &config, sizeof(config)));
}

// Two at a time
static void mode_pairs(void) {
	int kind[2], chunks[2], schedule[16], left[2];
	kind[0] = mc_choose(NKINDS);
	kind[1] = mc_choose(NKINDS);
	if (kind[1] < kind[0])
		mc_prune();
	int config = mc_choose(4);
	int max = mc_thorough ? 8 : 5;
	for (int i = 0; i < 2; i++)
		left[i] = chunks[i] = micro[kind[i]] < max ? micro[kind[i]] : max;
	int n = chunks[0] + chunks[1];
	for (int s = 0; s < n; s++) {
		int i = !left[0] ? 1 : !left[1] ? 0 : mc_choose(2);
		schedule[s] = i;
		left[i]--;
	}
	mc_shard();
	mc_note("%s, %s, configuration %d:", names[kind[0]], names[kind[1]], config);
	for (int s = 0; s < n; s++)
		mc_note(" %d", schedule[s]);
	play(2, kind, chunks, config, schedule, n);
}

// Three at a time, in larger steps
static void mode_triples(void) {
	int kind[3], chunks[3], schedule[16], left[3];
	for (int i = 0; i < 3; i++)
		kind[i] = mc_choose(NKINDS);
	if (kind[1] < kind[0] || kind[2] < kind[1])
		mc_prune();
	int config = mc_thorough ? mc_choose(4) : 0;
	for (int i = 0; i < 3; i++)
		left[i] = chunks[i] = mc_thorough ? 3 : 2;
	int n = chunks[0] + chunks[1] + chunks[2];
	for (int s = 0; s < n; s++) {
		int c[3], k = 0;
		for (int i = 0; i < 3; i++)
			if (left[i])
				c[k++] = i;
		int i = c[k == 1 ? 0 : mc_choose(k)];
		schedule[s] = i;
		left[i]--;
	}
	mc_shard();
	mc_note("%s, %s, %s, configuration %d:", names[kind[0]], names[kind[1]], names[kind[2]], config);
	for (int s = 0; s < n; s++)
		mc_note(" %d", schedule[s]);
	play(3, kind, chunks, config, schedule, n);
}

void mc_run(void) {
	if (mc_choose(2))
		mode_triples();
	else
		mode_pairs();
}
