/*
	C27: the same content always gives the same file, and writing does not alter the writer
*/
#include "sig.h"

const char* mc_property = "C27";

// Signatures differ from file to file
static struct key keys[2];
static int keyed;
static void init(void) {
	lk_init();
	sig_key(&keys[0], "EC", "P-256", 0);
	sig_key(&keys[1], "EC", "P-256", 0);
}
void (*mc_worker_init)(void) = init;

#define NNETS 7
#define NAS 3
#define NCC 3
#define NITEMS (NNETS + NAS + NCC)

struct content {
	net_t nets[NNETS];
	int has_net[NNETS];
	int has_as[NAS];
	int has_cc[NCC];
	const char* vendor;
};
static const uint32_t numbers[] = { 4294967295u, 5, 70000 };
static const char* as_names[] = { "Zebra", NULL, "Antelope" };
static const char* ccs[] = { "US", "DE", "FJ" };
static const char* cc_names[] = { "United States", NULL, "Fiji" };
static const char* continents[] = { "NA", NULL, "OC" };

static void scribble(int c) {
	volatile char b[65536];
	memset((char*)b, c, sizeof(b));
	__asm__ volatile("" : : "r"(b) : "memory");
	// The same for the heap
	for (int i = 3; i < 14; i++) {
		char* p[8];
		for (int j = 0; j < 8; j++) {
			p[j] = malloc(1 << i);
			memset(p[j], c, 1 << i);
		}
		for (int j = 0; j < 8; j++)
			free(p[j]);
	}
}

static struct loc_writer* new_writer(void) {
	struct loc_writer* w = NULL;
	FILE* f1 = keyed & 1 ? sig_file(keys[0].priv, keys[0].privlen) : NULL;
	FILE* f2 = keyed & 2 ? sig_file(keys[1].priv, keys[1].privlen) : NULL;
	if (loc_writer_new(lk_ctx, &w, f1, f2))
		mc_fail("loc_writer_new() failed");
	if (f1)
		fclose(f1);
	if (f2)
		fclose(f2);
	return w;
}

static struct loc_network* objects[NNETS];

// Set everything to something else first?
static int retouch;

static void add_item(struct loc_writer* w, struct content* c, int i, int keep) {
	mc_ops(1);
	if (i < NNETS) {
		struct loc_network* n = NULL;
		int r = loc_writer_add_network(w, &n, m_net_str(&c->nets[i]));
		if (c->has_net[i]) {
			mc_assert(r != 0, "%s could be added twice", m_net_str(&c->nets[i]));
			return;
		}
		mc_assert(r == 0 && n, "%s could not be added (%d)", m_net_str(&c->nets[i]), r);
		c->has_net[i] = 1;
		if (retouch)
			loc_network_set_country_code(n, "QW");
		if (*c->nets[i].cc || retouch)
			loc_network_set_country_code(n, c->nets[i].cc);
		if (retouch)
			loc_network_set_asn(n, 4711);
		loc_network_set_asn(n, c->nets[i].asn);
		loc_network_set_flag(n, c->nets[i].flags);
		if (keep)
			objects[i] = n;
		else
			loc_network_unref(n);
	} else if (i < NNETS + NAS) {
		i -= NNETS;
		struct loc_as* a = NULL;
		if (loc_writer_add_as(w, &a, numbers[i]))
			mc_fail("AS%u could not be added", numbers[i]);
		if (retouch)
			loc_as_set_name(a, "Temporary");
		if (as_names[i] || retouch)
			loc_as_set_name(a, as_names[i]);
		loc_as_unref(a);
		c->has_as[i] = 1;
	} else {
		i -= NNETS + NAS;
		struct loc_country* o = NULL;
		if (loc_writer_add_country(w, &o, ccs[i]))
			mc_fail("%s could not be added", ccs[i]);
		if (retouch)
			loc_country_set_name(o, "Temporary");
		if (cc_names[i] || retouch)
			loc_country_set_name(o, cc_names[i]);
		if (continents[i])
			loc_country_set_continent_code(o, continents[i]);
		loc_country_unref(o);
		c->has_cc[i] = 1;
	}
}

// Writes; returns the file with the creation time and the signatures masked
static unsigned char* write_file(struct loc_writer* w, size_t* length, int c) {
	FILE* f = lk_file(NULL, 0);
	scribble(c);
	mc_ops(1);
	int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
	mc_assert(r == 0, "writing failed (%d)", r);
	unsigned char* d = lk_contents(f, length);
	fclose(f);
	if (*length < OFF_CREATED + 8)
		mc_fail("the file has only %zu bytes", *length);
	for (int i = 0; i < 2; i++) {
		const unsigned char* h = d + (i ? OFF_SIG2_LEN : OFF_SIG1_LEN);
		mc_assert(!(h[0] << 8 | h[1]) == !(keyed >> i & 1), "signature %d has %d bytes", i + 1, h[0] << 8 | h[1]);
		// Nothing but the signature is there
		for (int k = h[0] << 8 | h[1]; k < 2048; k++)
			if (d[(i ? OFF_SIG2 : OFF_SIG1) + k])
				mc_fail("byte %d of %d of signature %d is 0x%02x", k, h[0] << 8 | h[1], i + 1, d[(i ? OFF_SIG2 : OFF_SIG1) + k]);
	}
	memset(d + OFF_CREATED, 0, 8);
	memset(d + OFF_SIG1_LEN, 0, OFF_PAD - OFF_SIG1_LEN);
	return d;
}

static void compare(const unsigned char* a, size_t la, const unsigned char* b, size_t lb, const char* what) {
	mc_assert(la == lb, "%s: %zu instead of %zu bytes", what, lb, la);
	if (memcmp(a, b, la)) {
		size_t i = 0;
		while (a[i] == b[i])
			i++;
		mc_fail("%s: byte %zu (0x%zx) is 0x%02x instead of 0x%02x", what, i, i, b[i], a[i]);
	}
	mc_checks(1);
}

static void check_content(struct content* c, const unsigned char* data, size_t length) {
	struct loc_database* db = lk_open_bytes(data, length);
	net_t in[NNETS];
	int n = 0;
	for (int i = 0; i < NNETS; i++)
		if (c->has_net[i])
			in[n++] = c->nets[i];
	for (int i = 0; i < NNETS; i++)
		for (int side = 0; side < 2; side++) {
			u128 a = side ? m_last(&c->nets[i]) : m_first(&c->nets[i]);
			struct in6_addr address = m_in6(a);
			struct loc_network* got = NULL;
			int r = loc_database_lookup(db, &address, &got);
			mc_assert(r == 0, "lookup failed (%d)", r);
			int best = m_lpm(in, n, a);
			if (best < 0)
				mc_assert(!got, "%s resolves to %s but was not added", m_addr_str(a), loc_network_str(got));
			else {
				mc_assert(got, "%s resolves to nothing instead of %s", m_addr_str(a), m_net_str(&in[best]));
				net_t g;
				lk_read(got, &g);
				mc_assert(m_same_props(&g, &in[best]), "%s resolves to %s %s instead of %s %s", m_addr_str(a),
					m_net_str(&g), m_props_str(&g), m_net_str(&in[best]), m_props_str(&in[best]));
				loc_network_unref(got);
			}
		}
	size_t count = 0;
	for (int i = 0; i < NAS; i++) {
		struct loc_as* a = NULL;
		loc_database_get_as(db, &a, numbers[i]);
		mc_assert(!!a == c->has_as[i], "AS%u is%s there", numbers[i], a ? "" : " not");
		count += c->has_as[i];
		if (a) {
			const char* name = loc_as_get_name(a);
			mc_assert(!strcmp(name ? name : "", as_names[i] ? as_names[i] : ""), "AS%u is called '%s'", numbers[i], name);
			loc_as_unref(a);
		}
	}
	mc_assert(loc_database_count_as(db) == count, "%zu ASes instead of %zu", loc_database_count_as(db), count);
	for (int i = 0; i < NCC; i++) {
		struct loc_country* o = NULL;
		loc_database_get_country(db, &o, ccs[i]);
		mc_assert(!!o == c->has_cc[i], "%s is%s there", ccs[i], o ? "" : " not");
		if (o) {
			const char* name = loc_country_get_name(o);
			const char* cont = loc_country_get_continent_code(o);
			mc_assert(!strcmp(name ? name : "", cc_names[i] ? cc_names[i] : ""), "%s is called '%s'", ccs[i], name);
			mc_assert(!strcmp(cont ? cont : "", continents[i] ? continents[i] : ""), "%s is on '%s'", ccs[i], cont);
			loc_country_unref(o);
		}
	}
	const char* v = loc_database_get_vendor(db);
	mc_assert(!strcmp(v ? v : "", c->vendor ? c->vendor : ""), "the vendor is '%s'", v);
	loc_database_unref(db);
}

static void make_nets(struct content* c, int base, int props) {
	memset(c, 0, sizeof(*c));
	for (int i = 0; i < NNETS; i++) {
		u_node(&bases[base], i + 1, &c->nets[i]);
		u_props(&c->nets[i], (props >> i) & 1 ? (i == 5 ? 5 : 3) : 1);
	}
}

// All sets of items, forwards, backwards and rotated: the same file each time
static void sets(void) {
	int set = mc_choose(1 << NITEMS);
	int props = mc_choose(mc_thorough ? 32 : 4) * (mc_thorough ? 4 : 37);
	int base = mc_choose(mc_thorough ? 4 : 1) * 3;
	if (!mc_thorough && __builtin_popcount(set) > 4 && __builtin_popcount(set) < 11)
		mc_prune();
	mc_shard();
	unsigned char* first = NULL;
	size_t lfirst = 0;
	for (int order = 0; order < 3; order++) {
		struct content c;
		retouch = order == 2;
		keyed = order == 2 && set % 5 == 0 ? 1 + set % 3 : 0;
		make_nets(&c, base, props);
		struct loc_writer* w = new_writer();
		loc_writer_set_vendor(w, "Fiji");
		c.vendor = "Fiji";
		for (int k = 0; k < NITEMS; k++) {
			int i = order == 0 ? k : order == 1 ? NITEMS - 1 - k : (k * 5 + 3) % NITEMS;
			if (set & (1 << i))
				add_item(w, &c, i, 0);
		}
		for (int again = 0; again < 2; again++) {
			size_t l;
			unsigned char* d = write_file(w, &l, order * 0x55 + again * 0x5a);
			if (!first) {
				first = d;
				lfirst = l;
				mc_state(mc_hash(MC_HASH_INIT, d, l));
				check_content(&c, d, l);
			} else {
				compare(first, lfirst, d, l, again ? "written again" : "added in another order");
				free(d);
			}
		}
		loc_writer_unref(w);
	}
	free(first);
}

// All orders of six items
static void orders(void) {
	retouch = 0;
	keyed = 0;
	static const int pick[3][6] = { { 0, 1, 2, 3, 4, 5 }, { 0, 7, 8, 10, 11, 12 }, { 1, 3, 7, 9, 10, 11 } };
	int which = mc_choose(3);
	int props = mc_choose(8);
	int used = 0, o[6];
	for (int i = 0; i < 6; i++) {
		int k = mc_choose(6 - i);
		for (int j = 0; j < 6; j++) {
			if (used & (1 << j))
				continue;
			if (!k--) {
				o[i] = j;
				used |= 1 << j;
				break;
			}
		}
	}
	mc_shard();
	unsigned char* d[2];
	size_t l[2];
	for (int k = 0; k < 2; k++) {
		struct content c;
		make_nets(&c, 0, props * 18);
		struct loc_writer* w = new_writer();
		for (int i = 0; i < 6; i++)
			add_item(w, &c, pick[which][k ? o[i] : i], 0);
		d[k] = write_file(w, &l[k], k ? 0xff : 0);
		loc_writer_unref(w);
	}
	compare(d[0], l[0], d[1], l[1], "added in another order");
	free(d[0]);
	free(d[1]);
}

// All histories of adding, changing and writing
static void histories(void) {
	retouch = 0;
	static const int items[] = { 0, 1, 3, 4, 7, 8, 10, 11 };
	int n = mc_thorough ? 5 : 4, op[6];
	int props = mc_choose(4);
	for (int i = 0; i < n; i++)
		op[i] = mc_choose(12);
	// Writing at the end is implied; two writes without anything in between are covered elsewhere
	if (op[n - 1] >= 8 && op[n - 1] != 10 && op[n - 1] != 9)
		mc_prune();
	mc_shard();
	struct content c;
	keyed = (op[0] + op[2]) % 4 == 0 ? props : 0;
	make_nets(&c, 0, props == 0 ? 0 : props == 1 ? 2 : props == 2 ? 9 : 12);
	memset(objects, 0, sizeof(objects));
	struct loc_writer* w = new_writer();
	for (int i = 0; i <= n; i++) {
		int o = i == n ? 8 : op[i];
		if (o < 8) {
			mc_note("+%d ", items[o]);
			add_item(w, &c, items[o], 1);
		} else if (o == 9) {
			mc_note("vendor ");
			c.vendor = c.vendor && !strcmp(c.vendor, "Zebra") ? "Other" : "Zebra";
			loc_writer_set_vendor(w, c.vendor);
		} else if (o == 10 || o == 11) {
			// Change a network that has been added already
			int k = o == 10 ? 0 : 3;
			mc_note("change %d ", k);
			if (objects[k]) {
				c.nets[k].asn ^= 77;
				loc_network_set_asn(objects[k], c.nets[k].asn);
			}
		} else {
			mc_note("write ");
			size_t l;
			unsigned char* d = write_file(w, &l, i * 51);
			check_content(&c, d, l);
			if (i == n) {
				size_t l2;
				unsigned char* d2 = write_file(w, &l2, 7);
				compare(d, l, d2, l2, "written again");
				free(d2);
				mc_state(mc_hash(MC_HASH_INIT, d, l));
			}
			free(d);
		}
	}
	for (int i = 0; i < NNETS; i++)
		if (objects[i])
			loc_network_unref(objects[i]);
	loc_writer_unref(w);
}

void mc_run(void) {
	switch (mc_choose(3)) {
		case 0: sets(); break;
		case 1: orders(); break;
		case 2: histories(); break;
	}
}
