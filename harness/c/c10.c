/*
	C10: no database file can crash, hang or make the reader read out of bounds
*/
#include "lk.h"
#include <openssl/evp.h>
#include <openssl/pem.h>

const char* mc_property = "C10";

#ifndef REDUCED
#define REDUCED 0		// explore fewer files? (used by C18)
#endif

static char* key_pem;
static size_t key_len;

static unsigned char* base_file(int which, size_t* length);
static struct { size_t length, tree, tree_end, pool_length; } base[2];

static void init(void) {
	lk_init();
	for (int i = 0; i < 2; i++) {
		unsigned char* d = base_file(i, &base[i].length);
		base[i].tree = get32(d + OFF_NT_OFF);
		base[i].tree_end = base[i].tree + get32(d + OFF_NT_LEN);
		base[i].pool_length = get32(d + OFF_P_LEN);
		free(d);
	}
	EVP_PKEY* k = EVP_PKEY_Q_keygen(NULL, NULL, "EC", "P-256");
	BIO* b = BIO_new(BIO_s_mem());
	PEM_write_bio_PUBKEY(b, k);
	char* p;
	key_len = BIO_get_mem_data(b, &p);
	key_pem = malloc(key_len);
	memcpy(key_pem, p, key_len);
	BIO_free(b);
	EVP_PKEY_free(k);
}
void (*mc_worker_init)(void) = init;

static const struct enc_as ases[] = { { 5, "Five" }, { 70000, NULL }, { 4294967295u, "Zebra" } };
static const struct enc_country countries[] = { { "DE", "EU", "Germany" }, { "FJ", NULL, NULL }, { "US", "NA", "United States" } };

// A well-formed file
static unsigned char* base_file(int which, size_t* length) {
	net_t nets[8];
	int n = 0;
#define NET(s, p, c, a, f) do { memset(&nets[n], 0, sizeof(nets[n])); \
		struct in6_addr x; inet_pton(AF_INET6, s, &x); nets[n].addr = m_u128(&x); nets[n].plen = p; \
		if (c) strcpy(nets[n].cc, c); nets[n].asn = a; nets[n].flags = f; n++; } while (0)
	if (which == 0) {
		// Few and short networks: a tree of few nodes
		NET("8000::", 1, "DE", 5, 0);
		NET("c000::", 2, "US", 70000, 1);
		NET("e000::", 4, NULL, 4294967295u, 4);
		NET("2000::", 3, "FJ", 0, 0);
	} else {
		// Long ones, both families
		NET("::ffff:1.2.3.4", 128, "DE", 5, 0);
		NET("::ffff:1.2.3.0", 124, "US", 5, 2);
		NET("2001:db8::", 32, NULL, 7, 0);
		NET("ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", 128, "FJ", 1, 8);
	}
	struct enc e = { .nets = nets, .nnets = n, .as = ases, .nas = 3, .countries = countries, .ncountries = 3,
		.vendor = "Vendor", .description = "Some description", .license = "CC", .created_at = 1700000000,
		.compact = 1 };
	return encode(&e, length);
}

static void touch(const char* s) {
	if (s) {
		volatile size_t l = strlen(s);
		(void)l;
	}
}

#define LIMIT 200000

// Performs every read operation
static uint64_t exercise(struct loc_database* db, int verify) {
	uint64_t h = MC_HASH_INIT;
	mc_ops(1);
	loc_database_created_at(db);
	touch(loc_database_get_vendor(db));
	touch(loc_database_get_description(db));
	touch(loc_database_get_license(db));
	loc_database_count_as(db);

	static const uint32_t numbers[] = { 0, 5, 6, 70000, 70001, 4294967295u };
	for (int i = 0; i < 6; i++) {
		struct loc_as* a = NULL;
		mc_ops(1);
		int r = loc_database_get_as(db, &a, numbers[i]);
		if (!r && a) {
			mc_assert(loc_as_get_number(a) == numbers[i], "AS%u was found instead of AS%u", loc_as_get_number(a), numbers[i]);
			touch(loc_as_get_name(a));
			loc_as_unref(a);
		}
		h = mc_hash(h, &r, sizeof(r));
	}
	static const char* codes[] = { "AA", "DE", "FJ", "US", "ZZ" };
	for (int i = 0; i < 5; i++) {
		struct loc_country* c = NULL;
		mc_ops(1);
		int r = loc_database_get_country(db, &c, codes[i]);
		if (!r && c) {
			touch(loc_country_get_code(c));
			touch(loc_country_get_name(c));
			touch(loc_country_get_continent_code(c));
			loc_country_unref(c);
		}
		h = mc_hash(h, &r, sizeof(r));
	}
	static const char* addresses[] = { "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1.2.3.4", "0.0.0.0", "255.255.255.255",
		"8000::", "a000::1", "c000::", "2001:db8::1", "5555:5555:5555:5555:5555:5555:5555:5555", "aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa" };
	for (int i = 0; i < 11; i++) {
		struct loc_network* n = NULL;
		mc_ops(1);
		int r = loc_database_lookup_from_string(db, addresses[i], &n);
		if (!r && n) {
			net_t x;
			lk_read(n, &x);
			struct in6_addr a;
			char b[64];
			snprintf(b, sizeof(b), "%s%s", strchr(addresses[i], ':') ? "" : "::ffff:", addresses[i]);
			inet_pton(AF_INET6, b, &a);
			mc_assert(m_contains(&x, m_u128(&a)), "the lookup of %s returned %s", addresses[i], loc_network_str(n));
			touch(loc_network_get_country_code(n));
			h = lk_hash_net(h, &x);
			loc_network_unref(n);
		}
	}
	// All kinds of enumerations
	for (int mode = 0; mode < 10; mode++) {
		struct loc_database_enumerator* e = NULL;
		enum loc_database_enumerator_mode m = mode < 5 ? LOC_DB_ENUMERATE_NETWORKS : mode < 7 ? LOC_DB_ENUMERATE_BOGONS :
			mode < 9 ? LOC_DB_ENUMERATE_ASES : LOC_DB_ENUMERATE_COUNTRIES;
		mc_ops(1);
		int r = loc_database_enumerator_new(&e, db, m, mode == 1 || mode == 3 ? LOC_DB_ENUMERATOR_FLAGS_FLATTEN : 0);
		if (r || !e)
			continue;
		struct loc_as_list* asns = NULL;
		if (mode == 2 || mode == 3) {
			struct loc_as* a = NULL;
			loc_as_list_new(lk_ctx, &asns);
			loc_as_new(lk_ctx, &a, 5);
			loc_as_list_append(asns, a);
			loc_as_unref(a);
			loc_database_enumerator_set_asns(e, asns);
			loc_as_list_unref(asns);
		}
		if (mode == 4 || mode == 6)
			loc_database_enumerator_set_family(e, AF_INET);
		if (mode == 8)
			loc_database_enumerator_set_string(e, "e");
		int count = 0;
		while (count++ < LIMIT) {
			mc_ops(1);
			if (m == LOC_DB_ENUMERATE_NETWORKS || m == LOC_DB_ENUMERATE_BOGONS) {
				struct loc_network* n = NULL;
				r = loc_database_enumerator_next_network(e, &n);
				if (r || !n)
					break;
				net_t x;
				lk_read(n, &x);
				loc_network_unref(n);
			} else if (m == LOC_DB_ENUMERATE_ASES) {
				struct loc_as* a = NULL;
				r = loc_database_enumerator_next_as(e, &a);
				if (r || !a)
					break;
				touch(loc_as_get_name(a));
				loc_as_unref(a);
			} else {
				struct loc_country* c = NULL;
				r = loc_database_enumerator_next_country(e, &c);
				if (r || !c)
					break;
				touch(loc_country_get_code(c));
				touch(loc_country_get_name(c));
				touch(loc_country_get_continent_code(c));
				loc_country_unref(c);
			}
		}
		mc_assert(count < LIMIT, "enumeration %d does not end", mode);
		h = mc_hash(h, &count, sizeof(count));
		loc_database_enumerator_unref(e);
	}
	if (verify) {
		FILE* f = fmemopen(key_pem, key_len, "r");
		mc_ops(1);
		int r = loc_database_verify(db, f);
		mc_assert(r != 0, "a file without a signature verifies");
		fclose(f);
	}
	return h;
}

// Must this file be refused?
static const char* must_refuse(const unsigned char* p, size_t length) {
	if (length < ENC_HEADER_SIZE)
		return "is too short";
	if (memcmp(p, "LOCDBXX", 7))
		return "has the wrong magic";
	if (p[7] != 1)
		return "has an unknown version";
	static const struct { int off, len; const char* what; } sections[] = {
		{ OFF_AS_OFF, OFF_AS_LEN, "has its ASes outside of the file" }, { OFF_ND_OFF, OFF_ND_LEN, "has its networks outside of the file" },
		{ OFF_NT_OFF, OFF_NT_LEN, "has its tree outside of the file" }, { OFF_C_OFF, OFF_C_LEN, "has its countries outside of the file" },
		{ OFF_P_OFF, OFF_P_LEN, "has its strings outside of the file" } };
	for (int i = 0; i < 5; i++)
		if ((uint64_t)get32(p + sections[i].off) + get32(p + sections[i].len) > length)
			return sections[i].what;
	// A signature may have up to 2048 bytes: more have no place in the header
	if ((p[OFF_SIG1_LEN] << 8 | p[OFF_SIG1_LEN + 1]) > 2048 || (p[OFF_SIG2_LEN] << 8 | p[OFF_SIG2_LEN + 1]) > 2048)
		return "claims a signature of more than 2048 bytes";
	return NULL;
}

// (C18 does something else with the files)
static void (*c10_attempt)(const unsigned char* p, size_t length, int verify);

static void attempt(const unsigned char* p, size_t length, int verify, int well_formed) {
	if (c10_attempt) {
		c10_attempt(p, length, verify);
		return;
	}
	const char* why = must_refuse(p, length);
	FILE* f = lk_file(p, length);
	struct loc_database* db = NULL;
	mc_ops(1);
	int r = loc_database_new(lk_ctx, &db, f);
	uint64_t h = r ? 0 : 1;
	if (why)
		mc_assert(r != 0, "a file that %s was opened", why);
	if (well_formed)
		mc_assert(r == 0, "a well-formed file was refused (%d)", r);
	if (!r) {
		mc_assert(db, "nothing was returned");
		h = exercise(db, verify);
		loc_database_unref(db);
	}
	mc_assert(lk_mappings == 0, "the file is still mapped");
	mc_state(mc_hash(h, &r, sizeof(r)));
	fclose(f);
}

// The file ends at any position, or is followed by something
static void truncations(void) {
	size_t length;
	int which = mc_choose(2);
	unsigned char* p;
	size_t at = mc_choose(base[which].length + 2);
	mc_shard();
	p = base_file(which, &length);
	mc_note("a file of %zu bytes instead of %zu", at, length);
	if (at <= length)
		attempt(p, at, at % 64 == 0, at == length);
	else {
		p = realloc(p, length + 100);
		memset(p + length, 0xff, 100);
		attempt(p, length + 100, 1, 1);
	}
	free(p);
}

static const int fields[] = { OFF_CREATED, OFF_CREATED + 4, OFF_VENDOR, OFF_DESCRIPTION, OFF_LICENSE, OFF_AS_OFF, OFF_AS_LEN,
	OFF_ND_OFF, OFF_ND_LEN, OFF_NT_OFF, OFF_NT_LEN, OFF_C_OFF, OFF_C_LEN, OFF_P_OFF, OFF_P_LEN, OFF_SIG1_LEN };
#define NFIELDS 16
#define NVALUES 30
static uint32_t value(uint32_t old, uint32_t length, int i) {
	switch (i) {
		case 0: return 0; case 1: return 1; case 2: return 8; case 3: return 4200; case 4: return 12;
		case 5: return length; case 6: return length - 1; case 7: return length + 1; case 8: return length - 8; case 9: return length - 12;
		case 10: return 0xffffffff; case 11: return 0x80000000; case 12: return 0x7fffffff; case 13: return 0xffffffff - length;
		case 14: return 0u - old; case 15: return old - 1; case 16: return old + 1; case 17: return old + 8; case 18: return old - 8;
		case 19: return old + 12; case 20: return old - 12; case 21: return old * 2; case 22: return old / 2; case 23: return length - old;
		case 24: return length - old + 1; case 25: return 0x10000; case 26: return 2048; case 27: return 2049 << 16 | 2048; case 28: return 0xfffffffe;
		case 29: return 4199;
	}
	return old;
}

// One or two fields of the header are wrong
static void headers(void) {
	size_t length;
	unsigned char* p;
	int which = mc_choose(2);
	int f1 = mc_choose(NFIELDS), v1 = mc_choose(NVALUES);
	// Two fields of the same section, or (thorough) any two
	int two = mc_choose(REDUCED ? 1 : 2), f2 = 0, v2 = 0;
	if (two) {
		f2 = mc_choose(NFIELDS);
		if (f2 <= f1 || (!mc_thorough && !(f1 >= 5 && f1 < 15 && f1 % 2 && f2 == f1 + 1)))
			mc_prune();
		v2 = mc_choose(NVALUES);
	}
	mc_shard();
	p = base_file(which, &length);
	uint32_t x = value(get32(p + fields[f1]), length, v1), y = 0;
	if (two)
		y = value(get32(p + fields[f2]), length, v2);
	mc_note("%u at %d", x, fields[f1]);
	put32(p + fields[f1], x);
	if (two) {
		mc_note(", %u at %d", y, fields[f2]);
		put32(p + fields[f2], y);
	}
	attempt(p, length, f1 < 2 || f1 > 14 || v1 % 8 == 0, 0);
	free(p);
}

// Any byte of the magic and of the sections has any value
static void bytes(void) {
	size_t length;
	int which = mc_choose(2);
	unsigned char* p;
	size_t tree = base[which].tree, tree_end = base[which].tree_end, data = ENC_HEADER_SIZE;
	size_t n = base[which].length - data;
	size_t i = mc_choose(72 + n);
	size_t at = i < 72 ? i : data + i - 72;
	int v = mc_choose(256);
	if ((which == 1 || REDUCED) && !mc_thorough && v != 0 && v != 1 && v != 0x80 && v != 0xff)
		mc_prune();
	// The long tree consists of many equal nodes
	if (which == 1 && at >= tree && at < tree_end && at - tree > 4 * 12 && tree_end - at > 3 * 12)
		mc_prune();
	if (!mc_thorough && (at >= data) && v % 32 && v % 32 != 31 && v != 1 && v != 'A' && v != 2)
		mc_prune();
	mc_shard();
	p = base_file(which, &length);
	mc_note("%02x instead of %02x at %zu", v, p[at], at);
	p[at] = v;
	attempt(p, length, 0, 0);
	free(p);
}

// The string pool has no terminated string, or the sections overlap
static void pools(void) {
	size_t length;
	unsigned char* p;
	size_t l = base[0].pool_length;
	int name = mc_choose(l + 3);		// where a name starts
	int end = mc_choose(l + 1);			// where the pool ends
	int ending = mc_choose(2);			// what follows
	int field = mc_choose(5);
	int open = mc_choose(2);			// the last string of the pool is not terminated?
	if (open && !end)
		mc_prune();
	if (REDUCED && !mc_thorough && (name % 7 || end % 5))
		mc_prune();
	if (!mc_thorough && name % 3 && name + 3 < end)
		mc_prune();
	mc_shard();
	p = base_file(0, &length);
	uint32_t pool = get32(p + OFF_P_OFF);
	mc_note("a pool of %d bytes, name at %d, file ends %s, field %d", end, name, ending ? "there" : "later", field);
	if (open) {
		mc_note(", not terminated");
		p[pool + end - 1] = 'x';
	}
	put32(p + OFF_P_LEN, end);
	switch (field) {
		case 0: put32(p + OFF_VENDOR, name); break;
		case 1: put32(p + OFF_DESCRIPTION, name); break;
		case 2: put32(p + OFF_LICENSE, name); break;
		case 3: put32(p + get32(p + OFF_AS_OFF) + 4, name); break;
		case 4: put32(p + get32(p + OFF_C_OFF) + 4, name); break;
	}
	attempt(p, ending ? pool + end : length, 0, 0);
	free(p);
}

// Any tree of a few nodes: shared, cyclic, out of range
static void trees(void) {
	int n = 3;
	uint32_t edge[] = { 0, 1, 2, 3, 0xffffffff };
	uint32_t leaf[] = { 0xffffffff, 0, 1 };
	int kinds = mc_thorough ? 5 : 4;
	uint32_t t[4][3];
	for (int i = 0; i < n; i++) {
		t[i][0] = edge[mc_choose(kinds)];
		t[i][1] = edge[mc_choose(kinds)];
		t[i][2] = leaf[mc_choose(mc_thorough || !i ? 3 : REDUCED ? 1 : 2)];
	}
	mc_shard();
	size_t length;
	net_t net = { 0 };
	net.plen = 1;
	strcpy(net.cc, "DE");
	struct enc e = { .nets = &net, .nnets = 1, .vendor = "V", .compact = 1 };
	unsigned char* p = encode(&e, &length);
	// The tree is put at the end of the file
	p = realloc(p, length + n * 12);
	for (int i = 0; i < n; i++) {
		mc_note("%d: %u %u %u; ", i, t[i][0], t[i][1], t[i][2]);
		for (int k = 0; k < 3; k++)
			put32(p + length + i * 12 + k * 4, t[i][k]);
	}
	put32(p + OFF_NT_OFF, length);
	put32(p + OFF_NT_LEN, n * 12);
	attempt(p, length + n * 12, 0, 0);
	free(p);
}

// Chains that are longer than any address, with a branch or a cycle somewhere
static void chains(void) {
	int n = mc_thorough ? 120 + mc_choose(20) : 127 + mc_choose(4);
	int bit = mc_choose(3);				// zeros, ones, alternating
	int back = mc_choose(4);			// the last node: ends, or refers to 0, 1, n/2
	int other = mc_choose(4);			// the other edges: none, to the next one, to the one after it, backwards
	int leaves = mc_choose(3);
	mc_shard();
	size_t length;
	net_t net = { 0 };
	net.plen = 1;
	strcpy(net.cc, "DE");
	struct enc e = { .nets = &net, .nnets = 1, .vendor = "V", .compact = 1 };
	unsigned char* p = encode(&e, &length);
	p = realloc(p, length + n * 12);
	for (int i = 0; i < n; i++) {
		uint32_t next = i + 1 < n ? i + 1 : back == 0 ? 0 : back == 1 ? 1 : back == 2 ? n / 2 : n - 1;
		uint32_t o = other == 0 ? 0 : other == 1 ? next : other == 2 ? (i + 2 < n ? i + 2 : 0) : i / 2;
		int b = bit == 2 ? i & 1 : bit;
		put32(p + length + i * 12 + 4 * b, next);
		put32(p + length + i * 12 + 4 * (1 - b), o);
		put32(p + length + i * 12 + 8, leaves == 0 || (leaves == 1 && i + 1 == n) ? 0 : 0xffffffff);
	}
	put32(p + OFF_NT_OFF, length);
	put32(p + OFF_NT_LEN, n * 12);
	mc_note("a chain of %d nodes, bit %d, back %d, other %d, leaves %d", n, bit, back, other, leaves);
	attempt(p, length + n * 12, 0, 0);
	free(p);
}

// Every claimed length of a signature
static void signatures(void) {
	int which = mc_choose(3);			// the first one, the second one, both
	int l = mc_choose(65536);
	if (!mc_thorough && l > 8 && l < 2040 && l % 64 > 1)
		mc_prune();
	if (!mc_thorough && l > 2200 && (l & (l - 1)) && ((l + 1) & l) && l % 1024 != 7)
		mc_prune();
	if (REDUCED && l % 5)
		mc_prune();
	mc_shard();
	size_t length;
	unsigned char* p = base_file(0, &length);
	mc_note("a signature of %d bytes (%d)", l, which);
	for (int i = 0; i < 2; i++)
		if (which == 2 || which == i) {
			p[i ? OFF_SIG2_LEN : OFF_SIG1_LEN] = l >> 8;
			p[(i ? OFF_SIG2_LEN : OFF_SIG1_LEN) + 1] = l;
		}
	attempt(p, length, 1, 0);
	free(p);
}

void mc_run(void) {
	switch (mc_choose(7)) {
		case 0: truncations(); break;
		case 1: headers(); break;
		case 2: bytes(); break;
		case 3: pools(); break;
		case 4: trees(); break;
		case 5: chains(); break;
		case 6: signatures(); break;
	}
}
