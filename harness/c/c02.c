/*
	C02: building a database never changes the answer for any address.
	All sets of networks (with properties, in all insertion orders) go through the
	writer; the reopened database is compared with longest-prefix matching over
	what was added.
*/
#include "lk.h"

const char* mc_property = "C02";
void (*mc_worker_init)(void) = lk_init;

#define MAXN 270000
static net_t nets[MAXN];
static int nnets;

static void expect(struct loc_database* db, u128 a) {
	int best = m_lpm(nets, nnets, a);
	struct loc_network* n = NULL;
	// IPv4 addresses inside of IPv6 networks only: left open
	if (m_is_v4(a) && best >= 0 && !m_net_v4(&nets[best]))
		return;
	struct in6_addr in = m_in6(a);
	mc_ops(1);
	int r = loc_database_lookup(db, &in, &n);
	mc_assert(r == 0, "lookup of %s failed with %d", m_addr_str(a), r);
	if (best < 0) {
		mc_assert(!n, "%s resolves to %s although nothing was added for it", m_addr_str(a), loc_network_str(n));
		return;
	}
	mc_assert(n, "%s resolves to nothing although %s %s was added", m_addr_str(a),
		m_net_str(&nets[best]), m_props_str(&nets[best]));
	net_t got;
	lk_read(n, &got);
	mc_assert(m_contains(&got, a), "%s resolves to %s", m_addr_str(a), m_net_str(&got));
	mc_assert(m_same_props(&got, &nets[best]), "%s resolves to %s %s although %s %s was added",
		m_addr_str(a), m_net_str(&got), m_props_str(&got), m_net_str(&nets[best]), m_props_str(&nets[best]));
	loc_network_unref(n);
}

// Reads all stored networks in order and checks that nothing redundant was stored
static net_t stored[MAXN + 16];
static int read_stored(struct loc_database* db) {
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, LOC_DB_ENUMERATE_NETWORKS, 0))
		mc_fail("could not create an enumerator");
	int n = 0;
	uint64_t h = MC_HASH_INIT;
	while (1) {
		struct loc_network* network = NULL;
		int r = loc_database_enumerator_next_network(e, &network);
		mc_assert(r == 0, "enumerating failed with %d", r);
		if (!network)
			break;
		if (n > nnets)
			mc_fail("more networks stored than added");
		lk_read(network, &stored[n]);
		h = lk_hash_net(h, &stored[n]);
		n++;
		loc_network_unref(network);
	}
	loc_database_enumerator_unref(e);
	mc_state(h);
	return n;
}

static void check_redundancy(int n) {
	// stored[] is in order, so the closest enclosing network is found on a stack
	int stack[132], depth = 0;
	int covers = 0;
	for (int i = 0; i < n; i++)
		if (m_covers_v4(&stored[i]))
			covers = 1;
	if (covers)
		return;		// IPv6 networks around the IPv4 range: left open
	for (int i = 0; i < n; i++) {
		while (depth && !m_subnet(&stored[stack[depth - 1]], &stored[i]))
			depth--;
		if (depth) {
			const net_t* outer = &stored[stack[depth - 1]];
			mc_assert(!m_same_props(outer, &stored[i]), "%s %s is stored although it is inside of %s with the same properties",
				m_net_str(&stored[i]), m_props_str(&stored[i]), m_net_str(outer));
		}
		stack[depth++] = i;
	}
	// Halves are only guaranteed to be merged where nothing is nested
	if (n > 100)
		return;
	for (int i = 0; i < nnets; i++)
		for (int j = 0; j < nnets; j++)
			if (i != j && m_subnet(&nets[i], &nets[j]))
				return;
	for (int i = 0; i < n; i++)
		for (int j = 0; j < n; j++) {
			if (stored[i].plen != stored[j].plen || !stored[i].plen || (m_net_v4(&stored[i]) && stored[i].plen == 96))
				continue;
			if (m_first(&stored[j]) != m_last(&stored[i]) + 1 || !m_same_props(&stored[i], &stored[j]))
				continue;
			net_t parent = stored[i];
			parent.plen--;
			if (!m_subnet(&parent, &stored[j]))
				continue;
			int busy = 0;
			for (int k = 0; k < n; k++)
				busy |= m_same_net(&stored[k], &parent);
			mc_assert(busy, "%s and %s have the same properties but were not merged",
				m_net_str(&stored[i]), m_net_str(&stored[j]));
		}
}

static struct loc_writer* new_writer(void) {
	struct loc_writer* w = NULL;
	int r = loc_writer_new(lk_ctx, &w, NULL, NULL);
	mc_assert(r == 0 && w, "loc_writer_new() failed with %d", r);
	return w;
}

static void note(void) {
	if (!mc_noting)
		return;
	mc_note("added:");
	for (int i = 0; i < nnets; i++)
		mc_note(" %s%s", m_net_str(&nets[i]), m_props_str(&nets[i]));
}

static void check_universe(struct loc_database* db, const struct base* b, int depth) {
	net_t n;
	for (int leaf = 1 << depth; leaf < (2 << depth); leaf++) {
		u_node(b, leaf, &n);
		expect(db, m_first(&n));
		if (m_first(&n) != m_last(&n))
			expect(db, m_last(&n));
	}
	u_node(b, 1, &n);
	expect(db, m_first(&n) - 1);
	expect(db, m_last(&n) + 1);
}

static struct loc_database* build(void) {
	struct loc_writer* w = new_writer();
	for (int i = 0; i < nnets; i++) {
		int r = lk_add(w, &nets[i]);
		mc_assert(r == 0, "adding %s failed with %d", m_net_str(&nets[i]), r);
	}
	note();
	struct loc_database* db = lk_open_writer(w);
	loc_writer_unref(w);
	check_redundancy(read_stored(db));
	return db;
}

// Each palette: the properties a network can have
static const int palettes[][3] = {
	{ 1, 2, 0 }, { 1, 3, 4 }, { 1, 7, 8 }, { 0, 5, 6 },
};

// All assignments of properties to the networks of a two bit universe
static void two_bits(void) {
	static const int B[] = { 0, 5, 2, 1, 4, 6, 3, 14, 12, 15 };
	int bi = mc_choose(mc_thorough ? 10 : 4);
	int b = B[bi];
	int p = bi && !mc_thorough ? bi : mc_choose(4);
	int a = mc_choose(16384);
	mc_shard();
	nnets = 0;
	for (int k = 1; k < 8; k++, a >>= 2)
		if (a & 3) {
			u_node(&bases[b], k, &nets[nnets]);
			u_props(&nets[nnets++], palettes[p][(a & 3) - 1]);
		}
	struct loc_database* db = build();
	check_universe(db, &bases[b], 2);
	loc_database_unref(db);
}

// Up to n networks of a three bit universe with two kinds of properties
static void three_bits(void) {
	static const int B[] = { 0, 7, 3, 6, 13, 9 };
	int b = B[mc_choose(mc_thorough ? 6 : 1)];
	int subset = mc_choose(32768);
	int c = __builtin_popcount(subset);
	if (c > (mc_thorough ? 6 : 4) && !(c >= 14))
		mc_prune();
	int props = mc_choose(1 << (c > 6 ? 4 : c));
	mc_shard();
	nnets = 0;
	for (int k = 1; k < 16; k++)
		if (subset & (1 << (k - 1))) {
			u_node(&bases[b], k, &nets[nnets]);
			u_props(&nets[nnets], 1 + ((props >> (nnets % 6)) & 1));
			nnets++;
		}
	struct loc_database* db = build();
	check_universe(db, &bases[b], 3);
	loc_database_unref(db);
}

// All insertion orders
static void orders(void) {
	int subset = mc_choose(128);
	int c = __builtin_popcount(subset);
	if (c > (mc_thorough ? 5 : 4) || c < 2)
		mc_prune();
	int props = mc_choose(1 << c);
	int p = mc_choose(mc_thorough ? 4 : 2);
	net_t all[8];
	int n = 0, used = 0;
	int b = mc_choose(2) ? 5 : 0;
	for (int k = 1; k < 8; k++)
		if (subset & (1 << (k - 1))) {
			u_node(&bases[b], k, &all[n]);
			u_props(&all[n], palettes[p][(props >> n) & 1]);
			n++;
		}
	nnets = 0;
	for (int i = 0; i < n; i++) {
		int which = mc_choose(n - i);
		for (int j = 0; j < n; j++)
			if (!(used & (1 << j)) && which-- == 0) {
				nets[nnets++] = all[j];
				used |= 1 << j;
				break;
			}
	}
	mc_shard();
	struct loc_database* db = build();
	check_universe(db, &bases[b], 2);
	loc_database_unref(db);
}

// Adding a network twice (with other properties, between others)
static void duplicates(void) {
	static const int B[] = { 0, 2, 3, 5, 8 };
	int b = B[mc_choose(5)];
	int k1 = 1 + mc_choose(7), k2 = 1 + mc_choose(7), dup = mc_choose(2), p = mc_choose(3), q = mc_choose(3);
	if (k1 == k2)
		mc_prune();
	mc_shard();
	nnets = 2;
	u_node(&bases[b], k1, &nets[0]);
	u_props(&nets[0], 1);
	u_node(&bases[b], k2, &nets[1]);
	u_props(&nets[1], p);
	struct loc_writer* w = new_writer();
	for (int i = 0; i < 2; i++)
		mc_assert(lk_add(w, &nets[i]) == 0, "adding %s failed", m_net_str(&nets[i]));
	net_t again = nets[dup];
	u_props(&again, q);
	mc_assert(lk_add(w, &again) != 0, "adding %s twice was not refused", m_net_str(&again));
	// A host inside of the network denotes the same network
	char text[128];
	again.addr = m_last(&again);
	snprintf(text, sizeof(text), "%s/%d", m_addr_str(again.addr), m_net_v4(&again) ? again.plen - 96 : again.plen);
	struct loc_network* x = NULL;
	mc_assert(loc_writer_add_network(w, &x, text) != 0, "adding %s twice (as %s) was not refused", m_net_str(&again), text);
	note();
	static const char* invalid[] = { "", "10.0.0.0/33", "2001:db8::/129", "hello", "10.0.0/8", "10.0.0.0/-1", "/8" };
	for (int i = 0; i < 7; i++) {
		mc_ops(1);
		mc_assert(loc_writer_add_network(w, &x, invalid[i]) != 0, "adding '%s' was not refused", invalid[i]);
	}
	struct loc_database* db = lk_open_writer(w);
	loc_writer_unref(w);
	check_redundancy(read_stored(db));
	check_universe(db, &bases[b], 2);
	loc_database_unref(db);
}

static u128 pattern(int v4, int p) {
	static const char* p6[] = { "2001:db8:1234:5678:9abc:def0:8000:1", "::1:0:0:0:0", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff" };
	static const char* p4[] = { "10.1.2.3", "0.0.0.0", "255.255.255.255" };
	return m_parse(v4 ? p4[p] : p6[p]);
}

// Two networks of any length on one path, the sibling of the longer one included or not
static void pairs(void) {
	int v4 = mc_choose(2);
	int p = mc_choose(mc_thorough || v4 ? 3 : 1);
	int min = v4 ? 96 : 0;
	int i = min + mc_choose(129 - min);
	int j = min + mc_choose(129 - min);
	if (j < i)
		mc_prune();
	int same = mc_choose(2), sibling = mc_choose(3);
	mc_shard();
	u128 a = pattern(v4, p);
	nnets = 0;
	if (i < j) {
		nets[nnets++] = (net_t) { .addr = a, .plen = i, .cc = "DE" };
	}
	nets[nnets++] = (net_t) { .addr = a, .plen = j, .cc = "DE", .asn = same ? 0 : 1 };
	if (sibling && j > min)
		nets[nnets++] = (net_t) { .addr = a ^ ((u128)1 << (128 - j)), .plen = j, .cc = "DE", .asn = sibling - 1 };
	struct loc_database* db = build();
	for (int x = 0; x < nnets; x++) {
		expect(db, m_first(&nets[x]));
		expect(db, m_last(&nets[x]));
		expect(db, m_first(&nets[x]) - 1);
		expect(db, m_last(&nets[x]) + 1);
	}
	for (int d = min; d < 128; d++)
		expect(db, a ^ ((u128)1 << (127 - d)));
	loc_database_unref(db);
}

// A completely filled universe of k bits with one network missing or different
static void filled(void) {
	int b = mc_choose(NBASES);
	int depth = 1 + mc_choose(mc_thorough ? 6 : 5);
	int hole = mc_choose((1 << depth) + 1);
	int kind = mc_choose(3);	// the odd one: missing, different, different with the base covering all
	if (bases[b].plen + depth > 128)
		mc_prune();
	mc_shard();
	nnets = 0;
	if (kind == 2) {
		u_node(&bases[b], 1, &nets[nnets]);
		u_props(&nets[nnets++], 2);
	}
	for (int i = 0; i < (1 << depth); i++) {
		u_node(&bases[b], (1 << depth) + i, &nets[nnets]);
		if (i == hole && kind == 0)
			continue;
		u_props(&nets[nnets], i == hole ? 3 : 1);
		nnets++;
	}
	if (!nnets)
		return;
	struct loc_database* db = build();
	check_universe(db, &bases[b], depth);
	loc_database_unref(db);
}

// Many networks: more than the initial capacity of any list, deep stacks
static void many(void) {
	int which = mc_choose(5);
	mc_shard();
	nnets = 0;
	switch (which) {
		case 0:		// nested 128 deep, alternating properties
			for (int d = 1; d <= 128; d++) {
				nets[nnets] = (net_t) { .addr = m_parse("2001:db8:1234:5678:9abc:def0:8000:1"), .plen = d };
				u_props(&nets[nnets++], 1 + d % 2);
			}
			break;
		case 1:		// 4000 neighbours with alternating properties
			for (int i = 0; i < 4000; i++) {
				nets[nnets] = (net_t) { .addr = V4BASE | 0x0b000000 | (i << 8), .plen = 96 + 24 };
				u_props(&nets[nnets++], 1 + (i / 3) % 3);
			}
			break;
		case 2:		// 4096 neighbours that all merge into one
			for (int i = 0; i < 4096; i++) {
				nets[nnets] = (net_t) { .addr = V4BASE | 0x0c000000 | (i << 8), .plen = 96 + 24 };
				u_props(&nets[nnets++], 1);
			}
			break;
		case 3:		// both families, with covering networks, in descending order
			for (int i = 2999; i >= 0; i--) {
				nets[nnets] = (net_t) { .addr = i % 2 ? (V4BASE | 0x0b000000 | (i << 7)) : ((u128)0x20010000 + i) << 96,
					.plen = i % 2 ? 96 + 25 : 32 };
				u_props(&nets[nnets++], 1 + (i / 7) % 2);
			}
			nets[nnets] = (net_t) { .addr = V4BASE | 0x0b000000, .plen = 96 + 10, .cc = "DE" };
			nnets++;
			nets[nnets] = (net_t) { .addr = (u128)0x2001 << 112, .plen = 18, .cc = "AT" };
			nnets++;
			break;
		case 4:		// unique properties
			for (int i = 0; i < 3100; i++) {
				nets[nnets] = (net_t) { .addr = V4BASE | (i * 1385447u), .plen = 128 };
				u_unique(&nets[nnets++], i);
			}
			break;
	}
	struct loc_database* db = build();
	for (int i = 0; i < nnets; i++) {
		expect(db, m_first(&nets[i]));
		expect(db, m_last(&nets[i]));
		expect(db, m_last(&nets[i]) + 1);
	}
	loc_database_unref(db);
}

// More networks, and more nodes of the tree, than fit into 16, 17 or 18 bits
static void giant(void) {
	int sparse = mc_choose(2);
	int thousands = mc_thorough ? (sparse ? 68 : 66 + mc_choose(4) * 22) : 68;
	mc_shard();
	nnets = 0;
	// The networks get larger from one block to the next so that the writer does not try to merge all of them
	for (int b = 0; b < 62; b++)
		for (int i = 0; i < thousands * 1000 / 62; i++) {
			int plen = 98 - b;
			nets[nnets] = (net_t) { .addr = (u128)(0x2a00 + b) << 112 | (sparse ? (u128)i << 96 | ((u128)0x5aa5c33c5aa5c33c << 32 & ~m_hostmask(plen)) : (u128)i << (128 - plen)), .plen = plen };
			u_unique(&nets[nnets], nnets);
			nnets++;
		}
	mc_note("%d networks that have nothing in common", nnets);
	struct loc_writer* w = new_writer();
	for (int i = 0; i < nnets; i++)
		if (lk_add(w, &nets[i]))
			mc_fail("could not add %s", m_net_str(&nets[i]));
	struct loc_database* db = lk_open_writer(w);
	loc_writer_unref(w);
	for (int i = 0; i < nnets; i++)
		for (int last = 0; last < 2; last++) {
			struct in6_addr in = m_in6(last ? m_last(&nets[i]) : m_first(&nets[i]));
			struct loc_network* n = NULL;
			mc_ops(1);
			int r = loc_database_lookup(db, &in, &n);
			mc_assert(r == 0 && n, "%s was added, but resolves to nothing", m_net_str(&nets[i]));
			lk_check_net(n, &nets[i], "one of many networks");
			loc_network_unref(n);
		}
	int n = read_stored(db);
	mc_assert(n == nnets, "%d networks were added, but %d are stored", nnets, n);
	loc_database_unref(db);
}

// Two small universes of different families or far apart in one database
static void mixed(void) {
	static const int B[][2] = { { 0, 1 }, { 2, 9 }, { 4, 15 }, { 5, 6 } };
	int b = mc_choose(4);
	int s1 = mc_choose(128), s2 = mc_choose(128);
	if (!mc_thorough && (__builtin_popcount(s1) > 3 || __builtin_popcount(s2) > 3))
		mc_prune();
	mc_shard();
	nnets = 0;
	for (int k = 1; k < 8; k++) {
		if (s1 & (1 << (k - 1))) {
			u_node(&bases[B[b][0]], k, &nets[nnets]);
			u_props(&nets[nnets++], 1);
		}
		if (s2 & (1 << (k - 1))) {
			u_node(&bases[B[b][1]], k, &nets[nnets]);
			u_props(&nets[nnets++], 1 + k % 2);
		}
	}
	struct loc_database* db = build();
	check_universe(db, &bases[B[b][0]], 2);
	check_universe(db, &bases[B[b][1]], 2);
	loc_database_unref(db);
}

// Properties that differ in one bit or one letter only must never be taken for the same
static void distinct(void) {
	static const struct { const char* cc; uint32_t asn; uint16_t flags; } from[] = {
		{ "DE", 64512, 1 }, { "", 0, 0 }, { "NN", 4294967295u, 0xffff }, { "AW", 65536, 0x8000 },
	};
	int f = mc_choose(4);
	int d = mc_choose(32 + 16 + 22 + 22 + 1);
	int place = mc_choose(8);
	int swap = mc_choose(2);
	net_t p[2];
	memset(p, 0, sizeof(p));
	for (int i = 0; i < 2; i++) {
		strcpy(p[i].cc, from[f].cc);
		p[i].asn = from[f].asn;
		p[i].flags = from[f].flags;
	}
	if (d < 32)
		p[1].asn ^= 1u << d;
	else if (d < 48)
		p[1].flags ^= 1 << (d - 32);
	else if (d < 92) {
		if (!*p[1].cc)
			strcpy(p[1].cc, "DE");
		char* c = &p[1].cc[d < 70 ? 0 : 1];
		*c = 'A' + (d < 70 ? d - 48 : d - 70);
	} else
		memset(p[1].cc, 0, sizeof(p[1].cc));
	if (m_same_props(&p[0], &p[1]))
		mc_prune();
	mc_shard();
	static const int B[] = { 0, 1, 3, 6 };
	const struct base* b = &bases[B[place / 2]];
	// Halves of a network, the network around them, and further down
	static const int shapes[2][5] = { { 2, 3, 0 }, { 1, 2, 7, 12, 0 } };
	nnets = 0;
	for (int i = 0; shapes[place % 2][i]; i++) {
		net_t* n = &nets[nnets];
		u_node(b, shapes[place % 2][i], n);
		const net_t* q = &p[(i % 2) ^ swap];
		strcpy(n->cc, q->cc);
		n->asn = q->asn;
		n->flags = q->flags;
		nnets++;
	}
	struct loc_database* db = build();
	check_universe(db, b, 3);
	loc_database_unref(db);
}

void mc_run(void) {
	switch (mc_choose(10)) {
		case 0: two_bits(); break;
		case 1: three_bits(); break;
		case 2: orders(); break;
		case 3: duplicates(); break;
		case 4: pairs(); break;
		case 5: filled(); break;
		case 6: many(); break;
		case 7: mixed(); break;
		case 8: distinct(); break;
		case 9: giant(); break;
	}
}
