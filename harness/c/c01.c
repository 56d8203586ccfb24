/*
	C01: a lookup returns exactly the most specific stored network.
	The database files come from the independent encoder, so the reader alone is checked.
*/
#include "lk.h"

const char* mc_property = "C01";
void (*mc_worker_init)(void) = lk_init;

static net_t nets[270000];
static int nnets;
static int v4_ambiguous;	// an IPv6 network covers the IPv4 range

static void expect(struct loc_database* db, u128 a, int as_string, uint64_t* h) {
	int best = m_lpm(nets, nnets, a);
	struct loc_network* n = NULL;
	int r;

	// Which network an IPv4 address belongs to if only an IPv6 network covers it is left open
	if (v4_ambiguous && m_is_v4(a) && (best < 0 || !m_net_v4(&nets[best])))
		return;

	mc_ops(1);
	if (as_string)
		r = loc_database_lookup_from_string(db, m_addr_str(a), &n);
	else {
		struct in6_addr in = m_in6(a);
		r = loc_database_lookup(db, &in, &n);
	}
	mc_assert(r == 0, "lookup of %s failed with %d", m_addr_str(a), r);
	if (best < 0) {
		mc_assert(!n, "lookup of %s found %s, but no network contains it", m_addr_str(a), loc_network_str(n));
		return;
	}
	mc_assert(n, "lookup of %s found nothing instead of %s", m_addr_str(a), m_net_str(&nets[best]));
	char what[128];
	snprintf(what, sizeof(what), "lookup of %s", m_addr_str(a));
	lk_check_net(n, &nets[best], what);
	*h = lk_hash_net(*h, &nets[best]);
	loc_network_unref(n);
}

// Looks up the first and last address and the surroundings of all networks
static void probe_all(struct loc_database* db) {
	uint64_t h = MC_HASH_INIT;
	for (int pass = 0; pass < 2; pass++)
		for (int j = 0; j < nnets; j++) {
			int i = pass ? nnets - 1 - j : j;
			u128 a = m_first(&nets[i]), b = m_last(&nets[i]);
			u128 p[] = { a, b, a + (b - a) / 2, a - 1, b + 1 };
			for (int k = 0; k < 5; k++)
				expect(db, p[k], pass == 1 && k == 0, &h);
		}
	mc_state(h);
}

static void reset(void) { nnets = 0; v4_ambiguous = 0; }
static void add(u128 addr, int plen) {
	net_t* n = &nets[nnets];
	memset(n, 0, sizeof(*n));
	n->plen = plen;
	n->addr = addr & ~m_hostmask(plen);
	u_unique(n, nnets);
	if (m_covers_v4(n))
		v4_ambiguous = 1;
	nnets++;
}

static struct loc_database* open_db(int order, int compact) {
	struct enc e = { .nets = nets, .nnets = nnets, .order = order, .compact = compact, .created_at = 1 };
	return lk_open_enc(&e);
}

// All subsets of the networks of a three bit universe, at all bases
static void small_universe(void) {
	int b = mc_choose(NBASES);
	// Quick: everything at half of the bases, at most four networks at the others
	int subset = mc_choose(32768);
	if (!mc_thorough && b >= 8 && __builtin_popcount(subset) > 4)
		mc_prune();
	mc_shard();
	reset();
	for (int k = 1; k < 16; k++)
		if (subset & (1 << (k - 1))) {
			net_t n;
			u_node(&bases[b], k, &n);
			add(n.addr, n.plen);
		}
	int order = subset % 3;
	struct loc_database* db = open_db(order, subset & 1);
	if (mc_noting) {
		mc_note("database:");
		for (int i = 0; i < nnets; i++)
			mc_note(" %s %s", m_net_str(&nets[i]), m_props_str(&nets[i]));
		mc_note("; every address of the universe looked up");
	}
	uint64_t h = MC_HASH_INIT;
	net_t n;
	for (int leaf = 8; leaf < 16; leaf++) {
		u_node(&bases[b], leaf, &n);
		expect(db, m_first(&n), 0, &h);
		if (m_first(&n) != m_last(&n))
			expect(db, m_last(&n), 0, &h);
	}
	u_node(&bases[b], 1, &n);
	expect(db, m_first(&n) - 1, 0, &h);
	expect(db, m_last(&n) + 1, 0, &h);
	expect(db, m_first(&n), 1, &h);
	mc_state(h);
	loc_database_unref(db);
}

static const char* patterns[] = {
	"::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa",
	"5555:5555:5555:5555:5555:5555:5555:5555", "2001:db8:1234:5678:9abc:def0:8000:1", "0:0:0:0:0:fffe:8000:0",
};
static const char* patterns4[] = { "0.0.0.0", "255.255.255.255", "170.170.170.170", "10.1.2.3", "127.128.0.255" };

// All pairs of prefixes along one path: the longer one dead-ends for most addresses of the shorter one
static void pairs(void) {
	int v4 = mc_choose(2);
	u128 a;
	int min;
	if (v4) {
		a = m_parse(patterns4[mc_choose(5)]);
		min = 96;
	} else {
		a = m_parse(patterns[mc_choose(6)]);
		min = 0;
	}
	int i = min + mc_choose(129 - min);
	int j = i + mc_choose(129 - i);
	mc_shard();
	reset();
	add(a, i);
	if (j > i)
		add(a, j);
	mc_note("database: %s and %s", m_net_str(&nets[0]), m_net_str(&nets[nnets - 1]));
	struct loc_database* db = open_db(0, 1);
	uint64_t h = MC_HASH_INIT;
	expect(db, a, 0, &h);
	// Leave the path at each level
	for (int d = min; d < 128; d++)
		expect(db, a ^ ((u128)1 << (127 - d)), 0, &h);
	mc_state(h);
	loc_database_unref(db);
}

// All triples of IPv4 prefixes, and a sibling at a chosen level
static void triples(void) {
	u128 a = m_parse(patterns4[mc_choose(5)]);
	int i = mc_choose(33);
	int j = mc_choose(33);
	int k = mc_choose(33);
	if (!(i < j && j < k))
		mc_prune();
	mc_shard();
	reset();
	add(a, 96 + i);
	add(a ^ ((u128)1 << (128 - 96 - j)), 96 + j);	// the sibling of the second
	add(a, 96 + k);
	mc_note("database: %s, %s and %s", m_net_str(&nets[0]), m_net_str(&nets[1]), m_net_str(&nets[2]));
	struct loc_database* db = open_db(1, 0);
	uint64_t h = MC_HASH_INIT;
	expect(db, a, 0, &h);
	for (int d = 96; d < 128; d++) {
		expect(db, a ^ ((u128)1 << (127 - d)), 0, &h);
		expect(db, a ^ ((u128)1 << (128 - 96 - j)) ^ ((u128)1 << (127 - d)), 0, &h);
	}
	mc_state(h);
	loc_database_unref(db);
}

// A network at every level of one path, with or without the siblings: the deepest possible trees
static void combs(void) {
	int v4 = mc_choose(2);
	int p = mc_choose(v4 ? 5 : 6);
	int siblings = mc_choose(3);	// none, all, every second
	int step = 1 + mc_choose(3);
	mc_shard();
	u128 a = m_parse(v4 ? patterns4[p] : patterns[p]);
	reset();
	for (int d = v4 ? 96 : 0; d <= 128; d += step) {
		if (siblings != 2 || d % 2)
			add(a, d);
		if (siblings && d > (v4 ? 96 : 0))
			add(a ^ ((u128)1 << (128 - d)), d);
	}
	mc_note("comb of %d networks along %s", nnets, m_addr_str(a));
	struct loc_database* db = open_db(siblings, 0);
	probe_all(db);
	loc_database_unref(db);
}

// Large databases: node and network numbers beyond 16 bit
static void large(void) {
	int which = mc_choose(4);
	mc_shard();
	reset();
	if (which == 3) {
		for (uint32_t i = 0; i < (1 << 18) + 5; i++)
			add((u128)0x2a << 120 | (u128)i << 88, 40);
	} else if (which == 0) {
		// All networks of 16 bits below 2001::/16
		for (uint32_t i = 0; i < 65536; i++)
			add((u128)0x2001 << 112 | (u128)i << 96, 32);
	} else if (which == 1) {
		for (uint32_t i = 0; i < 40000; i++)
			add(V4BASE | (i * 107374u), 128);
	} else {
		// Half of the addresses of a /16 with covering networks
		add(V4BASE | 0x0a000000, 96 + 8);
		for (uint32_t i = 0; i < 32768; i++)
			add(V4BASE | 0x0a010000 | (i << 1), 128);
	}
	mc_note("database of %d networks, every network looked up", nnets);
	struct loc_database* db = open_db(which % 3, 0);
	uint64_t h = MC_HASH_INIT;
	for (int i = 0; i < nnets; i++) {
		struct in6_addr in = m_in6(m_last(&nets[i]));
		struct loc_network* n = NULL;
		mc_ops(1);
		int want = i;
		if (which == 2 && i == 0)
			in = m_in6(m_last(&nets[0]));
		int r = loc_database_lookup(db, &in, &n);
		mc_assert(r == 0 && n, "lookup of %s failed", m_addr_str(m_u128(&in)));
		lk_check_net(n, &nets[want], "large database");
		loc_network_unref(n);
		if (which == 2 && i) {
			in = m_in6(m_first(&nets[i]) + 1);
			r = loc_database_lookup(db, &in, &n);
			mc_assert(r == 0 && n, "lookup of %s failed", m_addr_str(m_u128(&in)));
			lk_check_net(n, &nets[0], "large database");
			loc_network_unref(n);
		}
	}
	loc_database_unref(db);
	mc_state(h + which);
}

// Both families in one database
static void mixed(void) {
	int s4 = mc_choose(128), s6 = mc_choose(128);
	int b4 = mc_choose(2), b6 = mc_choose(3);
	mc_shard();
	static const int B4[] = { 2, 3 }, B6[] = { 9, 11, 1 };
	reset();
	net_t n;
	for (int k = 1; k < 8; k++) {
		if (s4 & (1 << (k - 1))) {
			u_node(&bases[B4[b4]], k, &n);
			add(n.addr, n.plen);
		}
		if (s6 & (1 << (k - 1))) {
			u_node(&bases[B6[b6]], k, &n);
			add(n.addr, n.plen);
		}
	}
	struct loc_database* db = open_db(0, 0);
	if (nnets)
		probe_all(db);
	uint64_t h = MC_HASH_INIT;
	expect(db, 0, 0, &h);
	expect(db, V4BASE, 0, &h);
	expect(db, V4BASE - 1, 0, &h);
	expect(db, V4BASE | 0xffffffff, 0, &h);
	expect(db, (V4BASE | 0xffffffff) + 1, 0, &h);
	loc_database_unref(db);
}

// All stored values
static void values(void) {
	int what = mc_choose(3);
	reset();
	add(V4BASE | 0x01020300, 96 + 24);
	net_t* n = &nets[0];
	if (what == 0) {
		int c = mc_choose(26 * 26);
		mc_shard();
		n->cc[0] = 'A' + c / 26;
		n->cc[1] = 'A' + c % 26;
		n->cc[2] = 0;
		if (*n->cc == 'X')
			return;
	} else if (what == 1) {
		int bit = mc_choose(33), delta = mc_choose(3);
		mc_shard();
		n->asn = (uint32_t)((1ULL << bit) + delta - 1);
	} else {
		n->flags = mc_choose(65536 / 16) * 16 + 15;
		mc_shard();
	}
	struct loc_database* db = open_db(0, 1);
	uint64_t h = MC_HASH_INIT;
	expect(db, m_first(n), 0, &h);
	mc_state(h);
	loc_database_unref(db);
}

void mc_run(void) {
	switch (mc_choose(7)) {
		case 0: small_universe(); break;
		case 1: pairs(); break;
		case 2: triples(); break;
		case 3: combs(); break;
		case 4: large(); break;
		case 5: mixed(); break;
		case 6: values(); break;
	}
}
