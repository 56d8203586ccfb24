/*
	C04: the flattened enumeration partitions the covered addresses and agrees with lookup
*/
#include "enumc.h"

const char* mc_property = "C04";
void (*mc_worker_init)(void) = lk_init;

// Index of the most specific network for each elementary interval, in O(n * depth)
static int owner[2 * MAXN + 8];
static void make_owners(void) {
	make_points(AF_UNSPEC);
	m_sort(nets, nnets);
	static int stack[300];
	int depth = 0, j = 0;
	for (int i = 0; i < npoints; i++) {
		while (depth && m_last(&nets[stack[depth - 1]]) < points[i])
			depth--;
		while (j < nnets && m_first(&nets[j]) == points[i])
			stack[depth++] = j++;
		owner[i] = depth ? stack[depth - 1] : -1;
	}
}

static void check(struct loc_database* db, const struct filter* f, int lookups) {
	struct loc_database_enumerator* e = make_enumerator(db, LOC_DB_ENUMERATE_NETWORKS, LOC_DB_ENUMERATOR_FLAGS_FLATTEN, f);
	collect(e, 200 * nnets + 1000 > 4 * MAXN ? 4 * MAXN : 200 * nnets + 1000);
	loc_database_enumerator_unref(e);
	make_owners();
	u128 want = 0, have = 0;
	for (int i = 0; i < npoints; i++)
		if (owner[i] >= 0 && (!f || m_match(f, &nets[owner[i]])))
			want += interval_end(AF_UNSPEC, i) - points[i] + 1;
	int p = 0;
	for (int i = 0; i < ngot; i++) {
		net_t* g = &got[i];
		mc_checks(1);
		if (i)
			mc_assert(m_first(g) > m_last(&got[i - 1]), "%s follows %s", m_net_str(g), m_net_str(&got[i - 1]));
		have += m_last(g) - m_first(g) + 1;
		while (interval_end(AF_UNSPEC, p) < m_first(g))
			p++;
		for (int q = p; q < npoints && points[q] <= m_last(g); q++) {
			mc_assert(owner[q] >= 0, "%s %s covers addresses without a network", m_net_str(g), m_props_str(g));
			net_t* o = &nets[owner[q]];
			mc_assert(m_same_props(g, o), "%s has %s but the addresses belong to %s %s",
				m_net_str(g), m_props_str(g), m_net_str(o), m_props_str(o));
			mc_assert(!f || m_match(f, o), "%s %s does not match the filter", m_net_str(g), m_props_str(g));
		}
	}
	mc_assert(want == have, "addresses are missing from the flattened list");
	if (!lookups)
		return;
	for (int i = 0; i < npoints; i++) {
		if (owner[i] < 0 || (f && !m_match(f, &nets[owner[i]])))
			continue;
		struct loc_network* n = NULL;
		struct in6_addr a = m_in6(points[i]);
		mc_ops(1);
		int r = loc_database_lookup(db, &a, &n);
		mc_assert(r == 0 && n, "lookup of %s failed (%d)", m_addr_str(points[i]), r);
		net_t l;
		lk_read(n, &l);
		loc_network_unref(n);
		int j = 0;
		while (j < ngot && !m_contains(&got[j], points[i]))
			j++;
		mc_assert(j < ngot, "%s is not in the flattened list", m_addr_str(points[i]));
		mc_assert(m_same_props(&l, &got[j]), "%s: lookup says %s, the flattened list says %s",
			m_addr_str(points[i]), m_props_str(&l), m_props_str(&got[j]));
	}
}

static void run(int order, const struct filter* f, int lookups) {
	note_nets();
	if (f)
		note_filter(f);
	struct loc_database* db = open_db(order);
	check(db, f, lookups);
	loc_database_unref(db);
}

// Every set of networks of a complete tree of four levels at every base
static void small_universe(void) {
	int b = mc_choose(NBASES);
	int subset = mc_choose(32768);
	int props = mc_choose(2);
	if (!mc_thorough && (b > 1 || props) && (subset % 8) && __builtin_popcount(subset) > 3)
		mc_prune();
	mc_shard();
	reset();
	for (int k = 1; k < 16; k++)
		if (subset & (1 << (k - 1))) {
			net_t n;
			u_node(&bases[b], k, &n);
			add(n.addr, n.plen, props ? k % 2 : -1);
		}
	run(0, NULL, (subset % 16) == 0);
}

// All filters over small databases with both families
static void filters(void) {
	struct filter f;
	choose_filter(&f);
	int subset = mc_choose(128);
	int shape = mc_choose(mc_thorough ? 6 : 2);
	mc_shard();
	static const int P[] = { 1, 2, 3, 4, 5, 6, 8, 0, 7 };
	static const int B[][2] = { { 0, 1 }, { 4, 6 }, { 2, 9 }, { 3, 5 }, { 13, 14 }, { 15, 11 } };
	reset();
	for (int k = 1; k < 8; k++)
		if (subset & (1 << (k - 1))) {
			net_t n;
			u_node(&bases[B[shape][0]], k, &n);
			add(n.addr, n.plen, P[(k + shape) % 9]);
			u_node(&bases[B[shape][1]], k, &n);
			add(n.addr, n.plen, P[(k * 2 + shape) % 9]);
		}
	// Networks that cover all of IPv4 do not belong to one family
	for (int i = 0; i < nnets; i++)
		if (f.family && !m_net_v4(&nets[i]) && m_contains(&nets[i], V4BASE))
			mc_prune();
	run(0, &f, 0);
}

// Two nested networks of every pair of lengths, alone or with a third one
static void pairs(void) {
	int v4 = mc_choose(2);
	u128 a = m_parse(v4 ? patterns4[mc_choose(5)] : patterns[mc_choose(mc_thorough ? 5 : 1)]);
	int min = v4 ? 96 : 0;
	int i = min + mc_choose(129 - min);
	int j = i + mc_choose(129 - i);
	int third = mc_choose(3);
	mc_shard();
	reset();
	add(a, i, -1);
	if (j > i)
		add(a, j, -1);
	if (third == 1 && j > i)
		add(a ^ ((u128)1 << (128 - j)), j, -1);
	else if (third == 2 && i > min)
		add(a ^ ((u128)1 << (128 - i)), i, -1);
	run(0, NULL, 1);
}

static void combs(void) {
	int v4 = mc_choose(2);
	int p = mc_choose(5);
	int siblings = mc_choose(3);
	int step = 1 + mc_choose(3);
	mc_shard();
	u128 a = m_parse(v4 ? patterns4[p] : patterns[p]);
	reset();
	for (int d = v4 ? 96 : 0; d <= 128; d += step) {
		if (siblings != 2 || d % 2)
			add(a, d, -1);
		if (siblings && d > (v4 ? 96 : 0))
			add(a ^ ((u128)1 << (128 - d)), d, -1);
	}
	run(0, NULL, 1);
}

// IPv6 networks that cover all of IPv4, with IPv4 networks inside and IPv6 networks around
static void embedded(void) {
	int len = mc_choose(96);
	int v4 = mc_choose(5);
	int v6 = mc_choose(4);
	mc_shard();
	reset();
	add(V4BASE, len, -1);
	if (v4 & 1)
		add(V4BASE | 0x0a000000, 96 + 8, -1);
	if (v4 & 2)
		add(V4BASE | 0x0a000000, 96 + 12, -1);
	if (v4 & 4)
		add(V4BASE, 96, -1);
	u128 other = len ? V4BASE : 0;
	if (v6 & 1)
		add(V4BASE - 1, 128, -1);
	if (v6 & 2 && len < 90)
		add((other | ((u128)1 << (127 - len))) ^ ((u128)0xffff << 32), len + 5, -1);
	run(0, NULL, 1);
}

// Many siblings below one network
static void large(void) {
	int which = mc_choose(5);
	mc_shard();
	reset();
	if (which == 0) {
		add(V4BASE | 0x0a000000, 96 + 8, -1);
		for (uint32_t i = 0; i < 1500; i++)
			add(V4BASE | 0x0a000000 | (i * 3), 128, -1);
	} else if (which == 1) {
		for (uint32_t i = 0; i < 20000; i++)
			add(V4BASE | (i * 107374u), 128, -1);
	} else if (which == 2) {
		add(V4BASE | 0x0a000000, 96 + 16, -1);
		for (uint32_t i = 0; i < 1030; i++)
			add(V4BASE | 0x0a000000 | (i * 2), 128, -1);
	} else if (which == 3) {
		for (uint32_t i = 0; i < 3000; i++) {
			add(((u128)0x20010000 + i * 3) << 96, 32, -1);
			add((((u128)0x20010000 + i * 3) << 96) + 5, 64 + i % 64, -1);
		}
	} else {
		add((u128)0x2001 << 112, 16, -1);
		for (uint32_t i = 0; i < 700; i++)
			add(((u128)0x2001 << 112) | ((u128)i << 90), 40, -1);
	}
	mc_note("%d networks", nnets);
	run(0, NULL, 0);
}

void mc_run(void) {
	switch (mc_choose(6)) {
		case 0: small_universe(); break;
		case 1: filters(); break;
		case 2: pairs(); break;
		case 3: combs(); break;
		case 4: embedded(); break;
		case 5: large(); break;
	}
}
