/*
	C05: bogons are exactly the addresses that lie in no network with a country code
*/
#include "enumc.h"

const char* mc_property = "C05";
void (*mc_worker_init)(void) = lk_init;

// Adds an assigned network: any country, AS number and flags will do
static void assigned(u128 addr, int plen, int k) {
	add(addr, plen, 1);
	net_t* n = &nets[nnets - 1];
	static const char* cc[] = { "DE", "AT", "ZZ", "AA" };
	strcpy(n->cc, cc[k % 4]);
	n->asn = (k % 3) * 1431655765u;
	n->flags = k % 16;
}

static void check(struct loc_database* db, int family) {
	struct filter f = { .family = family };
	struct loc_database_enumerator* e = make_enumerator(db, LOC_DB_ENUMERATE_BOGONS, 0, family ? &f : NULL);
	collect(e, 4 * MAXN);
	loc_database_enumerator_unref(e);
	static const int families[] = { AF_INET, AF_INET6 };
	// Networks without a country do not count
	int n = 0;
	for (int i = 0; i < nnets; i++)
		if (*nets[i].cc)
			nets[n++] = nets[i];
	nnets = n;
	m_sort(nets, nnets);
	for (int k = 0; k < 2; k++) {
		int fam = families[k];
		u128 next = fam == AF_INET ? V4BASE : 0;
		u128 last = fam == AF_INET ? (V4BASE | 0xffffffff) : ALLONES;
		int any = 0, end = 0;
		for (int i = 0; i < nnets; i++)
			any += m_family(&nets[i]) == fam;
		if (!any || (family && family != fam)) {
			// Nothing is promised if there are no networks, but nothing of the other family is listed
			for (int j = 0; j < ngot; j++)
				mc_assert(!family || m_family(&got[j]) == family, "got %s of the wrong family", m_net_str(&got[j]));
			continue;
		}
		// Walk through what is listed and what is stored at the same time
		int j = 0;
		for (int i = 0; i <= nnets && !end; i++) {
			u128 until;
			int final = i == nnets;
			if (!final) {
				if (m_family(&nets[i]) != fam)
					continue;
				if (m_last(&nets[i]) < next)
					continue;
				until = m_first(&nets[i]);
			} else
				until = last;
			// Everything in [next, until) (or until inclusive at the end) must be listed
			while (final ? next <= until : next < until) {
				while (j < ngot && m_family(&got[j]) != fam)
					j++;
				mc_assert(j < ngot, "bogon starting at %s is not listed", m_addr_str(next));
				mc_assert(m_first(&got[j]) == next, "%s is listed, expected one that starts at %s",
					m_net_str(&got[j]), m_addr_str(next));
				u128 l = m_last(&got[j]);
				mc_assert(final ? l <= until : l < until, "%s is listed but covers a network", m_net_str(&got[j]));
				j++;
				if (l == last) {
					end = 1;
					break;
				}
				next = l + 1;
			}
			if (final || end)
				break;
			if (m_last(&nets[i]) == last)
				end = 1;
			else if (m_last(&nets[i]) >= next)
				next = m_last(&nets[i]) + 1;
		}
		while (j < ngot && m_family(&got[j]) != fam)
			j++;
		mc_assert(j == ngot, "%s is listed but assigned", m_net_str(&got[j]));
	}
}

static void run(int order, int family) {
	note_nets();
	// The border of the IPv4 address space inside IPv6 is out of scope
	for (int i = 0; i < nnets; i++)
		if (!m_net_v4(&nets[i]) && m_last(&nets[i]) >= V4BASE - 1 && m_first(&nets[i]) <= (V4BASE | 0xffffffff) + 1)
			mc_prune();
	struct loc_database* db = open_db(order);
	check(db, family);
	loc_database_unref(db);
}

static const int families[] = { 0, AF_INET, AF_INET6 };

static void small_universe(void) {
	int b = mc_choose(NBASES);
	int subset = mc_choose(32768);
	int props = mc_choose(3);
	if (!mc_thorough && (b > 1 || props) && (subset % 8) && __builtin_popcount(subset) > 3)
		mc_prune();
	mc_shard();
	reset();
	for (int k = 1; k < 16; k++)
		if (subset & (1 << (k - 1))) {
			net_t n;
			u_node(&bases[b], k, &n);
			assigned(n.addr, n.plen, k);
			if (props && (k + props) % 3 == 0)
				*nets[nnets - 1].cc = 0;
		}
	run(0, 0);
}

// Both families, with the family filter
static void both(void) {
	int a = mc_choose(128), b = mc_choose(128);
	int family = mc_choose(3);
	int nocc = mc_choose(8);
	int shape = mc_choose(mc_thorough ? 6 : 1);
	if (!mc_thorough && __builtin_popcount(a) + __builtin_popcount(b) > 3)
		mc_prune();
	mc_shard();
	static const int B[][2] = { { 0, 1 }, { 4, 6 }, { 2, 9 }, { 3, 5 }, { 13, 14 }, { 15, 11 } };
	reset();
	for (int k = 1; k < 8; k++) {
		net_t n;
		if (a & (1 << (k - 1))) {
			u_node(&bases[B[shape][0]], k, &n);
			assigned(n.addr, n.plen, k);
			if (nocc & (1 << (k % 3)))
				*nets[nnets - 1].cc = 0;
		}
		if (b & (1 << (k - 1))) {
			u_node(&bases[B[shape][1]], k, &n);
			assigned(n.addr, n.plen, k);
			if (nocc & (1 << ((k + 1) % 3)))
				*nets[nnets - 1].cc = 0;
		}
	}
	run(0, families[family]);
}

// A gap between every pair of boundaries, using minimal covers: hosts at a and b
static u128 edges(int v4, int i) {
	int w = v4 ? 32 : 128;
	u128 base = v4 ? V4BASE : 0;
	u128 mask = v4 ? 0xffffffff : ALLONES;
	if (i < w)
		return base | (((u128)1 << i) & mask);
	i -= w;
	if (i < w)
		return base | ((((u128)1 << i) - 1) & mask);
	i -= w;
	if (i < w)
		return base | (~(((u128)1 << i) - 1) & mask);
	return base | (~(((u128)1 << (i - w))) & mask);
}
static void gaps(void) {
	int v4 = mc_choose(2);
	int w = v4 ? 32 : 128;
	int i = mc_choose(4 * w), j = mc_choose(4 * w);
	if (!mc_thorough && !v4 && (i % 3 || j % 5))
		mc_prune();
	u128 a = edges(v4, i), b = edges(v4, j);
	if (a >= b)
		mc_prune();
	int shape = mc_choose(3);
	mc_shard();
	reset();
	if (shape == 0) {
		assigned(a, 128, nnets + 3);
		assigned(b, 128, nnets + 3);
	} else if (shape == 1) {
		// Everything up to a and from b is assigned
		u128 lo = v4 ? V4BASE : 0, hi = v4 ? (V4BASE | 0xffffffff) : ALLONES;
		for (int bit = w; bit >= 0; bit--) {
			// greedy cover of [lo, a]
			while (1) {
				int l = 0;
				while (l < w && !(lo & ((u128)1 << l)) && lo + (((u128)2 << l) - 1) <= a)
					l++;
				assigned(lo, 128 - l, nnets + 3);
				u128 e = l == 128 ? ALLONES : lo + (((u128)1 << l) - 1);
				if (e >= a)
					break;
				lo = e + 1;
			}
			break;
		}
		lo = b;
		while (1) {
			int l = 0;
			while (l < w && !(lo & ((u128)1 << l)) && lo + (((u128)2 << l) - 1) <= hi && lo + (((u128)2 << l) - 1) >= lo)
				l++;
			assigned(lo, 128 - l, nnets + 3);
			u128 e = lo + (((u128)1 << l) - 1);
			if (e >= hi)
				break;
			lo = e + 1;
		}
	} else
		assigned(b, 128, nnets + 3);
	run(0, 0);
}

static void pairs(void) {
	int v4 = mc_choose(2);
	u128 a = m_parse(v4 ? patterns4[mc_choose(5)] : patterns[mc_choose(5)]);
	int min = v4 ? 96 : 0;
	int i = min + mc_choose(129 - min);
	int j = i + mc_choose(129 - i);
	if (!mc_thorough && !v4 && i % 3)
		mc_prune();
	int nocc = mc_choose(3);
	mc_shard();
	reset();
	assigned(a, i, nnets + 3);
	assigned(a ^ (j > min ? (u128)1 << (128 - j) : 0), j, nnets + 3);
	if (nocc)
		*nets[nocc - 1].cc = 0;
	if (nets[0].plen == nets[1].plen && nets[0].addr == nets[1].addr)
		nnets = 1;
	run(0, 0);
}

void mc_run(void) {
	switch (mc_choose(4)) {
		case 0: small_universe(); break;
		case 1: both(); break;
		case 2: gaps(); break;
		case 3: pairs(); break;
	}
}
