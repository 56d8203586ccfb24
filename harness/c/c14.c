/*
	C14: excluding networks leaves exactly the remaining address space
*/
#include "lk.h"

const char* mc_property = "C14";
void (*mc_worker_init)(void) = lk_init;

#define MAXN 8192

static struct loc_network* create(const net_t* n) {
	struct loc_network* r = NULL;
	struct in6_addr in = m_in6(m_first(n));
	int v4 = m_net_v4(n);
	if (loc_network_new(lk_ctx, &r, &in, v4 ? n->plen - 96 : n->plen))
		mc_fail("%s could not be created", m_net_str(n));
	return r;
}

static u128 size(const net_t* n) { return m_last(n) - m_first(n) + 1; }

static char* list_str(const net_t* nets, int n) {
	static char buf[2048];
	*buf = 0;
	for (int i = 0; i < n && strlen(buf) < 1900; i++)
		snprintf(buf + strlen(buf), sizeof(buf) - strlen(buf), "%s%s", i ? ", " : "", m_net_str(&nets[i]));
	return buf;
}

// Compares the result with integer arithmetic
static void check(struct loc_network_list* list, const net_t* self, const net_t* ex, int nex) {
	static net_t got[MAXN * 4];
	mc_assert(list, "excluding %s from %s failed", list_str(ex, nex), m_net_str(self));
	size_t n = loc_network_list_size(list);
	if (n > MAXN * 4)
		mc_fail("the result has %zu elements", n);
	uint64_t h = MC_HASH_INIT;
	for (size_t i = 0; i < n; i++) {
		struct loc_network* x = loc_network_list_get(list, i);
		mc_assert(x, "element %zu is missing", i);
		lk_read(x, &got[i]);
		loc_network_unref(x);
		mc_assert(m_subnet(self, &got[i]), "%s without %s: %s is outside", m_net_str(self), list_str(ex, nex), m_net_str(&got[i]));
		for (int j = 0; j < nex; j++)
			mc_assert(m_last(&got[i]) < m_first(&ex[j]) || m_last(&ex[j]) < m_first(&got[i]), "%s without %s: contains %s",
				m_net_str(self), list_str(ex, nex), m_net_str(&got[i]));
		h = lk_hash_net(h, &got[i]);
	}
	m_sort(got, n);
	u128 sum = 0;
	for (size_t i = 0; i < n; i++) {
		if (i)
			mc_assert(m_last(&got[i - 1]) < m_first(&got[i]), "%s without %s: %s and %s are not disjoint", m_net_str(self),
				list_str(ex, nex), m_net_str(&got[i - 1]), m_net_str(&got[i]));
		sum += size(&got[i]);
	}
	// What should be left
	u128 want = size(self);
	int nothing = 0;
	for (int i = 0; i < nex; i++) {
		if (m_subnet(&ex[i], self)) {
			nothing = 1;
			continue;
		}
		if (!m_subnet(self, &ex[i]))
			continue;
		int counted = 0;
		for (int j = 0; j < nex; j++)
			if (m_subnet(&ex[j], &ex[i]) && (j < i || !m_subnet(&ex[i], &ex[j])))
				counted = 1;
		if (!counted)
			want -= size(&ex[i]);
	}
	if (nothing)
		mc_assert(n == 0, "%s without %s: %s is left", m_net_str(self), list_str(ex, nex), list_str(got, n));
	else
		mc_assert(sum == want && (n || want == 0), "%s without %s: %s is left, which is not everything", m_net_str(self), list_str(ex, nex), list_str(got, n));
	mc_state(lk_hash_net(h, self));
}

static void run_list(const net_t* self, const net_t* ex, int nex, int order) {
	struct loc_network* s = create(self);
	struct loc_network_list* list = NULL;
	if (loc_network_list_new(lk_ctx, &list))
		mc_fail("no list");
	for (int i = 0; i < nex; i++) {
		int k = order == 1 ? nex - 1 - i : order == 2 ? (i * 7 + 3) % nex : i;
		if (order == 2 && nex % 7 == 0)
			k = i;
		struct loc_network* n = create(&ex[k]);
		loc_network_list_push(list, n);
		if (order == 1)			// given twice
			loc_network_list_push(list, n);
		loc_network_unref(n);
	}
	mc_ops(1);
	struct loc_network_list* result = loc_network_exclude_list(s, list);
	check(result, self, ex, nex);
	loc_network_list_unref(result);
	if (nex == 1) {
		struct loc_network* n = create(&ex[0]);
		mc_ops(1);
		result = loc_network_exclude(s, n);
		check(result, self, ex, 1);
		loc_network_list_unref(result);
		loc_network_unref(n);
	}
	loc_network_list_unref(list);
	loc_network_unref(s);
}

// All sets of networks of a universe
static void mode_sets(void) {
	static const int quick[] = { 0, 1, 2, 4, 6, 8, 14 };
	int b = mc_thorough ? mc_choose(NBASES) : quick[mc_choose(7)];
	int hi = mc_choose(128);
	mc_shard();
	net_t nodes[16], ex[16];
	int count = 0;
	for (int k = 1; k <= 15; k++)
		u_node(&bases[b], k, &nodes[k]);
	for (int lo = 0; lo < 128; lo++) {
		int set = hi << 7 | lo, n = 0;
		if (!set)
			continue;
		for (int k = 2; k <= 15; k++)
			if (set & (1 << (k - 2)))
				ex[n++] = nodes[k];
		run_list(&nodes[1], ex, n, (set >> 3) % 3);
		count++;
	}
}

// Small sets of a deeper universe
static void mode_deep(void) {
	int b = mc_choose(mc_thorough ? NBASES : 5);
	static const int which[] = { 0, 1, 2, 8, 7, 9, 10, 11, 12, 13, 14, 0, 0, 0, 0, 0 };
	const struct base* base = &bases[which[b]];
	if (base->plen + 4 > 128)
		mc_prune();
	int i = 2 + mc_choose(30), j = 2 + mc_choose(30);
	if (j < i)
		mc_prune();
	mc_shard();
	net_t self, ex[5];
	u_node(base, 1, &self);
	for (int k = j; k <= 31; k++)
		for (int l = (mc_thorough ? k : 31); l <= 31; l++) {
			int n = 0;
			u_node(base, i, &ex[n++]);
			if (j != i)
				u_node(base, j, &ex[n++]);
			if (k != j)
				u_node(base, k, &ex[n++]);
			if (l != k && l != 31)
				u_node(base, l, &ex[n++]);
			run_list(&self, ex, n, (k + l) % 3);
		}
}

// One network of any length from one of any length
static void mode_single(void) {
	int p1 = mc_choose(129), pat = mc_choose(mc_thorough ? 8 : 5);
	mc_shard();
	net_t self = {}, n[3] = {};
	static const char* addrs[] = { "::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "2001:db8:aa55:5aa5:137f:8001:fedc:ba98", "::ffff:0:0", "10.170.85.129",
		"255.255.255.255", "::fffe:ffff:ffff", "::1:0:0:0" };
	u128 a = m_parse(addrs[pat]);
	self.addr = a;
	self.plen = p1;
	self.addr = m_first(&self);
	for (int p2 = 0; p2 <= 128; p2++) {
		n[0].addr = a;
		n[0].plen = p2;
		n[0].addr = m_first(&n[0]);
		run_list(&self, n, 1, 0);
		// Together with another one: the other edge of the network, the sibling, or something enclosing
		if (p2 > p1) {
			n[1].addr = m_last(&self);
			n[1].plen = 128 - (128 - p2) / 2;
			n[1].addr = m_first(&n[1]);
			run_list(&self, n, 2, p2 % 3);
			n[2].addr = n[0].addr ^ ((u128)1 << (128 - p2));
			n[2].plen = p2;
			run_list(&self, n, 3, p2 % 3);
			// Something that encloses the network itself
			if (p1) {
				n[2].addr = self.addr;
				n[2].plen = p1 - 1;
				n[2].addr = m_first(&n[2]);
				run_list(&self, n, 3, p2 % 3);
			}
		}
	}
}

// Many networks at once
static void mode_many(void) {
	static const int N[] = { 513, 1023, 1024, 1025, 1500, 2049 };
	int n = N[mc_choose(mc_thorough ? 6 : 4)], kind = mc_choose(2), order = mc_choose(3);
	mc_shard();
	static net_t ex[2100];
	net_t self = { .addr = kind ? (u128)0x2001 << 112 : V4BASE | 0x0a000000, .plen = kind ? 16 : 96 + 8 };
	for (int i = 0; i < n; i++) {
		ex[i] = (net_t) { .addr = kind ? self.addr | (u128)i << 96 | (u128)1 << 80 : self.addr | i << 8, .plen = kind ? 48 : 96 + 25 };
		if (i % 5 == 4)		// inside of the one before
			ex[i] = (net_t) { .addr = ex[i - 1].addr, .plen = ex[i - 1].plen + 2 };
	}
	mc_note("%d networks are excluded from %s", n, m_net_str(&self));
	run_list(&self, ex, n, order);
}

void mc_run(void) {
	switch (mc_choose(4)) {
		case 3: mode_many(); break;
		case 0: mode_sets(); break;
		case 1: mode_deep(); break;
		case 2: mode_single(); break;
	}
}
