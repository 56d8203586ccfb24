/*
	C13: network arithmetic is exact for every network
*/
#include "lk.h"

const char* mc_property = "C13";
void (*mc_worker_init)(void) = lk_init;

// More places: around and above the IPv4 address space
static const struct base more[] = {
	{ "::fff8:0:0",      93 },	// contains all of IPv4 as its last leaf but one level
	{ "::fffe:0:0",      95 },	// contains all of IPv4 as its second half
	{ "::ffff:0:0",      94 },	// (taken from below) the block around it
	{ "::",              93 },
	{ "::1:0:0:0",       80 },	// just behind IPv4
	{ "::fffe:ffff:fff8",125 },	// just before IPv4
	{ "127.255.255.252", 96 + 30 },
	{ "128.0.0.0",       96 + 1 },
	{ "::1:0:0:0",       125 },
	{ "7fff:ffff:ffff:ffff:ffff:ffff:ffff:fffc", 126 },
};
#define NMORE ((int)(sizeof(more) / sizeof(*more)))

static int sgn(int x) { return (x > 0) - (x < 0); }

// The network as the library would take it; 0 if it cannot be expressed
static int expressible(const net_t* n) {
	return n->plen <= 128;
}

static struct loc_network* create(const net_t* n, u128 host) {
	struct loc_network* r = NULL;
	u128 a = m_first(n) | (host & m_hostmask(n->plen));
	int v4 = m_net_v4(n);
	// An address in the IPv4 block means an IPv4 network
	if (!v4 && m_is_v4(a))
		a = m_first(n);
	struct in6_addr in = m_in6(a);
	mc_ops(1);
	int e = loc_network_new(lk_ctx, &r, &in, v4 ? n->plen - 96 : n->plen);
	mc_assert(e == 0 && r, "%s could not be created (%d)", m_net_str(n), e);
	return r;
}

static void check_one(struct loc_network* o, const net_t* n) {
	mc_assert(m_u128(loc_network_get_first_address(o)) == m_first(n), "%s: the first address is %s", m_net_str(n),
		m_addr_str(m_u128(loc_network_get_first_address(o))));
	mc_assert(m_u128(loc_network_get_last_address(o)) == m_last(n), "%s: the last address is %s instead of %s", m_net_str(n),
		m_addr_str(m_u128(loc_network_get_last_address(o))), m_addr_str(m_last(n)));
	int v4 = m_net_v4(n);
	mc_assert(loc_network_address_family(o) == (v4 ? AF_INET : AF_INET6), "%s: the family is %d", m_net_str(n), loc_network_address_family(o));
	mc_assert((int)loc_network_prefix(o) == n->plen - (v4 ? 96 : 0), "%s: the prefix is %u", m_net_str(n), loc_network_prefix(o));
}

static void check_member(struct loc_network* o, const net_t* n, u128 a) {
	struct in6_addr in = m_in6(a);
	int r = loc_network_matches_address(o, &in);
	mc_assert(!!r == m_contains(n, a), "%s %s %s", m_net_str(n), r ? "claims to contain" : "claims not to contain", m_addr_str(a));
}

static void check_members(struct loc_network* o, const net_t* n) {
	u128 f = m_first(n), l = m_last(n);
	u128 c[] = { f, l, f - 1, l + 1, f + 1, l - 1, 0, ALLONES, V4BASE, V4BASE - 1, V4BASE | 0xffffffffu, (V4BASE | 0xffffffffu) + 1,
		f + (l - f) / 2, f + (l - f) / 2 + 1 };
	for (unsigned i = 0; i < sizeof(c) / sizeof(*c); i++)
		check_member(o, n, c[i]);
	for (int k = 0; k < 128; k++) {
		check_member(o, n, f ^ ((u128)1 << k));
		check_member(o, n, l ^ ((u128)1 << k));
	}
}

static void check_split(struct loc_network* o, const net_t* n) {
	struct loc_network *s1 = (void*)-1, *s2 = (void*)-1;
	mc_ops(1);
	int r = loc_network_subnets(o, &s1, &s2);
	if (n->plen == 128) {
		mc_assert(r != 0, "the single address %s could be split", m_net_str(n));
		return;
	}
	mc_assert(r == 0 && s1 && s2, "%s could not be split (%d)", m_net_str(n), r);
	net_t h1 = *n, h2 = *n;
	h1.addr = h2.addr = m_first(n);
	h1.plen = h2.plen = n->plen + 1;
	h2.addr |= (u128)1 << (127 - n->plen);
	check_one(s1, &h1);
	check_one(s2, &h2);
	net_t g;
	lk_read(s1, &g);
	mc_assert(m_same_props(&g, n), "the first half of %s has %s instead of %s", m_net_str(n), m_props_str(&g), m_props_str(n));
	lk_read(s2, &g);
	mc_assert(m_same_props(&g, n), "the second half of %s has %s instead of %s", m_net_str(n), m_props_str(&g), m_props_str(n));
	loc_network_unref(s1);
	loc_network_unref(s2);
	// The original is unchanged
	check_one(o, n);
}

static void check_pair(struct loc_network* a, const net_t* ma, struct loc_network* b, const net_t* mb) {
	mc_ops(3);
	int r = loc_network_cmp(a, b);
	mc_assert(sgn(r) == m_cmp(ma, mb), "comparing %s with %s gives %d", m_net_str(ma), m_net_str(mb), r);
	int o = m_first(ma) <= m_last(mb) && m_first(mb) <= m_last(ma);
	r = loc_network_overlaps(a, b);
	mc_assert(!!r == o, "%s %s %s", m_net_str(ma), r ? "claims to overlap" : "claims not to overlap", m_net_str(mb));
	r = loc_network_is_subnet(a, b);
	mc_assert(!!r == m_subnet(ma, mb), "%s %s %s", m_net_str(mb), r ? "is called a subnet of" : "is not called a subnet of", m_net_str(ma));
}

static void set_props(struct loc_network* o, net_t* n, int p) {
	u_props(n, p);
	if (*n->cc)
		loc_network_set_country_code(o, n->cc);
	if (n->asn)
		loc_network_set_asn(o, n->asn);
	if (n->flags)
		loc_network_set_flag(o, n->flags);
}

// Any single bit of any property, and all of them
static void set_bits(struct loc_network* o, net_t* n, int p) {
	n->asn = p < 32 ? 1u << p : p == 48 ? 4294967295u : 0;
	n->flags = p >= 32 && p < 48 ? 1 << (p - 32) : p == 48 ? 0xffff : 0;
	if (p >= 49 || p == 48) {
		n->cc[0] = p == 48 ? 'Z' : 'A' + (p - 49);
		n->cc[1] = p == 48 ? 'A' : 'Z' - (p - 49);
		if (n->cc[0] == 'X' || !loc_country_code_is_valid(n->cc))
			n->cc[0] = 'D';
		loc_network_set_country_code(o, n->cc);
	}
	if (n->asn)
		loc_network_set_asn(o, n->asn);
	if (n->flags)
		loc_network_set_flag(o, n->flags);
}
#define NBITS (49 + 26)

static const struct base* get_base(int b) { return b < NBASES ? &bases[b] : &more[b - NBASES]; }

static u128 pattern(int p) {
	u128 a = 0;
	switch (p) {
		case 0: return 0;
		case 1: return ALLONES;
		case 2: for (int i = 0; i < 16; i++) a = a << 8 | 0xaa; return a;
		case 3: for (int i = 0; i < 16; i++) a = a << 8 | 0x55; return a;
		case 4: for (int i = 0; i < 16; i++) a = a << 8 | (0x13 + 0x11 * i); return a;
		case 5: return V4BASE;		// mapped
		case 6: return (u128)0xffff << 48;
		default: return (u128)1 << (p - 7);
	}
}
#define NPATTERNS (7 + 128)

// The i-th network of a large set: every prefix length of both families
static int nth(int plen, int pat, net_t* n) {
	memset(n, 0, sizeof(*n));
	if (plen <= 128) {
		n->addr = pattern(pat);
		n->plen = plen;
		n->addr = m_first(n);
		// Such a network is the IPv4 network of the other half
		return !(m_is_v4(n->addr) && plen >= 96);
	}
	plen -= 129;
	if (pat >= 7 + 32)
		return 0;
	n->addr = V4BASE | (uint32_t)pattern(pat == 6 ? 5 : pat);
	n->plen = 96 + plen;
	n->addr = m_first(n);
	return pat != 5;
}

static void mode_universe(void) {
	// All pairs of networks of two universes
	int b1 = mc_choose(NBASES + NMORE), b2 = mc_choose(NBASES + NMORE);
	int host = mc_choose(3);
	mc_shard();
	int size = mc_thorough ? 31 : 15;
	u128 h = host == 0 ? 0 : host == 1 ? ALLONES : pattern(4);
	struct loc_network* o[2][31];
	net_t n[2][31];
	int c[2] = { 0, 0 };
	for (int u = 0; u < 2; u++)
		for (int k = 1; k <= size; k++) {
			net_t* x = &n[u][c[u]];
			const struct base* b = get_base(u ? b2 : b1);
			if (b->plen + 31 - __builtin_clz(k) > 128)
				continue;
			u_node(b, k, x);
			if (!expressible(x))
				continue;
			x->addr = m_first(x);
			o[u][c[u]] = create(x, h);
			c[u]++;
		}
	uint64_t s = MC_HASH_INIT;
	for (int i = 0; i < c[0]; i++)
		for (int j = 0; j < c[1]; j++) {
			check_pair(o[0][i], &n[0][i], o[1][j], &n[1][j]);
			check_pair(o[1][j], &n[1][j], o[0][i], &n[0][i]);
			mc_state(lk_hash_net(lk_hash_net(s, &n[0][i]), &n[1][j]));
		}
	for (int u = 0; u < 2; u++)
		for (int i = 0; i < c[u]; i++) {
			check_one(o[u][i], &n[u][i]);
			if (b1 == b2) {
				check_members(o[u][i], &n[u][i]);
				check_split(o[u][i], &n[u][i]);
			}
			loc_network_unref(o[u][i]);
		}
}

static void mode_single(void) {
	// Every prefix length with every pattern: all single-network operations
	int plen = mc_choose(129 + 33), p = mc_choose(9);
	mc_shard();
	for (int pat = 0; pat < NPATTERNS; pat++) {
		net_t n;
		if (!nth(plen, pat, &n))
			continue;
		for (int h = 0; h < 3; h++) {
			struct loc_network* o = create(&n, pattern(h == 2 ? 4 : h));
			set_props(o, &n, p);
			check_one(o, &n);
			if (!p)
				check_members(o, &n);
			check_split(o, &n);
			mc_state(lk_hash_net(MC_HASH_INIT, &n));
			loc_network_unref(o);
		}
	}
}

static void mode_bits(void) {
	// Every bit of the properties is handed down
	int p = mc_choose(NBITS), plen = mc_choose(129 + 33);
	mc_shard();
	for (int pat = 0; pat < 2; pat++) {
		net_t n;
		if (!nth(plen, pat, &n))
			continue;
		struct loc_network* o = create(&n, 0);
		set_bits(o, &n, p);
		check_split(o, &n);
		net_t g;
		lk_read(o, &g);
		mc_assert(m_same_props(&g, &n), "%s has %s instead of %s", m_net_str(&n), m_props_str(&g), m_props_str(&n));
		mc_state(lk_hash_net(MC_HASH_INIT, &n));
		loc_network_unref(o);
	}
}

static void mode_pairs(void) {
	// One network of every prefix length and pattern against all others
	int plen = mc_choose(129 + 33), pat = mc_choose(mc_thorough ? NPATTERNS : 7);
	net_t n;
	if (!nth(plen, pat, &n))
		mc_prune();
	mc_shard();
	struct loc_network* o = create(&n, 0);
	for (int plen2 = 0; plen2 < 129 + 33; plen2++)
		for (int pat2 = 0; pat2 < 7; pat2++) {
			net_t n2;
			if (!nth(plen2, pat2, &n2))
				continue;
			struct loc_network* o2 = create(&n2, 0);
			check_pair(o, &n, o2, &n2);
			loc_network_unref(o2);
			mc_state(lk_hash_net(lk_hash_net(MC_HASH_INIT, &n), &n2));
		}
	// ... its closest relatives: the neighbours, the halves and the parent
	for (int d = -2; d <= 2; d++) {
		for (int dp = -2; dp <= 2; dp++) {
			net_t n2 = n;
			n2.plen += dp;
			if (n2.plen < 0 || n2.plen > 128)
				continue;
			n2.addr = m_first(&n2);
			if (n2.plen)
				n2.addr += (u128)(__int128)d * ((u128)1 << (128 - n2.plen));
			struct loc_network* o2 = create(&n2, 0);
			check_one(o2, &n2);
			check_pair(o, &n, o2, &n2);
			check_pair(o2, &n2, o, &n);
			loc_network_unref(o2);
		}
	}
	loc_network_unref(o);
}

static void mode_invalid(void) {
	// Prefixes that are too long
	static const char* addrs[] = { "::", "2001:db8::1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "::fffe:ffff:ffff", "0.0.0.0", "10.1.2.3", "255.255.255.255" };
	int a = mc_choose(7);
	mc_shard();
	struct in6_addr in = m_in6(m_parse(addrs[a]));
	unsigned max = a < 4 ? 128 : 32;
	for (unsigned i = 0; i < 600; i++) {
		unsigned p = i < 300 ? i : i < 400 ? (0u - 1 - (i - 300)) : (1u << (i % 32)) + i / 100;
		struct loc_network* n = NULL;
		mc_ops(1);
		int r = loc_network_new(lk_ctx, &n, &in, p);
		mc_assert((r == 0) == (p <= max), "%s/%u: %d", addrs[a], p, r);
		if (r == 0)
			loc_network_unref(n);
		else
			mc_assert(!n, "%s/%u was refused and returned", addrs[a], p);
	}
}

void mc_run(void) {
	switch (mc_choose(5)) {
		case 0: mode_universe(); break;
		case 1: mode_single(); break;
		case 2: mode_pairs(); break;
		case 3: mode_invalid(); break;
		case 4: mode_bits(); break;
	}
}
