/*
	The reference model: addresses are 128 bit integers (IPv4 is ::ffff:0:0/96), a
	network is an integer range, a database is an array of networks. Nothing here
	uses libloc's code.
*/
#ifndef MODEL_H
#define MODEL_H

#include <arpa/inet.h>
#include <netinet/in.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef unsigned __int128 u128;

#define V4BASE (((u128)0xffff) << 32)
#define ALLONES (~(u128)0)

typedef struct net {
	u128 addr;
	int plen;			// 0..128, IPv4 prefixes are +96
	char cc[3];
	uint32_t asn;
	uint16_t flags;
} net_t;

static inline u128 m_hostmask(int plen) {
	return plen == 0 ? ALLONES : plen >= 128 ? 0 : (ALLONES >> plen);
}
static inline u128 m_first(const net_t* n) { return n->addr & ~m_hostmask(n->plen); }
static inline u128 m_last(const net_t* n) { return n->addr | m_hostmask(n->plen); }
static inline int m_is_v4(u128 a) { return (a >> 32) == 0xffff; }
static inline int m_net_v4(const net_t* n) { return n->plen >= 96 && m_is_v4(n->addr); }
static inline int m_contains(const net_t* n, u128 a) { return m_first(n) <= a && a <= m_last(n); }
static inline int m_subnet(const net_t* outer, const net_t* inner) {
	return m_first(outer) <= m_first(inner) && m_last(inner) <= m_last(outer);
}
// Does an IPv6 network cover the IPv4 range?
static inline int m_covers_v4(const net_t* n) {
	return n->plen < 96 && m_first(n) <= V4BASE && V4BASE <= m_last(n);
}
static inline int m_same_props(const net_t* a, const net_t* b) {
	return !strcmp(a->cc, b->cc) && a->asn == b->asn && a->flags == b->flags;
}
static inline int m_same_net(const net_t* a, const net_t* b) {
	return m_first(a) == m_first(b) && a->plen == b->plen;
}

// Longest prefix match; -1 if nothing matches
static inline int m_lpm(const net_t* nets, int n, u128 a) {
	int best = -1;
	for (int i = 0; i < n; i++)
		if (m_contains(&nets[i], a) && (best < 0 || nets[i].plen > nets[best].plen))
			best = i;
	return best;
}

// Ordering: address, then prefix
static inline int m_cmp(const net_t* a, const net_t* b) {
	u128 x = m_first(a), y = m_first(b);
	if (x != y)
		return x < y ? -1 : 1;
	return (a->plen > b->plen) - (a->plen < b->plen);
}
static int m_cmp_q(const void* a, const void* b) { return m_cmp(a, b); }
static inline void m_sort(net_t* nets, int n) { qsort(nets, n, sizeof(*nets), m_cmp_q); }

static inline struct in6_addr m_in6(u128 a) {
	struct in6_addr r;
	for (int i = 15; i >= 0; i--) {
		r.s6_addr[i] = a & 0xff;
		a >>= 8;
	}
	return r;
}
static inline u128 m_u128(const struct in6_addr* a) {
	u128 r = 0;
	for (int i = 0; i < 16; i++)
		r = (r << 8) | a->s6_addr[i];
	return r;
}

static inline const char* m_addr_str(u128 a) {
	static char bufs[8][64];
	static int i = 0;
	char* b = bufs[i++ % 8];
	if (m_is_v4(a)) {
		uint32_t v = (uint32_t)a;
		snprintf(b, 64, "%u.%u.%u.%u", v >> 24, (v >> 16) & 255, (v >> 8) & 255, v & 255);
	} else {
		struct in6_addr in = m_in6(a);
		inet_ntop(AF_INET6, &in, b, 64);
	}
	return b;
}
static inline const char* m_net_str(const net_t* n) {
	static char bufs[8][80];
	static int i = 0;
	char* b = bufs[i++ % 8];
	if (m_net_v4(n))
		snprintf(b, 80, "%s/%d", m_addr_str(m_first(n)), n->plen - 96);
	else {
		struct in6_addr in = m_in6(m_first(n));
		char t[64];
		inet_ntop(AF_INET6, &in, t, 64);
		snprintf(b, 80, "%s/%d", t, n->plen);
	}
	return b;
}
static inline const char* m_props_str(const net_t* n) {
	static char bufs[8][64];
	static int i = 0;
	char* b = bufs[i++ % 8];
	snprintf(b, 64, "(%s AS%u flags 0x%x)", *n->cc ? n->cc : "--", n->asn, n->flags);
	return b;
}

static inline u128 m_parse(const char* s) {
	struct in6_addr in;
	if (inet_pton(AF_INET6, s, &in) == 1)
		return m_u128(&in);
	struct in_addr v4;
	if (inet_pton(AF_INET, s, &v4) == 1)
		return V4BASE | ntohl(v4.s_addr);
	fprintf(stderr, "bad address in harness: %s\n", s);
	abort();
}

/*
	Bases: a small universe of `depth` bits is placed below one of these, so that
	the same shapes are explored at different places of the address space.
*/
struct base { const char* addr; int plen; };	// plen: raw
static const struct base bases[] = {
	{ "10.0.0.0",                       96 + 8 },	// 0: ordinary IPv4
	{ "2001:db8::",                     32 },	// 1: ordinary IPv6
	{ "0.0.0.0",                        96 },	// 2: IPv4 default route
	{ "192.0.2.16",                     96 + 29 },	// 3: IPv4 host routes
	{ "255.255.255.248",                96 + 29 },	// 4: the end of IPv4
	{ "2001:db8:ffff:ffff:ffff:ffff:ffff:fff8", 125 },	// 5: IPv6 host routes
	{ "ffff:ffff:ffff:ffff:ffff:ffff:ffff:fff8", 125 },	// 6: the end of IPv6
	{ "2a00::",                         62 },	// 7: across bit 64
	{ "::",                             0 },	// 8: IPv6 default route
	{ "2000::",                         3 },	// 9: top of global unicast
	{ "fe80:0:8000::",                  30 },	// 10: across bit 32
	{ "2001:0:0:0:0:0:0:0",             94 },	// 11: across bit 96, not IPv4
	{ "223.255.252.0",                  96 + 22 },	// 12: across the last octet
	{ "224.0.0.0",                      96 + 3 },	// 13: the end of IPv4, large
	{ "e000::",                         3 },	// 14: the end of IPv6, large
	{ "0.0.0.0",                        96 + 29 },	// 15: the start of IPv4, host routes
};
#define NBASES ((int)(sizeof(bases) / sizeof(*bases)))

// The k-th node (heap order, 1 = the base itself) of the universe below a base
static inline void u_node(const struct base* b, int k, net_t* n) {
	int depth = 31 - __builtin_clz(k);
	u128 a = m_parse(b->addr);
	int shift = 128 - b->plen - depth;
	a &= ~m_hostmask(b->plen);
	if (shift < 128)
		a |= ((u128)(k - (1 << depth))) << shift;
	memset(n, 0, sizeof(*n));
	n->addr = a;
	n->plen = b->plen + depth;
}

// Property classes. 0 is "nothing known".
static inline void u_props(net_t* n, int p) {
	static const struct { const char* cc; uint32_t asn; uint16_t flags; } t[] = {
		{ "",   0,          0 },
		{ "DE", 0,          0 },
		{ "AT", 0,          0 },
		{ "DE", 64512,      0 },
		{ "DE", 0,          1 },
		{ "",   4294967295u,0 },
		{ "",   0,          8 },
		{ "DF", 0,          0 },
		{ "EE", 64512,      4 },
	};
	strcpy(n->cc, t[p].cc);
	n->asn = t[p].asn;
	n->flags = t[p].flags;
}

// Properties that differ for every index
static inline void u_unique(net_t* n, int i) {
	static const uint16_t flags[] = { 0, 1, 2, 4, 8, 3, 5, 15 };
	n->cc[0] = "ABCDEFGHIJKLMNOPQRSTUVWYZ"[(i / 25) % 25];
	n->cc[1] = 'A' + (i % 25);
	n->cc[2] = 0;
	if (i % 7 == 6)
		n->cc[0] = n->cc[1] = 0;
	n->asn = (i % 3 == 0) ? 4294967295u - i : (i % 3 == 1) ? 1000 + i : 70000 + 65536u * i;
	n->flags = flags[i % 8];
}

#endif
