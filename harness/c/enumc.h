/* Shared by the checks of the network enumerations (C03, C04, C05) */
#ifndef ENUMC_H
#define ENUMC_H
#include "lk.h"

#define MAXN 270000
static net_t nets[MAXN];
static int nnets;
static net_t got[4 * MAXN];
static int ngot;

struct filter {
	int family;				// AF_UNSPEC: any
	const char* cc[3]; int ncc;
	uint32_t asn[3]; int nasn;
	int flags;
};

static int m_family(const net_t* n) { return m_net_v4(n) ? AF_INET : AF_INET6; }

static int m_match(const struct filter* f, const net_t* n) {
	if (f->family && m_family(n) != f->family)
		return 0;
	if (!f->ncc && !f->nasn && !f->flags)
		return 1;
	for (int i = 0; i < f->ncc; i++)
		if (!strcmp(f->cc[i], n->cc))
			return 1;
	for (int i = 0; i < f->nasn; i++)
		if (f->asn[i] == n->asn)
			return 1;
	return (f->flags & n->flags) != 0;
}

// Chooses a filter: every combination of the criteria
static void choose_filter(struct filter* f) {
	memset(f, 0, sizeof(*f));
	static const int families[] = { AF_UNSPEC, AF_INET, AF_INET6 };
	f->family = families[mc_choose(3)];
	switch (mc_choose(4)) {
		case 1: f->cc[f->ncc++] = "DE"; break;
		case 2: f->cc[f->ncc++] = "AT"; f->cc[f->ncc++] = "DE"; break;
		case 3: f->cc[f->ncc++] = "FR"; break;
	}
	switch (mc_choose(3)) {
		case 1: f->asn[f->nasn++] = 64512; break;
		case 2: f->asn[f->nasn++] = 1; f->asn[f->nasn++] = 4294967295u; break;
	}
	static const int flags[] = { 0, 1, 8, 6 };
	f->flags = flags[mc_choose(4)];
}

static void note_filter(const struct filter* f) {
	mc_note(" filter: family %d, countries", f->family);
	for (int i = 0; i < f->ncc; i++)
		mc_note(" %s", f->cc[i]);
	mc_note(", ASNs");
	for (int i = 0; i < f->nasn; i++)
		mc_note(" %u", f->asn[i]);
	mc_note(", flags %x;", f->flags);
}

static void note_nets(void) {
	if (!mc_noting)
		return;
	mc_note("database:");
	for (int i = 0; i < nnets && i < 40; i++)
		mc_note(" %s%s", m_net_str(&nets[i]), m_props_str(&nets[i]));
	mc_note(";");
}

// Set every criterion to something else first? (The last one counts)
static int set_twice = 0;

static void set_countries(struct loc_database_enumerator* e, const char* const* cc, int n) {
	struct loc_country_list* l = NULL;
	loc_country_list_new(lk_ctx, &l);
	for (int i = 0; i < n; i++) {
		struct loc_country* c = NULL;
		loc_country_new(lk_ctx, &c, cc[i]);
		loc_country_list_append(l, c);
		loc_country_unref(c);
	}
	int r = loc_database_enumerator_set_countries(e, l);
	mc_assert(r == 0, "the countries to search for were refused (%d)", r);
	loc_country_list_unref(l);
}

static void set_asns(struct loc_database_enumerator* e, const uint32_t* asn, int n) {
	struct loc_as_list* l = NULL;
	loc_as_list_new(lk_ctx, &l);
	for (int i = 0; i < n; i++) {
		struct loc_as* a = NULL;
		loc_as_new(lk_ctx, &a, asn[i]);
		loc_as_list_append(l, a);
		loc_as_unref(a);
	}
	int r = loc_database_enumerator_set_asns(e, l);
	mc_assert(r == 0, "the ASNs to search for were refused (%d)", r);
	loc_as_list_unref(l);
}

static struct loc_database_enumerator* make_enumerator(struct loc_database* db, int mode, int flags, const struct filter* f) {
	struct loc_database_enumerator* e = NULL;
	int r = loc_database_enumerator_new(&e, db, mode, flags);
	if (r || !e)
		mc_fail("could not create an enumerator (%d)", r);
	if (f) {
		static const char* const other[] = { "AT", "US", "FR", "DE", "GB", "IT" };
		static const uint32_t numbers[] = { 64512, 1, 2, 3, 4294967295u, 7 };
		if (f->family) {
			if (set_twice)
				loc_database_enumerator_set_family(e, f->family == AF_INET ? AF_INET6 : AF_INET);
			loc_database_enumerator_set_family(e, f->family);
		}
		if (f->ncc) {
			if (set_twice)
				set_countries(e, other, 6);
			set_countries(e, f->cc, f->ncc);
		}
		if (f->nasn) {
			if (set_twice)
				set_asns(e, numbers, 6);
			set_asns(e, f->asn, f->nasn);
		}
		for (int b = 1; b <= 0x8000; b <<= 1)
			if (f->flags & b)
				loc_database_enumerator_set_flag(e, b);
	}
	return e;
}

// Reads everything the enumerator yields into got[]
static void collect(struct loc_database_enumerator* e, int limit) {
	ngot = 0;
	uint64_t h = MC_HASH_INIT;
	while (1) {
		struct loc_network* n = NULL;
		mc_ops(1);
		int r = loc_database_enumerator_next_network(e, &n);
		mc_assert(r == 0, "enumerating failed with %d after %d networks", r, ngot);
		if (!n)
			break;
		if (ngot >= limit)
			mc_fail("more than %d networks enumerated", limit);
		lk_read(n, &got[ngot]);
		h = lk_hash_net(h, &got[ngot]);
		ngot++;
		loc_network_unref(n);
	}
	mc_state(h);
}

static void reset(void) { nnets = 0; }
static void add(u128 addr, int plen, int i) {
	net_t* n = &nets[nnets++];
	memset(n, 0, sizeof(*n));
	n->plen = plen;
	n->addr = addr & ~m_hostmask(plen);
	if (i < 0)
		u_unique(n, nnets);
	else
		u_props(n, i);
}

static struct loc_database* open_db(int order) {
	struct enc e = { .nets = nets, .nnets = nnets, .order = order, .compact = 1, .created_at = 1 };
	return lk_open_enc(&e);
}

/*
	The address space as elementary intervals on which the most specific network
	does not change. IPv4 and IPv6 are separate: family selects one of them.
*/
static u128 points[2 * MAXN + 8];
static int npoints;
static int cmp_u128(const void* a, const void* b) {
	u128 x = *(const u128*)a, y = *(const u128*)b;
	return x < y ? -1 : x > y;
}
// Interval i is [points[i], interval_end(i)]
static void make_points(int family) {
	u128 lo = family == AF_INET ? V4BASE : 0;
	u128 hi = family == AF_INET ? (V4BASE | 0xffffffff) : ALLONES;	// AF_UNSPEC: one space with IPv4 inside
	npoints = 0;
	points[npoints++] = lo;
	for (int i = 0; i < nnets; i++) {
		if (family && m_family(&nets[i]) != family)
			continue;
		points[npoints++] = m_first(&nets[i]);
		if (m_last(&nets[i]) != hi)
			points[npoints++] = m_last(&nets[i]) + 1;
	}
	qsort(points, npoints, sizeof(*points), cmp_u128);
	int n = 0;
	for (int i = 0; i < npoints; i++)
		if (!n || points[n - 1] != points[i])
			points[n++] = points[i];
	npoints = n;
}
static u128 interval_end(int family, int i) {
	if (i + 1 < npoints)
		return points[i + 1] - 1;
	return family == AF_INET ? (V4BASE | 0xffffffff) : ALLONES;
}
static int lpm_family(int family, u128 a) {
	int best = -1;
	for (int i = 0; i < nnets; i++)
		if ((!family || m_family(&nets[i]) == family) && m_contains(&nets[i], a) && (best < 0 || nets[i].plen > nets[best].plen))
			best = i;
	return best;
}

static const char* patterns[] = {
	"2001:db8:1234:5678:9abc:def0:8000:1", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff",
	"aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa:aaaa", "5555:5555:5555:5555:5555:5555:5555:5555", "8000::",
};
static const char* patterns4[] = { "10.1.2.3", "255.255.255.255", "0.0.0.0", "170.170.170.170", "127.128.0.255" };

#endif
