/*
	C03: enumerating networks is complete, ordered and filtered exactly
*/
#include "enumc.h"

const char* mc_property = "C03";
void (*mc_worker_init)(void) = lk_init;

static void check(struct loc_database* db, const struct filter* f) {
	struct loc_database_enumerator* e = make_enumerator(db, LOC_DB_ENUMERATE_NETWORKS, 0, f);
	collect(e, nnets + 1);
	loc_database_enumerator_unref(e);
	// What it must be
	m_sort(nets, nnets);
	int j = 0;
	for (int i = 0; i < nnets; i++) {
		if (f && !m_match(f, &nets[i]))
			continue;
		mc_assert(j < ngot, "%s %s is missing at the end", m_net_str(&nets[i]), m_props_str(&nets[i]));
		mc_assert(m_same_net(&nets[i], &got[j]) && m_same_props(&nets[i], &got[j]), "got %s %s instead of %s %s",
			m_net_str(&got[j]), m_props_str(&got[j]), m_net_str(&nets[i]), m_props_str(&nets[i]));
		j++;
	}
	mc_assert(j == ngot, "%s %s is too much", m_net_str(&got[j]), m_props_str(&got[j]));
}

static void small_universe(void) {
	int b = mc_choose(NBASES);
	int subset = mc_choose(32768);
	if (!mc_thorough && b >= 4 && __builtin_popcount(subset) > 3 && __builtin_popcount(subset) < 14)
		mc_prune();
	mc_shard();
	reset();
	for (int k = 1; k < 16; k++)
		if (subset & (1 << (k - 1))) {
			net_t n;
			u_node(&bases[b], k, &n);
			add(n.addr, n.plen, -1);
		}
	note_nets();
	struct loc_database* db = open_db(subset % 3);
	check(db, NULL);
	loc_database_unref(db);
}

// All filters over small databases that hold both families
static void filters(void) {
	struct filter f;
	choose_filter(&f);
	int subset = mc_choose(128);
	int shape = mc_choose(mc_thorough ? 6 : 2);
	set_twice = (f.ncc || f.nasn || f.family) && (mc_thorough || subset % 8 == 7) ? mc_choose(2) : 0;
	mc_shard();
	static const int P[] = { 1, 2, 3, 4, 5, 6, 8, 0, 7 };
	static const int B[][2] = { { 0, 1 }, { 4, 6 }, { 2, 9 }, { 3, 5 }, { 13, 14 }, { 15, 11 } };
	reset();
	for (int k = 1; k < 8; k++)
		if (subset & (1 << (k - 1))) {
			net_t n;
			u_node(&bases[B[shape][0]], k, &n);
			add(n.addr, n.plen, P[(k + shape) % 9]);
			u_node(&bases[B[shape][1]], k, &n);
			add(n.addr, n.plen, P[(k * 2 + shape) % 9]);
		}
	note_nets();
	note_filter(&f);
	struct loc_database* db = open_db(0);
	if (set_twice)
		mc_note(" (set twice)");
	check(db, &f);
	set_twice = 0;
	loc_database_unref(db);
}

// All values of a country, ASN or flag filter against networks with neighbouring values
static void values(void) {
	int what = mc_choose(3);
	struct filter f = { 0 };
	char cc[3] = "";
	reset();
	if (what == 0) {
		int c = mc_choose(25 * 26);
		mc_shard();
		cc[0] = "ABCDEFGHIJKLMNOPQRSTUVWYZ"[c / 26];
		cc[1] = 'A' + c % 26;
		f.cc[f.ncc++] = cc;
		for (int i = 0; i < 25 * 26; i++) {
			add(V4BASE | 0x0a000000 | (i << 8), 96 + 24, 0);
			nets[nnets - 1].cc[0] = "ABCDEFGHIJKLMNOPQRSTUVWYZ"[i / 26];
			nets[nnets - 1].cc[1] = 'A' + i % 26;
		}
	} else if (what == 1) {
		int bit = mc_choose(32);
		mc_shard();
		f.asn[f.nasn++] = 1u << bit;
		for (int i = 0; i < 32; i++)
			for (int d = -1; d < 2; d++) {
				add(V4BASE | 0x0a000000 | ((i * 4 + d + 1) << 8), 96 + 24, 1);
				nets[nnets - 1].asn = (1u << i) + d;
			}
	} else {
		int fl = mc_choose(256);
		mc_shard();
		f.flags = (fl & 15) | ((fl >> 4) << 12);
		for (int i = 0; i < 16; i++) {
			add(V4BASE | 0x0a000000 | (i << 8), 96 + 24, 1);
			nets[nnets - 1].flags = 1 << i;
		}
		add(V4BASE | 0x0a100000, 96 + 24, 1);
		if (!f.flags)
			return;
	}
	struct loc_database* db = open_db(0);
	check(db, &f);
	loc_database_unref(db);
}

static void combs(void) {
	int v4 = mc_choose(2);
	int p = mc_choose(5);
	int siblings = mc_choose(3);
	int step = 1 + mc_choose(3);
	int first = mc_choose(2);
	mc_shard();
	u128 a = m_parse(v4 ? patterns4[p] : patterns[p]);
	reset();
	for (int d = first + (v4 ? 96 : 0); d <= 128; d += step) {
		if (siblings != 2 || d % 2)
			add(a, d, -1);
		if (siblings && d > (v4 ? 96 : 0))
			add(a ^ ((u128)1 << (128 - d)), d, -1);
	}
	note_nets();
	struct loc_database* db = open_db(siblings);
	check(db, NULL);
	loc_database_unref(db);
}

static void pairs(void) {
	int v4 = mc_choose(2);
	u128 a = m_parse(v4 ? patterns4[mc_choose(5)] : patterns[mc_choose(mc_thorough ? 5 : 1)]);
	int min = v4 ? 96 : 0;
	int i = min + mc_choose(129 - min);
	int j = i + mc_choose(129 - i);
	int flip = mc_choose(2);
	mc_shard();
	reset();
	add(a, i, -1);
	if (j > i)
		add(flip && j > min ? a ^ ((u128)1 << (128 - j)) : a, j, -1);
	note_nets();
	struct loc_database* db = open_db(0);
	check(db, NULL);
	loc_database_unref(db);
}

static void large(void) {
	int which = mc_choose(4);
	mc_shard();
	reset();
	if (which == 3) {
		for (uint32_t i = 0; i < (1 << 18) + 5; i++)
			add((u128)0x2a << 120 | (u128)i << 88, 40, -1);
	} else if (which == 0) {
		for (uint32_t i = 0; i < 65536; i++)
			add((u128)0x2001 << 112 | (u128)i << 96, 32, -1);
	} else if (which == 1) {
		for (uint32_t i = 0; i < 40000; i++)
			add(V4BASE | (i * 107374u), 128, -1);
	} else {
		add(V4BASE | 0x0a000000, 96 + 8, -1);
		for (uint32_t i = 0; i < 8000; i++)
			add(V4BASE | 0x0a010000 | (i << 1), 128, -1);
		for (uint32_t i = 0; i < 8000; i++)
			add(((u128)0x20010000 + i * 3) << 96, 34, -1);
	}
	mc_note("%d networks", nnets);
	struct loc_database* db = open_db(which % 3);
	check(db, NULL);
	loc_database_unref(db);
}

// Databases written by the writer
static void written(void) {
	int a = mc_choose(2187);
	int shape = mc_choose(3);
	mc_shard();
	static const int B[][2] = { { 0, 1 }, { 4, 6 }, { 2, 9 } };
	reset();
	struct loc_writer* w = NULL;
	if (loc_writer_new(lk_ctx, &w, NULL, NULL))
		mc_fail("loc_writer_new() failed");
	for (int k = 1; k < 8; k++, a /= 3)
		if (a % 3) {
			net_t n;
			u_node(&bases[B[shape][a % 3 - 1]], k, &n);
			add(n.addr, n.plen, -1);	// unique properties: nothing is merged
			if (lk_add(w, &nets[nnets - 1]))
				mc_fail("could not add %s", m_net_str(&n));
		}
	note_nets();
	struct loc_database* db = lk_open_writer(w);
	loc_writer_unref(w);
	check(db, NULL);
	loc_database_unref(db);
}

void mc_run(void) {
	switch (mc_choose(7)) {
		case 0: small_universe(); break;
		case 1: filters(); break;
		case 2: values(); break;
		case 3: combs(); break;
		case 4: pairs(); break;
		case 5: large(); break;
		case 6: written(); break;
	}
}
