/*
	C17: network, AS and country lists behave like their abstract collections
*/
#include "lk.h"

const char* mc_property = "C17";
void (*mc_worker_init)(void) = lk_init;

// (not exported by the library)
int loc_network_list_remove(struct loc_network_list* list, struct loc_network* network) __attribute__((weak));

/*
	Networks: ordered sets
*/
#define NN 6
static net_t nets[NN];
static struct loc_network* objs[NN];
static struct loc_network* copies[NN];

static struct loc_network* create(const net_t* n) {
	struct loc_network* r = NULL;
	int v4 = m_net_v4(n);
	struct in6_addr in = m_in6(m_first(n));
	if (loc_network_new(lk_ctx, &r, &in, v4 ? n->plen - 96 : n->plen))
		mc_fail("%s could not be created", m_net_str(n));
	return r;
}

static struct loc_network_list* new_list(void) {
	struct loc_network_list* l = NULL;
	if (loc_network_list_new(lk_ctx, &l) || !l)
		mc_fail("could not create a list");
	return l;
}

// `set` is a bitmap of indices into nets, which is sorted
static void same_set(struct loc_network_list* l, unsigned set, const char* after) {
	int size = __builtin_popcount(set), k = 0;
	mc_assert((int)loc_network_list_size(l) == size, "after %s: the size is %zu instead of %d", after, loc_network_list_size(l), size);
	mc_assert(!!loc_network_list_empty(l) == !size, "after %s: empty() is wrong", after);
	for (int i = 0; i < NN; i++) {
		int in = (set >> i) & 1;
		int r = loc_network_list_contains(l, copies[i]);
		mc_assert(!!r == in, "after %s: %s is%s on the list", after, m_net_str(&nets[i]), r ? "" : " not");
		if (!in)
			continue;
		struct loc_network* n = loc_network_list_get(l, k);
		mc_assert(n, "after %s: element %d is missing", after, k);
		net_t g;
		lk_read(n, &g);
		mc_assert(m_same_net(&g, &nets[i]), "after %s: element %d is %s instead of %s", after, k, m_net_str(&g), m_net_str(&nets[i]));
		loc_network_unref(n);
		k++;
	}
	for (int i = 0; i < 3; i++) {
		size_t index = i == 0 ? size : i == 1 ? size + 1000 : (size_t)-1;
		struct loc_network* n = loc_network_list_get(l, index);
		mc_assert(!n, "after %s: element %zu of %d is %s", after, index, size, loc_network_str(n));
	}
}

static void popped(struct loc_network* n, unsigned* set, int first, const char* what) {
	if (!*set) {
		mc_assert(!n, "%s: %s was taken from an empty list", what, loc_network_str(n));
		return;
	}
	int i = first ? __builtin_ctz(*set) : 31 - __builtin_clz(*set);
	mc_assert(n, "%s returned nothing", what);
	net_t g;
	lk_read(n, &g);
	mc_assert(m_same_net(&g, &nets[i]), "%s returned %s instead of %s", what, m_net_str(&g), m_net_str(&nets[i]));
	*set &= ~(1u << i);
	loc_network_unref(n);
}

static void mode_networks(void) {
	static const char* texts[2][NN] = {
		{ "10.0.0.0/8", "10.0.0.0/9", "10.64.0.0/16", "10.128.0.0/9", "2001:db8::/32", "2001:db8::/48" },
		{ "::/0", "::/128", "0.0.0.0/0", "0.0.0.0/32", "255.255.255.255/32", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128" },
	};
	int variant = mc_choose(2);
	int n = mc_thorough ? 6 : 5, op[6];
	for (int i = 0; i < n; i++)
		op[i] = mc_choose(NN + 7);
	mc_shard();
	for (int i = 0; i < NN; i++) {
		char b[80];
		strcpy(b, texts[variant][i]);
		char* s = strchr(b, '/');
		*s++ = 0;
		memset(&nets[i], 0, sizeof(nets[i]));
		nets[i].addr = m_parse(b);
		nets[i].plen = atoi(s) + (strchr(b, '.') ? 96 : 0);
		objs[i] = create(&nets[i]);
		copies[i] = create(&nets[i]);
		if (i && m_cmp(&nets[i - 1], &nets[i]) >= 0)
			mc_abort("networks are not sorted");
	}
	struct loc_network_list* l = new_list();
	// Others to merge
	struct loc_network_list* other = new_list();
	loc_network_list_push(other, copies[4]);
	loc_network_list_push(other, copies[1]);
	unsigned set = 0;
	same_set(l, set, "creation");
	for (int i = 0; i < n; i++) {
		int o = op[i], r;
		char what[100];
		mc_ops(1);
		if (o < NN) {
			sprintf(what, "push(%s)", m_net_str(&nets[o]));
			r = loc_network_list_push(l, i % 2 ? copies[o] : objs[o]);
			mc_assert(r == 0, "%s failed", what);
			set |= 1u << o;
		} else if (o == NN) {
			strcpy(what, "pop()");
			popped(loc_network_list_pop(l), &set, 0, what);
		} else if (o == NN + 1) {
			strcpy(what, "pop_first()");
			popped(loc_network_list_pop_first(l), &set, 1, what);
		} else if (o == NN + 2) {
			strcpy(what, "clear()");
			loc_network_list_clear(l);
			set = 0;
		} else if (o == NN + 3) {
			strcpy(what, "merge()");
			r = loc_network_list_merge(l, other);
			mc_assert(r == 0, "%s failed", what);
			set |= 1u << 4 | 1u << 1;
			mc_assert(loc_network_list_size(other) == 2, "merging changed the other list");
		} else if (o == NN + 4) {
			strcpy(what, "merging with itself");
			r = loc_network_list_merge(l, l);
			mc_assert(r == 0, "%s failed", what);
		} else {
			int k = o == NN + 5 ? 1 : 3;
			sprintf(what, "remove(%s)", m_net_str(&nets[k]));
			if (loc_network_list_remove) {
				r = loc_network_list_remove(l, copies[k]);
				mc_assert(r == 0, "%s failed", what);
				set &= ~(1u << k);
			}
		}
		mc_note("%s; ", what);
		same_set(l, set, what);
		mc_state(mc_hash(mc_hash(MC_HASH_INIT, &set, sizeof(set)), &variant, sizeof(variant)));
	}
	loc_network_list_unref(l);
	loc_network_list_unref(other);
	for (int i = 0; i < NN; i++) {
		mc_assert(!strncmp(loc_network_str(objs[i]), texts[variant][i], 4), "a network was changed");
		loc_network_unref(objs[i]);
		loc_network_unref(copies[i]);
	}
}

/*
	Large lists, around the sizes at which they grow
*/
static const int sizes[] = { 1, 2, 3, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3071, 3072, 3073, 3074, 4097, 9215, 9216, 9217 };
static int order(int o, int i, int n) {
	if (o == 0)
		return i;
	if (o == 1)
		return n - 1 - i;
	if (o == 2)			// from both ends
		return i % 2 ? n - 1 - i / 2 : i / 2;
	// a permutation, because the step is coprime to n
	int step = n / 3 + 1;
	while (1) {
		int a = step, b = n;
		while (b) { int t = a % b; a = b; b = t; }
		if (a == 1)
			break;
		step++;
	}
	return ((long)i * step + 7) % n;
}

static void numbered(net_t* n, int i) {
	memset(n, 0, sizeof(*n));
	n->addr = V4BASE | (0x0a000000u + i * 256u);
	n->plen = 96 + 24;
	if (i % 2) {
		n->addr -= 256;
		n->plen++;
	}
}

static void mode_large_networks(void) {
	int size = sizes[mc_choose(mc_thorough ? 18 : 14)], o = mc_choose(4), again = mc_choose(2), end = mc_choose(3);
	mc_shard();
	struct loc_network_list* l = new_list();
	net_t m, g;
	struct loc_network* n;
	if (again) {
		// Has been used before
		for (int i = 0; i < 1030; i++) {
			numbered(&m, i);
			n = create(&m);
			loc_network_list_push(l, n);
			loc_network_unref(n);
		}
		loc_network_list_clear(l);
		mc_assert(loc_network_list_size(l) == 0, "clear() did not clear the list");
	}
	for (int i = 0; i < size; i++) {
		numbered(&m, order(o, i, size));
		n = create(&m);
		mc_ops(1);
		int r = loc_network_list_push(l, n);
		mc_assert(r == 0, "push() failed (%d)", r);
		mc_assert((int)loc_network_list_size(l) == i + 1, "the list has %zu elements instead of %d", loc_network_list_size(l), i + 1);
		loc_network_unref(n);
	}
	for (int i = 0; i < size; i++) {
		n = loc_network_list_get(l, i);
		mc_assert(n, "element %d of %d is missing", i, size);
		lk_read(n, &g);
		numbered(&m, i);
		mc_assert(m_same_net(&g, &m), "element %d of %d is %s instead of %s", i, size, m_net_str(&g), m_net_str(&m));
		mc_assert(loc_network_list_contains(l, n), "element %d of %d is not found", i, size);
		loc_network_unref(n);
	}
	numbered(&m, size);
	n = create(&m);
	mc_assert(!loc_network_list_contains(l, n), "%s was not added", m_net_str(&m));
	loc_network_unref(n);
	mc_assert(!loc_network_list_get(l, size), "there is an element behind the end");
	// Take it apart again
	for (int i = 0; end && i < size; i++) {
		mc_ops(1);
		n = end == 1 ? loc_network_list_pop(l) : loc_network_list_pop_first(l);
		mc_assert(n, "nothing to pop with %d left", size - i);
		lk_read(n, &g);
		numbered(&m, end == 1 ? size - 1 - i : i);
		mc_assert(m_same_net(&g, &m), "popped %s instead of %s", m_net_str(&g), m_net_str(&m));
		loc_network_unref(n);
		mc_assert((int)loc_network_list_size(l) == size - 1 - i, "wrong size");
	}
	mc_state(mc_hash(MC_HASH_INIT, &size, sizeof(size)));
	loc_network_list_unref(l);
}

// Insertions and removals anywhere in lists of any size
static void mode_anywhere(void) {
	static const int S[] = { 2, 3, 127, 128, 129, 255, 256, 257, 300, 1023, 1025, 65535, 65536, 65537, 65700 };
	int size = S[mc_choose(15)];
	int what = mc_choose(4);
	int at = mc_choose(9);
	int pos = at == 0 ? 0 : at == 1 ? 1 : at == 2 ? size / 2 : at == 3 ? size - 2 : at == 4 ? size - 1 : at == 5 ? size / 4 :
		at == 6 ? 255 : at == 7 ? 256 : size - 257;
	if (pos < 0 || pos >= size || (what == 1 && !loc_network_list_remove) || (size > 60000 && !mc_thorough && at > 4))
		mc_prune();
	mc_shard();
	struct loc_network_list* l = new_list();
	net_t m, g;
	struct loc_network* n;
	// Everything but the one in question if it is to be inserted
	for (int i = 0; i < size; i++) {
		if (what == 0 && i == pos)
			continue;
		numbered(&m, i * 2);
		n = create(&m);
		mc_assert(loc_network_list_push(l, n) == 0, "push() failed");
		loc_network_unref(n);
	}
	mc_note("%d elements, operation %d at %d", size, what, pos);
	numbered(&m, pos * 2);
	n = create(&m);
	mc_ops(1);
	int removed = -1;
	switch (what) {
		case 0: mc_assert(loc_network_list_push(l, n) == 0, "push() failed"); break;
		case 1: mc_assert(loc_network_list_remove(l, n) == 0, "remove() failed"); removed = pos; break;
		case 2: {
			struct loc_network* x = loc_network_list_pop_first(l);
			mc_assert(x, "nothing popped");
			loc_network_unref(x);
			removed = 0;
			break;
		}
		case 3: mc_assert(loc_network_list_push(l, n) == 0, "push() failed"); break;
	}
	mc_assert(!!loc_network_list_contains(l, n) == (removed != pos), "contains(%s) is wrong", m_net_str(&m));
	loc_network_unref(n);
	int count = size - (removed >= 0);
	mc_assert((int)loc_network_list_size(l) == count, "the list has %zu elements instead of %d", loc_network_list_size(l), count);
	for (int i = 0, k = 0; i < size; i++) {
		if (i == removed)
			continue;
		n = loc_network_list_get(l, k);
		mc_assert(n, "element %d is missing", k);
		lk_read(n, &g);
		numbered(&m, i * 2);
		mc_assert(m_same_net(&g, &m), "element %d is %s instead of %s", k, m_net_str(&g), m_net_str(&m));
		loc_network_unref(n);
		k++;
	}
	mc_state(mc_hash(mc_hash(MC_HASH_INIT, &size, sizeof(size)), &pos, sizeof(pos)) + what);
	loc_network_list_unref(l);
}

// Merging two large lists
static void mode_merge(void) {
	static const int parts[] = { 0, 1, 511, 512, 1023, 1024, 1025, 2048, 2049 };
	int a = parts[mc_choose(9)], b = parts[mc_choose(9)], shift = mc_choose(3);
	mc_shard();
	struct loc_network_list *l = new_list(), *l2 = new_list();
	net_t m, g;
	int off = shift == 0 ? a : shift == 1 ? a / 2 : 0;
	for (int i = 0; i < a; i++) {
		numbered(&m, i * 2);
		struct loc_network* n = create(&m);
		loc_network_list_push(l, n);
		loc_network_unref(n);
	}
	for (int i = 0; i < b; i++) {
		numbered(&m, (i + off) * 2);
		struct loc_network* n = create(&m);
		loc_network_list_push(l2, n);
		loc_network_unref(n);
	}
	mc_ops(1);
	int r = loc_network_list_merge(l, l2);
	mc_assert(r == 0, "merge() failed");
	int want = off + b > a ? off + b : a;
	if (!b)
		want = a;
	mc_assert((int)loc_network_list_size(l) == want, "the merged list has %zu elements instead of %d", loc_network_list_size(l), want);
	mc_assert((int)loc_network_list_size(l2) == b, "the other list was changed");
	for (int i = 0; i < want; i++) {
		struct loc_network* n = loc_network_list_get(l, i);
		lk_read(n, &g);
		numbered(&m, i * 2);
		mc_assert(m_same_net(&g, &m), "element %d is %s instead of %s", i, m_net_str(&g), m_net_str(&m));
		loc_network_unref(n);
	}
	loc_network_list_unref(l2);
	loc_network_list_unref(l);
}

/*
	ASes and countries: sequences without duplicates
*/
#define NA 5
static const uint32_t numbers[NA] = { 70000, 5, 4294967295u, 0, 2147483648u };
static const char* codes[NA] = { "DE", "AT", "US", "DK", "ZZ" };

struct seq { int n, i[64]; };
static void seq_add(struct seq* s, int x) {
	for (int i = 0; i < s->n; i++)
		if (s->i[i] == x)
			return;
	s->i[s->n++] = x;
}
static int cmp_as(const void* a, const void* b) {
	uint32_t x = numbers[*(const int*)a], y = numbers[*(const int*)b];
	return x < y ? -1 : x > y;
}
static int cmp_country(const void* a, const void* b) { return strcmp(codes[*(const int*)a], codes[*(const int*)b]); }

static void mode_as(void) {
	int n = mc_thorough ? 7 : 6, op[8];
	for (int i = 0; i < n; i++)
		op[i] = mc_choose(NA + 2);
	mc_shard();
	struct loc_as_list* l = NULL;
	if (loc_as_list_new(lk_ctx, &l))
		mc_fail("no list");
	struct seq s = { };
	for (int k = 0; k < n; k++) {
		mc_ops(1);
		if (op[k] < NA) {
			struct loc_as* a = NULL;
			if (loc_as_new(lk_ctx, &a, numbers[op[k]]))
				mc_fail("no AS");
			int r = loc_as_list_append(l, a);
			mc_assert(r == 0, "append() failed");
			seq_add(&s, op[k]);
			loc_as_unref(a);
			mc_note("append(AS%u); ", numbers[op[k]]);
		} else if (op[k] == NA) {
			loc_as_list_sort(l);
			qsort(s.i, s.n, sizeof(int), cmp_as);
			mc_note("sort(); ");
		} else {
			loc_as_list_clear(l);
			s.n = 0;
			mc_note("clear(); ");
		}
		mc_assert((int)loc_as_list_size(l) == s.n, "the size is %zu instead of %d", loc_as_list_size(l), s.n);
		mc_assert(!!loc_as_list_empty(l) == !s.n, "empty() is wrong");
		for (int i = 0; i < s.n; i++) {
			struct loc_as* a = loc_as_list_get(l, i);
			mc_assert(a && loc_as_get_number(a) == numbers[s.i[i]], "element %d is not AS%u", i, numbers[s.i[i]]);
			loc_as_unref(a);
		}
		mc_assert(!loc_as_list_get(l, s.n) && !loc_as_list_get(l, (size_t)-1), "there is an element behind the end");
		for (int x = 0; x < NA; x++) {
			int in = 0;
			for (int i = 0; i < s.n; i++)
				in |= s.i[i] == x;
			struct loc_as* a = NULL;
			if (loc_as_new(lk_ctx, &a, numbers[x]))
				mc_fail("no AS");
			mc_assert(!!loc_as_list_contains(l, a) == in, "contains(AS%u) is wrong", numbers[x]);
			mc_assert(!!loc_as_list_contains_number(l, numbers[x]) == in, "contains_number(%u) is wrong", numbers[x]);
			loc_as_unref(a);
		}
		mc_assert(!loc_as_list_contains_number(l, 6), "contains_number(6) is wrong");
		mc_state(mc_hash(MC_HASH_INIT, s.i, s.n * sizeof(int)));
	}
	loc_as_list_unref(l);
}

static void mode_countries(void) {
	int n = mc_thorough ? 7 : 6, op[8];
	for (int i = 0; i < n; i++)
		op[i] = mc_choose(NA + 2);
	mc_shard();
	struct loc_country_list* l = NULL;
	if (loc_country_list_new(lk_ctx, &l))
		mc_fail("no list");
	struct seq s = { };
	for (int k = 0; k < n; k++) {
		mc_ops(1);
		if (op[k] < NA) {
			struct loc_country* a = NULL;
			if (loc_country_new(lk_ctx, &a, codes[op[k]]))
				mc_fail("no country");
			int r = loc_country_list_append(l, a);
			mc_assert(r == 0, "append() failed");
			seq_add(&s, op[k]);
			loc_country_unref(a);
			mc_note("append(%s); ", codes[op[k]]);
		} else if (op[k] == NA) {
			loc_country_list_sort(l);
			qsort(s.i, s.n, sizeof(int), cmp_country);
			mc_note("sort(); ");
		} else {
			loc_country_list_clear(l);
			s.n = 0;
			mc_note("clear(); ");
		}
		mc_assert((int)loc_country_list_size(l) == s.n, "the size is %zu instead of %d", loc_country_list_size(l), s.n);
		mc_assert(!!loc_country_list_empty(l) == !s.n, "empty() is wrong");
		for (int i = 0; i < s.n; i++) {
			struct loc_country* a = loc_country_list_get(l, i);
			mc_assert(a && !strcmp(loc_country_get_code(a), codes[s.i[i]]), "element %d is not %s", i, codes[s.i[i]]);
			loc_country_unref(a);
		}
		mc_assert(!loc_country_list_get(l, s.n) && !loc_country_list_get(l, (size_t)-1), "there is an element behind the end");
		for (int x = 0; x < NA; x++) {
			int in = 0;
			for (int i = 0; i < s.n; i++)
				in |= s.i[i] == x;
			struct loc_country* a = NULL;
			if (loc_country_new(lk_ctx, &a, codes[x]))
				mc_fail("no country");
			mc_assert(!!loc_country_list_contains(l, a) == in, "contains(%s) is wrong", codes[x]);
			mc_assert(!!loc_country_list_contains_code(l, codes[x]) == in, "contains_code(%s) is wrong", codes[x]);
			loc_country_unref(a);
		}
		static const char* absent[] = { "XX", "D", "", "DEE", "A1", "EE", "de" };
		for (int i = 0; i < 7; i++)
			mc_assert(loc_country_list_contains_code(l, absent[i]) <= 0, "contains_code(%s) is wrong", absent[i]);
		mc_state(mc_hash(MC_HASH_INIT, s.i, s.n * sizeof(int)) ^ 1);
	}
	loc_country_list_unref(l);
}

static void mode_large_as(void) {
	int k = mc_choose(1 + (mc_thorough ? 18 : 14)), o = mc_choose(4), sort = mc_choose(2);
	int size = k ? sizes[k - 1] : 65540;
	if (!k && (o > 0 || sort == 0))		// appending is slow
		mc_prune();
	mc_shard();
	struct loc_as_list* l = NULL;
	if (loc_as_list_new(lk_ctx, &l))
		mc_fail("no list");
	for (int i = 0; i < size; i++) {
		struct loc_as* a = NULL;
		if (loc_as_new(lk_ctx, &a, order(o, i, size) * (size > 10000 ? 32000u : 400000u)))
			mc_fail("no AS");
		mc_ops(1);
		int r = loc_as_list_append(l, a);
		mc_assert(r == 0, "append() failed");
		loc_as_unref(a);
	}
	if (sort)
		loc_as_list_sort(l);
	mc_assert((int)loc_as_list_size(l) == size, "the list has %zu elements instead of %d", loc_as_list_size(l), size);
	for (int i = 0; i < size; i++) {
		struct loc_as* a = loc_as_list_get(l, i);
		uint32_t want = (sort ? i : order(o, i, size)) * (size > 10000 ? 32000u : 400000u);
		mc_assert(a && loc_as_get_number(a) == want, "element %d of %d is AS%u instead of AS%u", i, size, loc_as_get_number(a), want);
		loc_as_unref(a);
	}
	mc_assert(!loc_as_list_get(l, size), "there is an element behind the end");
	loc_as_list_unref(l);
}

// All 625 country codes and more
static void mode_large_countries(void) {
	int o = mc_choose(4), sort = mc_choose(2), times = 1 + mc_choose(2);
	mc_shard();
	struct loc_country_list* l = NULL;
	if (loc_country_list_new(lk_ctx, &l))
		mc_fail("no list");
	for (int t = 0; t < times; t++)
		for (int i = 0; i < 650; i++) {
			int k = order(o, i, 650);
			char code[3] = { "ABCDEFGHIJKLMNOPQRSTUVWYZ"[k / 26], 'A' + k % 26, 0 };
			struct loc_country* a = NULL;
			if (loc_country_new(lk_ctx, &a, code))
				mc_fail("no country");
			mc_ops(1);
			int r = loc_country_list_append(l, a);
			mc_assert(r == 0, "append() failed");
			loc_country_unref(a);
		}
	if (sort)
		loc_country_list_sort(l);
	mc_assert(loc_country_list_size(l) == 650, "the list has %zu elements instead of 650", loc_country_list_size(l));
	for (int i = 0; i < 650; i++) {
		int k = sort ? i : order(o, i, 650);
		char code[3] = { "ABCDEFGHIJKLMNOPQRSTUVWYZ"[k / 26], 'A' + k % 26, 0 };
		struct loc_country* a = loc_country_list_get(l, i);
		mc_assert(a && !strcmp(loc_country_get_code(a), code), "element %d is %s instead of %s", i, loc_country_get_code(a), code);
		mc_assert(loc_country_list_contains_code(l, code) > 0, "%s is missing", code);
		loc_country_unref(a);
	}
	loc_country_list_unref(l);
}

void mc_run(void) {
	switch (mc_choose(8)) {
		case 0: mode_networks(); break;
		case 1: mode_large_networks(); break;
		case 2: mode_merge(); break;
		case 3: mode_as(); break;
		case 4: mode_countries(); break;
		case 5: mode_large_as(); break;
		case 6: mode_large_countries(); break;
		case 7: mode_anywhere(); break;
	}
}
