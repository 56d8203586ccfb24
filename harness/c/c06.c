/*
	C06: autonomous systems survive storage and are found by number and name
*/
#include "lk.h"

const char* mc_property = "C06";
void (*mc_worker_init)(void) = lk_init;

#define MAXA 210000
static struct { uint32_t number; char name[40]; } ases[MAXA];
static int nases;

static void put(struct loc_writer* w, uint32_t number, const char* name) {
	struct loc_as* a = NULL;
	mc_ops(1);
	int r = loc_writer_add_as(w, &a, number);
	mc_assert(r == 0 && a, "AS%u could not be added (%d)", number, r);
	mc_assert(loc_as_get_number(a) == number, "AS%u was created as AS%u", number, loc_as_get_number(a));
	if (name) {
		r = loc_as_set_name(a, name);
		mc_assert(r == 0, "the name could not be set (%d)", r);
	}
	loc_as_unref(a);
	for (int i = 0; i < nases; i++)
		if (ases[i].number == number)
			return;		// the first one counts
	ases[nases].number = number;
	snprintf(ases[nases++].name, 40, "%s", name ? name : "");
}

static int find(uint32_t number) {
	for (int i = 0; i < nases; i++)
		if (ases[i].number == number)
			return i;
	return -1;
}

static void same(struct loc_as* a, int i, const char* what) {
	const char* name = loc_as_get_name(a);
	mc_assert(loc_as_get_number(a) == ases[i].number, "%s: got AS%u instead of AS%u", what, loc_as_get_number(a), ases[i].number);
	mc_assert(!strcmp(name ? name : "", ases[i].name), "%s: AS%u is called '%s' instead of '%s'", what, ases[i].number,
		name ? name : "", ases[i].name);
}

static void get(struct loc_database* db, uint32_t number) {
	struct loc_as* a = NULL;
	mc_ops(1);
	int r = loc_database_get_as(db, &a, number);
	int i = find(number);
	if (i < 0) {
		mc_assert(r >= 0 && !a, "AS%u was not added, but the search returned %d and %p", number, r, (void*)a);
		return;
	}
	mc_assert(r == 0 && a, "AS%u was not found (%d)", number, r);
	same(a, i, "search");
	loc_as_unref(a);
}

static int cmp(const void* a, const void* b) {
	uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b;
	return x < y ? -1 : x > y;
}

static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int matches(const char* name, const char* s) {
	if (!s)
		return 1;
	size_t n = strlen(name), m = strlen(s);
	for (size_t i = 0; i + m <= n; i++) {
		size_t j = 0;
		while (j < m && lower((unsigned char)name[i + j]) == lower((unsigned char)s[j]))
			j++;
		if (j == m)
			return 1;
	}
	return 0;
}

static void list(struct loc_database* db, const char* s, int rounds) {
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, LOC_DB_ENUMERATE_ASES, 0))
		mc_fail("could not create an enumerator");
	if (s) {
		// (the last string counts)
		loc_database_enumerator_set_string(e, "ei");
		int r = loc_database_enumerator_set_string(e, s);
		mc_assert(r == 0, "the search string '%s' was refused (%d)", s, r);
	}
	qsort(ases, nases, sizeof(*ases), cmp);
	uint64_t h = MC_HASH_INIT;
	for (int k = 0; k < rounds; k++) {
		int i = 0;
		while (1) {
			struct loc_as* a = NULL;
			mc_ops(1);
			int r = loc_database_enumerator_next_as(e, &a);
			mc_assert(r == 0, "enumerating failed (%d)", r);
			while (i < nases && !matches(ases[i].name, s))
				i++;
			if (!a) {
				mc_assert(i == nases, "AS%u '%s' is missing (search '%s')", ases[i].number, ases[i].name, s ? s : "");
				break;
			}
			mc_assert(i < nases, "AS%u '%s' is too much (search '%s')", loc_as_get_number(a), loc_as_get_name(a), s ? s : "");
			same(a, i++, "enumeration");
			h = mc_hash(h, &ases[i - 1].number, 4);
			loc_as_unref(a);
		}
	}
	mc_state(h);
	loc_database_enumerator_unref(e);
}

static struct loc_writer* writer(void) {
	struct loc_writer* w = NULL;
	nases = 0;
	if (loc_writer_new(lk_ctx, &w, NULL, NULL))
		mc_fail("loc_writer_new() failed");
	return w;
}
static struct loc_database* finish(struct loc_writer* w) {
	struct loc_database* db = lk_open_writer(w);
	loc_writer_unref(w);
	mc_assert(loc_database_count_as(db) == (size_t)nases, "%zu ASes instead of %d", loc_database_count_as(db), nases);
	return db;
}

static const uint32_t alphabet[] = { 0, 1, 65535, 65536, 2147483647, 2147483648u, 4294967294u, 4294967295u };

// All sequences of additions
static void sequences(void) {
	int seq[8], n = mc_choose(mc_thorough ? 7 : 6);
	for (int i = 0; i < n; i++)
		seq[i] = mc_choose(i < 3 ? 8 : 4) * (i < 3 ? 1 : 2);
	mc_shard();
	static const char* names[] = { "Eins", "eins", NULL, "Zwei", "", "Ei\xc3\xa9ns 2", "Drei" };
	struct loc_writer* w = writer();
	for (int i = 0; i < n; i++) {
		put(w, alphabet[seq[i]], names[(i + seq[i]) % 7]);
		mc_note("+AS%u ", alphabet[seq[i]]);
	}
	struct loc_database* db = finish(w);
	for (int i = 0; i < 8; i++)
		for (int d = -1; d < 2; d++)
			get(db, alphabet[i] + d);
	list(db, NULL, 2);
	list(db, "ei", 1);
	loc_database_unref(db);
}

// All sizes: every stored number and its neighbours
static void sizes(void) {
	int n = mc_choose(mc_thorough ? 600 : 140);
	int order = mc_choose(3);
	int stride = mc_choose(3);
	mc_shard();
	static const uint32_t S[] = { 2, 3, 7158279 };
	struct loc_writer* w = writer();
	for (int i = 0; i < n; i++) {
		int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7919) % n;
		if (order == 2 && n % 7919 == 0)
			k = i;
		char name[40];
		snprintf(name, 40, "AS-%d", k);
		put(w, (k + 1) * S[stride], name);
	}
	mc_note("%d ASes", n);
	struct loc_database* db = finish(w);
	for (int i = 0; i <= n + 1; i++)
		for (int d = -1; d < 2; d++)
			get(db, i * S[stride] + d);
	list(db, NULL, 1);
	loc_database_unref(db);
}

static void large(void) {
	static const int N[] = { 1023, 1024, 1025, 2047, 3071, 3072, 3073, 4097, 65535, 65536, 65537, 70001, 9215, 9217, 131073 };
	int n = N[mc_choose(mc_thorough ? 15 : 12)];
	int order = n > 60000 && (n != 65537 || !mc_thorough) ? 2 : mc_choose(3);
	mc_shard();
	struct loc_writer* w = NULL;
	loc_writer_new(lk_ctx, &w, NULL, NULL);
	nases = 0;
	for (int i = 0; i < n; i++) {
		uint32_t k = order == 0 ? i : order == 1 ? n - 1 - i : (uint32_t)((uint64_t)i * 7919 % n);
		struct loc_as* a = NULL;
		uint32_t number = k * (4294967295u / n) + 1;
		if (loc_writer_add_as(w, &a, number))
			mc_fail("AS%u could not be added", number);
		char name[40];
		snprintf(name, 40, "N%u", k % 50);
		loc_as_set_name(a, name);
		loc_as_unref(a);
		ases[nases].number = number;
		strcpy(ases[nases++].name, name);
	}
	struct loc_database* db = finish(w);
	qsort(ases, nases, sizeof(*ases), cmp);
	mc_note("%d ASes", n);
	list(db, NULL, 1);
	list(db, "n1", 1);
	for (int i = 0; i < n; i += 1 + n / 500)
		for (int d = -1; d < 2; d++)
			get(db, ases[i].number + d);
	get(db, ases[n - 1].number);
	loc_database_unref(db);
}

// Every bit of the number
static void bits(void) {
	int k = mc_choose(32);
	mc_shard();
	struct loc_writer* w = writer();
	for (int b = 0; b < 32; b++)
		for (int d = -1; d < 2; d++) {
			char name[40];
			snprintf(name, 40, "%d %d", b, d);
			put(w, ((1u << ((b + k) % 32)) + d) ^ (k ? 0 : 0), name);
		}
	struct loc_database* db = finish(w);
	for (int b = 0; b < 32; b++)
		for (int d = -3; d < 4; d++)
			get(db, (1u << b) + d);
	list(db, NULL, 1);
	loc_database_unref(db);
}

// All search strings against all names over a small alphabet
static void search(void) {
	static const char A[] = "aAb ";
	char s[8] = "";
	int n = mc_choose(mc_thorough ? 5 : 4);
	for (int i = 0; i < n; i++)
		s[i] = "aAbB \xc3"[mc_choose(6)];
	s[n] = 0;
	mc_shard();
	struct loc_writer* w = writer();
	uint32_t number = 1;
	put(w, number++, "");
	for (int len = 1; len <= 3; len++) {
		int total = len == 1 ? 4 : len == 2 ? 16 : 64;
		for (int x = 0; x < total; x++) {
			char name[8] = "";
			int y = x;
			for (int i = 0; i < len; i++, y /= 4)
				name[i] = A[y % 4];
			put(w, number++, name);
		}
	}
	put(w, number++, "\xc3\xa4");
	put(w, number++, "xxab");
	put(w, number++, "aaab aBaB");
	put(w, number++, "ab");
	put(w, number++, "a_b%a.*b");
	mc_note("search for '%s'", s);
	struct loc_database* db = finish(w);
	list(db, s, 1);
	loc_database_unref(db);
}

// Every byte as a search string, alone and inside, against names of every byte
static void letters(void) {
	int c = 1 + mc_choose(255);
	int where = mc_choose(4);
	mc_shard();
	struct loc_writer* w = writer();
	for (int i = 1; i < 256; i++) {
		char name[8];
		snprintf(name, sizeof(name), "%c", i);
		put(w, i, name);
		snprintf(name, sizeof(name), "q%cq", i);
		put(w, 1000 + i, name);
		snprintf(name, sizeof(name), "qq%c", i);
		put(w, 100000u * i, name);
	}
	char s[8];
	static const char* F[] = { "%c", "Q%c", "%cQ", "qQ%c" };
	snprintf(s, sizeof(s), F[where], c);
	mc_note("search for '%s' (%02x)", s, c);
	struct loc_database* db = finish(w);
	list(db, s, 1);
	loc_database_unref(db);
}

// Long names and long search strings: what matters is at their very end
static void longs(void) {
	static const int L[] = { 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 70000 };
	int n = L[mc_choose(sizeof(L) / sizeof(*L))];
	int how = mc_choose(4);
	mc_shard();
	static char name[3][80000], s[80000];
	for (int k = 0; k < 3; k++) {
		memset(name[k], 'x', n);
		strcpy(name[k] + n, k == 0 ? "NEEDLE" : k == 1 ? "needlf" : "Needle1");
	}
	struct loc_writer* w = writer();
	for (int k = 0; k < 3; k++) {
		struct loc_as* a = NULL;
		mc_ops(1);
		mc_assert(!loc_writer_add_as(w, &a, k + 1), "AS%d could not be added", k + 1);
		mc_assert(!loc_as_set_name(a, name[k]), "the name could not be set");
		loc_as_unref(a);
	}
	nases = 3;
	struct loc_database* db = finish(w);
	nases = 0;
	// The end, all of it, all but the first, and something longer
	strcpy(s, how == 0 ? "needle" : name[0] + (how == 2));
	if (how == 3)
		strcat(s, "1");
	mc_note("search for %zu bytes in names of %d bytes", strlen(s), n + 6);
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, LOC_DB_ENUMERATE_ASES, 0))
		mc_fail("could not create an enumerator");
	mc_assert(!loc_database_enumerator_set_string(e, s), "the search string was refused");
	for (int k = how == 3 ? 2 : 0; k <= 3; k += k == 0 ? 2 : 1) {
		struct loc_as* a = NULL;
		int r = loc_database_enumerator_next_as(e, &a);
		mc_assert(!r && !!a == (k < 3), "AS%d was %s (%d)", k + 1, a ? "found" : "not found", r);
		if (a) {
			mc_assert(loc_as_get_number(a) == (uint32_t)k + 1, "AS%u was found instead of AS%d", loc_as_get_number(a), k + 1);
			mc_assert(!strcmp(loc_as_get_name(a), name[k]), "the name of AS%d is wrong", k + 1);
			loc_as_unref(a);
		}
	}
	loc_database_enumerator_unref(e);
	loc_database_unref(db);
}

void mc_run(void) {
	switch (mc_choose(7)) {
		case 6: longs(); break;
		case 0: sequences(); break;
		case 1: sizes(); break;
		case 2: large(); break;
		case 3: bits(); break;
		case 4: search(); break;
		case 5: letters(); break;
	}
}
