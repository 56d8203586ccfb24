/*
	C07: countries survive storage and are found by code
*/
#include "lk.h"

const char* mc_property = "C07";
void (*mc_worker_init)(void) = lk_init;

static struct country { char code[3]; const char* continent; const char* name; } cs[700];
static int ncs;

static int find(const char* code) {
	for (int i = 0; i < ncs; i++)
		if (!strcmp(cs[i].code, code))
			return i;
	return -1;
}

static void put(struct loc_writer* w, const char* code, const char* continent, const char* name, int twice) {
	struct loc_country* c = NULL;
	mc_ops(1);
	int r = loc_writer_add_country(w, &c, code);
	mc_assert(r == 0 && c, "%s could not be added (%d)", code, r);
	if (twice) {
		loc_country_set_name(c, "something else");
		loc_country_set_continent_code(c, "QQ");
		if (!continent)
			continent = "QQ";	// there is no way to remove a continent
		if (!name)
			loc_country_set_name(c, NULL);
	}
	if (continent) {
		r = loc_country_set_continent_code(c, continent);
		mc_assert(r == 0, "continent %s was refused (%d)", continent, r);
	}
	if (name) {
		r = loc_country_set_name(c, name);
		mc_assert(r == 0, "the name was refused (%d)", r);
	}
	mc_assert(!strcmp(loc_country_get_code(c), code), "the new country has the code %s", loc_country_get_code(c));
	loc_country_unref(c);
	if (find(code) >= 0)
		return;
	strcpy(cs[ncs].code, code);
	cs[ncs].continent = continent;
	cs[ncs++].name = name;
}

static void same(struct loc_country* c, const struct country* w) {
	mc_assert(!strcmp(loc_country_get_code(c), w->code), "got %s instead of %s", loc_country_get_code(c), w->code);
	const char* continent = loc_country_get_continent_code(c);
	mc_assert(w->continent ? continent && !strcmp(continent, w->continent) : !continent || !*continent,
		"%s is on %s instead of %s", w->code, continent ? continent : "no continent", w->continent ? w->continent : "no continent");
	const char* name = loc_country_get_name(c);
	mc_assert(w->name ? name && !strcmp(name, w->name) : !name || !*name,
		"%s is called '%s' instead of '%s'", w->code, name ? name : "(missing)", w->name ? w->name : "(missing)");
}

static void get(struct loc_database* db, const char* code, int valid) {
	struct loc_country* c = NULL;
	mc_ops(1);
	int r = loc_database_get_country(db, &c, code);
	int i = code ? find(code) : -1;
	if (!valid) {
		mc_assert(r != 0 || !c, "'%s' was found", code ? code : "NULL");
		return;
	}
	if (i < 0) {
		mc_assert(r == 0 && !c, "%s was not added, but searching returned %d and %p", code, r, (void*)c);
		return;
	}
	mc_assert(r == 0 && c, "%s was not found (%d)", code, r);
	same(c, &cs[i]);
	loc_country_unref(c);
}

static int cmp(const void* a, const void* b) {
	return strcmp(((const struct country*)a)->code, ((const struct country*)b)->code);
}

static void list(struct loc_database* db) {
	struct loc_database_enumerator* e = NULL;
	if (loc_database_enumerator_new(&e, db, LOC_DB_ENUMERATE_COUNTRIES, 0))
		mc_fail("could not create an enumerator");
	qsort(cs, ncs, sizeof(*cs), cmp);
	uint64_t h = MC_HASH_INIT;
	for (int k = 0; k < 2; k++) {
		int i = 0;
		while (1) {
			struct loc_country* c = NULL;
			mc_ops(1);
			int r = loc_database_enumerator_next_country(e, &c);
			mc_assert(r == 0, "enumerating failed (%d)", r);
			if (!c)
				break;
			mc_assert(i < ncs, "%s is too much", loc_country_get_code(c));
			h = mc_hash(h, cs[i].code, 2);
			h = mc_hash(h, cs[i].continent ? cs[i].continent : "--", 2);
			same(c, &cs[i++]);
			loc_country_unref(c);
		}
		mc_assert(i == ncs, "%s is missing", cs[i].code);
	}
	mc_state(h);
	loc_database_enumerator_unref(e);
}

static struct loc_writer* writer(void) {
	struct loc_writer* w = NULL;
	ncs = 0;
	if (loc_writer_new(lk_ctx, &w, NULL, NULL))
		mc_fail("loc_writer_new() failed");
	return w;
}
static struct loc_database* finish(struct loc_writer* w) {
	struct loc_database* db = lk_open_writer(w);
	loc_writer_unref(w);
	return db;
}

static const char* codes[] = { "DE", "AA", "ZZ", "DD", "EE", "DF" };
static const char* continents[] = { NULL, "EU", "AF" };
static const char* names[] = { NULL, "", "Wunderland", "Wunder" };

static void sequences(void) {
	int n = mc_choose(4);
	int o[4], twice = 0;
	for (int i = 0; i < n; i++)
		o[i] = mc_choose(n < 3 || mc_thorough ? 72 : 36);
	if (n && n < 3)
		twice = mc_choose(2);
	mc_shard();
	struct loc_writer* w = writer();
	for (int i = 0; i < n; i++) {
		int x = o[i];
		const char* code = codes[x % 6];
		x /= 6;
		const char* continent = continents[x % 3];
		const char* name = names[x / 3];
		mc_note("+%s(%s,%s)%s ", code, continent ? continent : "-", name ? name : "-", twice ? "!" : "");
		put(w, code, continent, name, twice);
	}
	struct loc_database* db = finish(w);
	for (int i = 0; i < 6; i++)
		get(db, codes[i], 1);
	get(db, "AB", 1);
	get(db, "ZY", 1);
	get(db, "MM", 1);
	list(db);
	loc_database_unref(db);
}

// All orders of five countries
static void orders(void) {
	int used = 0, o[6], n = mc_thorough ? 6 : 5;
	for (int i = 0; i < n; i++) {
		int k = mc_choose(n - i);
		for (int j = 0; j < n; j++) {
			if (used & (1 << j))
				continue;
			if (!k--) {
				o[i] = j;
				used |= 1 << j;
				break;
			}
		}
	}
	int opt = mc_choose(81);
	mc_shard();
	struct loc_writer* w = writer();
	for (int i = 0; i < n; i++, opt /= 3)
		put(w, codes[o[i]], continents[opt % 3], names[(opt + i) % 4], 0);
	struct loc_database* db = finish(w);
	for (int i = 0; i < 6; i++)
		get(db, codes[i], 1);
	list(db);
	loc_database_unref(db);
}

static const char* code(int i) {
	static char b[4][3];
	static int k;
	char* r = b[k++ % 4];
	r[0] = "ABCDEFGHIJKLMNOPQRSTUVWYZ"[i / 26];
	r[1] = 'A' + i % 26;
	r[2] = 0;
	return r;
}

// All numbers of countries, looking for every possible code
static void sizes(void) {
	int n = mc_choose(651);
	int order = mc_choose(3);
	if (!mc_thorough && n > 40 && n % 13)
		mc_prune();
	mc_shard();
	struct loc_writer* w = writer();
	for (int i = 0; i < n; i++) {
		int k = order == 0 ? i : order == 1 ? 649 - i : (i * 47 + 11) % 650;
		put(w, code(k), continents[k % 3], names[k % 4], 0);
	}
	struct loc_database* db = finish(w);
	for (int i = 0; i < 650; i++)
		get(db, code(i), 1);
	list(db);
	loc_database_unref(db);
}

// Everything that is not a country code is refused and never found
static void invalid(void) {
	int hi = mc_choose(256);
	mc_shard();
	struct loc_writer* w = writer();
	for (int i = 0; i < 650; i++)
		put(w, code(i), NULL, NULL, 0);
	static const char* bad[] = { "", "D", "DEU", "de", "D ", "A1", "XX", "XD", " DE", "DE " };
	for (unsigned i = 0; i < sizeof(bad) / sizeof(*bad); i++) {
		struct loc_country* c = NULL;
		mc_ops(1);
		int r = loc_writer_add_country(w, &c, bad[i]);
		mc_assert(r != 0, "'%s' was added", bad[i]);
	}
	struct loc_database* db = finish(w);
	for (int lo = 0; lo < 256; lo++) {
		char c[3] = { hi, lo, 0 };
		int valid = hi >= 'A' && hi <= 'Z' && hi != 'X' && lo >= 'A' && lo <= 'Z';
		get(db, c, valid);
	}
	get(db, "DEU", 0);
	get(db, "", 0);
	get(db, NULL, 0);
	loc_database_unref(db);
}

void mc_run(void) {
	switch (mc_choose(4)) {
		case 0: sequences(); break;
		case 1: orders(); break;
		case 2: sizes(); break;
		case 3: invalid(); break;
	}
}
