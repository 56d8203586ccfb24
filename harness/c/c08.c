/*
	C08: strings and metadata are stored and returned byte for byte
*/
#include "lk.h"
#include <time.h>

const char* mc_property = "C08";
void (*mc_worker_init)(void) = lk_init;

// The clock as seen by the library
static time_t fake_time;
static int faking;
time_t __real_time(time_t* t);
time_t __wrap_time(time_t* t) {
	time_t r = faking ? fake_time : __real_time(NULL);
	if (t)
		*t = r;
	return r;
}

static const char* want[3];		// vendor, description, license
static struct loc_writer* w;

static void begin(void) {
	memset(want, 0, sizeof(want));
	w = NULL;
	if (loc_writer_new(lk_ctx, &w, NULL, NULL))
		mc_fail("loc_writer_new() failed");
}

static const char* fields[] = { "vendor", "description", "license" };

static void check_field(const char* got, int f, const char* where) {
	const char* s = want[f];
	if (!s)
		mc_assert(!got || !*got, "%s of the %s is '%.40s' but was never set", fields[f], where, got);
	else {
		mc_assert(got, "%s of the %s is missing", fields[f], where);
		mc_assert(!strcmp(got, s), "%s of the %s is '%.40s' (%zu bytes) instead of '%.40s' (%zu bytes)",
			fields[f], where, got, strlen(got), s, strlen(s));
	}
}

static void set(int f, const char* s) {
	mc_ops(1);
	int r = f == 0 ? loc_writer_set_vendor(w, s) : f == 1 ? loc_writer_set_description(w, s) : loc_writer_set_license(w, s);
	if (!s) {
		mc_assert(r != 0, "a missing string was accepted as %s", fields[f]);
		return;
	}
	mc_assert(r == 0, "%s was refused (%d)", fields[f], r);
	want[f] = s;
}

static void check_writer(void) {
	check_field(loc_writer_get_vendor(w), 0, "writer");
	check_field(loc_writer_get_description(w), 1, "writer");
	check_field(loc_writer_get_license(w), 2, "writer");
}

#define MAXS 3000
static struct { uint32_t number; const char* name; } as[MAXS];
static int nas;
static struct { char code[3]; const char* name; } cc[MAXS];
static int ncc;

static void put_as(uint32_t number, const char* name) {
	struct loc_as* a = NULL;
	mc_ops(1);
	if (loc_writer_add_as(w, &a, number))
		mc_fail("could not add AS%u", number);
	mc_assert(!loc_as_set_name(a, name), "the name of AS%u was refused", number);
	loc_as_unref(a);
	as[nas].number = number;
	as[nas++].name = name;
}
static void put_cc(const char* code, const char* name) {
	struct loc_country* c = NULL;
	mc_ops(1);
	if (loc_writer_add_country(w, &c, code))
		mc_fail("could not add %s", code);
	mc_assert(!loc_country_set_name(c, name), "the name of %s was refused", code);
	loc_country_unref(c);
	strcpy(cc[ncc].code, code);
	cc[ncc++].name = name;
}

static void check_db(struct loc_database* db) {
	check_field(loc_database_get_vendor(db), 0, "database");
	check_field(loc_database_get_description(db), 1, "database");
	check_field(loc_database_get_license(db), 2, "database");
	uint64_t h = MC_HASH_INIT;
	for (int i = 0; i < 3; i++)
		h = mc_hash(h, want[i] ? want[i] : "-", want[i] ? strlen(want[i]) + 1 : 1);
	mc_state(h);
	for (int i = 0; i < nas; i++) {
		struct loc_as* a = NULL;
		mc_ops(1);
		loc_database_get_as(db, &a, as[i].number);
		mc_assert(a, "AS%u is missing", as[i].number);
		const char* n = loc_as_get_name(a);
		mc_assert(n && !strcmp(n, as[i].name), "AS%u is called '%.40s' instead of '%.40s'", as[i].number, n ? n : "(missing)", as[i].name);
		loc_as_unref(a);
	}
	for (int i = 0; i < ncc; i++) {
		struct loc_country* c = NULL;
		mc_ops(1);
		loc_database_get_country(db, &c, cc[i].code);
		mc_assert(c, "%s is missing", cc[i].code);
		const char* n = loc_country_get_name(c);
		mc_assert(n && !strcmp(n, cc[i].name), "%s is called '%.40s' instead of '%.40s'", cc[i].code, n ? n : "(missing)", cc[i].name);
		loc_country_unref(c);
	}
}

static void finish(void) {
	check_writer();
	time_t before = __real_time(NULL);
	struct loc_database* db = lk_open_writer(w);
	time_t after = __real_time(NULL);
	time_t t = loc_database_created_at(db);
	mc_assert((faking && t == fake_time) || (t >= before && t <= after), "created at %lld but written at %lld",
		(long long)t, (long long)(faking ? fake_time : before));
	check_writer();
	loc_writer_unref(w);
	check_db(db);
	loc_database_unref(db);
}

static void start(void) { nas = ncc = 0; faking = 0; begin(); }

static const char* strings[] = { "a", "ab", "b", "", "abc", "bc", "\xc3\xa4 \n\t%s", "A" };

// All sequences of settings of the three fields
static void sequences(void) {
	int n = mc_choose(mc_thorough ? 6 : 5), op[6];
	for (int i = 0; i < n; i++)
		op[i] = mc_choose(i < 3 ? 27 : 9);
	mc_shard();
	start();
	for (int i = 0; i < n; i++) {
		int f = op[i] % 3, s = op[i] / 3;
		mc_note("%s=%s ", fields[f], s == 8 ? "(missing)" : strings[s]);
		set(f, s == 8 ? NULL : strings[s]);
	}
	finish();
}

// Metadata, AS and country names share strings, prefixes and suffixes in every way
static void sharing(void) {
	int x[5];
	for (int i = 0; i < 5; i++)
		x[i] = mc_choose(i < 3 ? 8 : mc_thorough ? 8 : 5);
	int order = mc_choose(2);
	mc_shard();
	start();
	if (order)
		set(0, strings[x[0]]);
	put_as(1, strings[x[1]]);
	put_as(2, strings[x[2]]);
	put_cc("DE", strings[x[3]]);
	put_cc("AT", strings[x[4]]);
	if (!order)
		set(0, strings[x[0]]);
	finish();
}

static char big[4][3 << 20];
static void fill(char* b, size_t n, int seed) {
	for (size_t i = 0; i < n; i++)
		b[i] = 1 + (i * 31 + seed * 7 + i / 255) % 255;
	b[n] = 0;
}

// All lengths
static void lengths(void) {
	int n = mc_choose(mc_thorough ? 10000 : 2500);
	int where = mc_choose(3);
	mc_shard();
	start();
	fill(big[0], n, 1);
	if (where == 0) {
		set(1, big[0]);
	} else if (where == 1)
		put_as(7, big[0]);
	else
		put_cc("DE", big[0]);
	set(0, "end");
	mc_note("%d bytes", n);
	finish();
}

// The pool grows in blocks: strings that end on, before and behind powers of two
static void growth(void) {
	int e = 14 + mc_choose(8);		// 16 KiB to 2 MiB
	int d = mc_choose(mc_thorough ? 33 : 13) - (mc_thorough ? 16 : 8);
	int d2 = mc_choose(mc_thorough ? 20 : 6);
	int more = mc_choose(3);
	mc_shard();
	start();
	int n = (1 << e) + d;
	fill(big[0], n, 2);
	fill(big[1], d2, 3);
	mc_note("%d bytes, then %d bytes", n, d2);
	set(2, big[0]);
	set(1, big[1]);
	if (more == 1) {
		fill(big[2], n, 5);
		set(0, big[2]);
	} else if (more == 2) {
		fill(big[2], 600000, 5);
		put_as(1, big[2]);
		fill(big[3], 1000000, 6);
		put_cc("DE", big[3]);
	}
	set(1, "x");
	finish();
}

// Long strings which are the same but for one byte, or but for the last one
static void similar(void) {
	int e = mc_choose(22);
	int d = mc_choose(3) - 1;
	int how = mc_choose(4);
	int where = mc_choose(3);
	int n = (1 << e) + d;
	if (n < 1)
		mc_prune();
	mc_shard();
	start();
	fill(big[0], n, 4);
	fill(big[1], n, 4);
	switch (how) {
		case 0: big[1][n - 1] ^= (big[1][n - 1] == 0x20 ? 1 : 0x20); break;
		case 1: big[1][n - 1] = 0; break;
		case 2: big[1][n / 2] ^= (big[1][n / 2] == 1 ? 2 : 1); break;
		case 3: big[1][n] = 'x'; big[1][n + 1] = 0; break;
	}
	mc_note("%d bytes, variant %d", n, how);
	if (where == 0) {
		set(0, big[0]);
		set(1, big[1]);
	} else if (where == 1) {
		put_as(1, big[0]);
		put_as(2, big[1]);
	} else {
		set(2, big[0]);
		put_cc("DE", big[1]);
	}
	finish();
}

// Many strings in one pool
static void many(void) {
	int n = 500 + 500 * mc_choose(mc_thorough ? 5 : 3);
	int length = mc_choose(4);
	mc_shard();
	start();
	static char buffer[MAXS][1200];
	static const int L[] = { 5, 100, 600, 1100 };
	for (int i = 0; i < n; i++) {
		int l = snprintf(buffer[i], 1200, "Name %d ", i % (n - 10));
		while (l < L[length])
			buffer[i][l++] = 'a' + i % 26;
		buffer[i][l] = 0;
		put_as(i + 1, buffer[i]);
	}
	set(0, buffer[n / 2]);
	set(1, buffer[0]);
	finish();
}

static void times(void) {
	int e = mc_choose(40), d = mc_choose(3) - 1;
	mc_shard();
	start();
	faking = 1;
	fake_time = ((time_t)1 << e) + d;
	mc_note("time %lld", (long long)fake_time);
	finish();
	faking = 0;
}

void* __real_mmap(void* addr, size_t length, int prot, int flags, int fd, off_t offset);

// A string of this length, most of which shares its memory
static char* huge(size_t length) {
	const size_t piece = 64 << 20, page = 4096;
	size_t size = (length / page + 2) * page;
	int fd = memfd_create("huge", 0);
	char* p = __real_mmap(NULL, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (fd < 0 || ftruncate(fd, piece) || p == MAP_FAILED)
		mc_abort("no memory for a long string");
	size_t n = 0;
	for (; n < length / page * page; n += piece) {
		size_t l = length / page * page - n;
		if (__real_mmap(p + n, l < piece ? l : piece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED)
			mc_abort("no memory for a long string");
		if (!n)
			for (size_t i = 0; i < piece && i < length / page * page; i++)
				p[i] = 1 + (i * 31 + i / 255) % 255;
	}
	n = length / page * page;
	if (__real_mmap(p + n, size - n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED)
		mc_abort("no memory for a long string");
	for (; n < length; n++)
		p[n] = 'z';
	close(fd);
	return p;
}

static void huge_check(const char* got, const char* s, size_t length, const char* what) {
	mc_assert(got, "%s is missing", what);
	size_t l = strnlen(got, length + 1);
	mc_assert(l == length, "%s has %s%zu bytes instead of %zu", what, l > length ? "more than " : "", l > length ? length : l, length);
	mc_assert(!memcmp(got, s, length), "%s is wrong", what);
}

// Offsets into the pool are numbers of 32 bits. What lies behind 2 GiB is found, and what cannot be reached any more is refused.
// (This needs up to 10 GiB of memory, and is left out where there is less.)
static int enough_memory(void) {
	unsigned long long kb = 0;
	char line[200];
	FILE* f = fopen("/proc/meminfo", "r");
	while (f && fgets(line, sizeof(line), f))
		if (sscanf(line, "MemAvailable: %llu", &kb) == 1)
			break;
	if (f)
		fclose(f);
	return kb >= 14ULL << 20;
}

static void limits(void) {
	if (!enough_memory())
		mc_prune();
	mc_shard();
	const size_t length = ((size_t)1 << 31) + 100;
	char* s = huge(length);
	for (int way = 0; way < 2; way++) {
		start();
		mc_note("2 GiB, %s; ", way ? "then the names" : "then 2 GiB");
		mc_ops(4);
		mc_assert(!loc_writer_set_license(w, s), "a license of %zu bytes was refused", length);
		put_as(1, "AS behind 2 GiB");
		put_as(2, "Another AS behind 2 GiB");
		put_cc("DE", "Country behind 2 GiB");
		set(1, "Description behind 2 GiB");
		set(0, "Vendor behind 2 GiB");
		const char* license = s + 1;
		size_t license_length = length - 1;
		if (way) {
			// Fill it up until just behind the first name
			license_length = UINT32_MAX - (1 + length + 1 + sizeof("Description behind 2 GiB") + sizeof("Vendor behind 2 GiB") + sizeof("AS behind 2 GiB") + 1);
			license = s + (length - license_length);
		}
		int refused = loc_writer_set_license(w, license) != 0;
		if (way)
			mc_assert(!refused, "a license of %zu bytes was refused although there is space for it", license_length);
		check_field(loc_writer_get_description(w), 1, "writer");
		check_field(loc_writer_get_vendor(w), 0, "writer");
		FILE* f = lk_file("", 0);
		int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
		loc_writer_unref(w);
		if (refused)
			mc_assert(!r, "the writer could not be written after a license had been refused (%d)", r);
		if (!r) {
			struct loc_database* db = NULL;
			mc_assert(!loc_database_new(lk_ctx, &db, f) && db, "a database that was just written could not be opened");
			check_field(loc_database_get_vendor(db), 0, "database");
			check_field(loc_database_get_description(db), 1, "database");
			huge_check(loc_database_get_license(db), refused ? s : license, refused ? length : license_length, "the license");
			struct loc_as* a = NULL;
			for (int i = 0; i < nas; i++) {
				mc_assert(!loc_database_get_as(db, &a, as[i].number) && a, "AS%u is missing", as[i].number);
				const char* n = loc_as_get_name(a);
				mc_assert(n && !strcmp(n, as[i].name), "AS%u is called '%.40s'", as[i].number, n ? n : "(missing)");
				loc_as_unref(a);
			}
			struct loc_country* c = NULL;
			mc_assert(!loc_database_get_country(db, &c, "DE") && c, "DE is missing");
			const char* n = loc_country_get_name(c);
			mc_assert(n && !strcmp(n, cc[0].name), "DE is called '%.40s'", n ? n : "(missing)");
			loc_country_unref(c);
			loc_database_unref(db);
		}
		fclose(f);
	}
	munmap(s, (length / 4096 + 2) * 4096);
}

void mc_run(void) {
	switch (mc_choose(8)) {
		case 7: limits(); break;
		case 0: sequences(); break;
		case 1: sharing(); break;
		case 2: lengths(); break;
		case 3: growth(); break;
		case 4: many(); break;
		case 5: times(); break;
		case 6: similar(); break;
	}
}
