/*
	C09: a database verifies only if a genuine signature covers its exact bytes
*/
#include "sig.h"

const char* mc_property = "C09";

#define NKEYS 5
// Three of one kind, one each of others
static struct key keys[NKEYS];

static unsigned char* file;		// a small file
static size_t length;
static unsigned char sigs[NKEYS][2048];
static size_t siglen[NKEYS];
static unsigned char other[2048];	// of something else, by key 0
static size_t otherlen;

static void init(void) {
	lk_init();
	sig_key(&keys[0], "EC", "P-256", 0);
	sig_key(&keys[1], "EC", "P-256", 0);
	sig_key(&keys[2], "RSA", NULL, 1024);
	sig_key(&keys[3], "EC", "P-521", 0);
	sig_key(&keys[4], "RSA", NULL, 2048);

	net_t nets[2] = { { .plen = 3, .cc = "DE", .asn = 5 }, { .plen = 5, .cc = "US", .flags = 1 } };
	struct enc_as as = { 5, "Five" };
	struct enc_country c = { "DE", "EU", "Germany" };
	struct enc e = { .nets = nets, .nnets = 2, .as = &as, .nas = 1, .countries = &c, .ncountries = 1, .vendor = "Vendor",
		.license = "CC", .created_at = 1700000000, .compact = 1 };
	file = encode(&e, &length);
	for (int i = 0; i < NKEYS; i++)
		siglen[i] = sig_sign(&keys[i], file, length, sigs[i]);
	unsigned char* o = malloc(length);
	memcpy(o, file, length);
	o[length - 1] ^= 1;
	otherlen = sig_sign(&keys[0], o, length, other);
	free(o);
}
void (*mc_worker_init)(void) = init;

static int verify_with(struct loc_database* db, const char* pem, size_t l) {
	FILE* f = sig_file(pem, l);
	mc_ops(1);
	int r = loc_database_verify(db, f);
	fclose(f);
	return r;
}

// Returns whether it verifies; a file that cannot be opened does not
static int verifies(const unsigned char* p, size_t l, int key) {
	FILE* f = lk_file(p, l);
	struct loc_database* db = NULL;
	mc_ops(1);
	int r = loc_database_new(lk_ctx, &db, f);
	fclose(f);
	if (r)
		return -1;
	r = verify_with(db, keys[key].pub, keys[key].publen);
	loc_database_unref(db);
	mc_checks(1);
	return r == 0;
}

// What is in a slot; returns the key whose signature it is, or -1
#define NSLOTS 14
static const char* slot_names[NSLOTS] = { "absent", "key 0", "key 1", "key 2", "key 3", "key 4", "of another file", "first byte damaged",
	"last byte damaged", "cut off", "too long", "garbage", "a single zero", "zeros" };
static int fill_slot(unsigned char* p, int slot, int what) {
	unsigned char b[2049];
	memset(b, 0, sizeof(b));
	switch (what) {
		case 0: return -1;
		case 1: case 2: case 3: case 4: case 5: sig_put(p, slot, sigs[what - 1], siglen[what - 1]); return what - 1;
		case 6: sig_put(p, slot, other, otherlen); return -1;
		case 7: memcpy(b, sigs[0], siglen[0]); b[0] ^= 1; sig_put(p, slot, b, siglen[0]); return -1;
		case 8: memcpy(b, sigs[0], siglen[0]); b[siglen[0] - 1] ^= 0x80; sig_put(p, slot, b, siglen[0]); return -1;
		case 9: sig_put(p, slot, sigs[0], siglen[0] - 1); return -1;
		case 10: memcpy(b, sigs[0], siglen[0]); sig_put(p, slot, b, siglen[0] + 1); return -1;
		case 11: memset(b, 0xff, 2048); sig_put(p, slot, b, 71); return -1;
		case 12: sig_put(p, slot, b, 1); return -1;
		case 13: sig_put(p, slot, b, 2048); return -1;
	}
	return -1;
}

static void slots(void) {
	int a = mc_choose(NSLOTS), b = mc_choose(NSLOTS);
	int key = mc_choose(NKEYS);
	mc_shard();
	unsigned char* p = malloc(length);
	memcpy(p, file, length);
	int ka = fill_slot(p, 0, a), kb = fill_slot(p, 1, b);
	int want = ka == key || kb == key;
	mc_note("first signature: %s, second: %s, verified with key %d: %s", slot_names[a], slot_names[b], key, want ? "valid" : "invalid");
	int got = verifies(p, length, key);
	mc_assert(got == want, "first signature: %s, second: %s, verified with key %d: %s", slot_names[a], slot_names[b], key,
		got < 0 ? "refused" : got ? "accepted" : "rejected");
	uint64_t h = MC_HASH_INIT;
	h = mc_hash(h, &a, sizeof(a)); h = mc_hash(h, &b, sizeof(b)); h = mc_hash(h, &key, sizeof(key));
	mc_state(h);
	free(p);
}

// Any change to the file
static void changes(void) {
	int key = mc_choose(2) * 2;
	int slot = mc_choose(2);
	int kind = mc_choose(6);
	int at = mc_choose(length + 1);
	int v = mc_choose(kind == 0 ? (mc_thorough ? 255 : 3) : 1);
	int quick_skip = !mc_thorough && at > 300 && at < OFF_PAD - 16 && at % 7;
	if (quick_skip)
		mc_prune();
	mc_shard();
	unsigned char* p = malloc(length + 5000);
	memset(p, 0, length + 5000);
	memcpy(p, file, length);
	sig_put(p, slot, sigs[key], siglen[key]);
	size_t l = length;
	int area = at >= OFF_SIG1_LEN && at < OFF_PAD;
	int want = 0;
	switch (kind) {
		case 0:
			if (at == length)
				goto DONE;
			p[at] ^= mc_thorough ? v + 1 : v == 0 ? 1 : v == 1 ? 0x80 : 0xff;
			// Inside of the signature area: it depends
			if (area) {
				size_t s1 = get16(p + OFF_SIG1_LEN), s2 = get16(p + OFF_SIG2_LEN);
				want = s1 <= 2048 && s2 <= 2048 && ((s1 && sig_verify(keys[key].k, p, l, p + OFF_SIG1, s1)) ||
					(s2 && sig_verify(keys[key].k, p, l, p + OFF_SIG2, s2)));
			}
			break;
		case 1:		// truncated
			l = at;
			want = at == length;
			break;
		case 2:		// a byte inserted
			if (area)
				goto DONE;
			memmove(p + at + 1, p + at, length - at);
			p[at] = at ? p[at - 1] : 0;
			l++;
			break;
		case 3:		// a byte removed
			if (area || at == length)
				goto DONE;
			memmove(p + at, p + at + 1, length - at - 1);
			l--;
			break;
		case 4:		// two neighbours swapped
			if (at + 1 >= length || p[at] == p[at + 1] || (at + 1 >= OFF_SIG1_LEN && at < OFF_PAD))
				goto DONE;
			unsigned char t = p[at];
			p[at] = p[at + 1];
			p[at + 1] = t;
			break;
		case 5:		// something appended
			if (at >= 40)
				goto DONE;
			l += at == 0 ? 0 : at < 20 ? at : at < 30 ? 4096 + at - 25 : (size_t)(65536 + at - 35) < 5000 ? 0 : 4096;
			want = l == length;
			if (at % 2)
				memset(p + length, 0xff, l - length);
	}
	int got = verifies(p, l, key);
	mc_note("change %d at %d", kind, at);
	mc_assert(want ? got == 1 : got != 1, "kind %d: a file with a change at byte %d is %s", kind, at, got == 1 ? "valid" : "invalid");
	mc_state(mc_hash(MC_HASH_INIT, p, l));
DONE:
	free(p);
}

// What a writer signs
static void writers(void) {
	int k1 = mc_choose(NKEYS + 1), k2 = mc_choose(NKEYS + 1);
	int again = mc_choose(3);
	mc_shard();
	FILE* f1 = k1 ? sig_file(keys[k1 - 1].priv, keys[k1 - 1].privlen) : NULL;
	FILE* f2 = k2 ? sig_file(keys[k2 - 1].priv, keys[k2 - 1].privlen) : NULL;
	struct loc_writer* w = NULL;
	int r = loc_writer_new(lk_ctx, &w, f1, f2);
	mc_assert(r == 0, "loc_writer_new() failed (%d)", r);
	if (f1)
		fclose(f1);
	if (f2)
		fclose(f2);
	net_t n = { .plen = 7, .cc = "DE", .asn = 77 };
	lk_add(w, &n);
	loc_writer_set_vendor(w, "Somebody");
	for (int i = 0; i <= again; i++) {
		if (i) {
			// Changed after it has been written
			loc_writer_set_vendor(w, i == 1 ? "Somebody else" : "S");
			struct loc_as* a = NULL;
			loc_writer_add_as(w, &a, i);
			loc_as_unref(a);
		}
		FILE* f = lk_file(NULL, 0);
		mc_ops(1);
		r = loc_writer_write(w, f, LOC_DATABASE_VERSION_1);
		mc_assert(r == 0, "writing failed (%d)", r);
		size_t l;
		unsigned char* d = lk_contents(f, &l);
		fclose(f);
		for (int k = 0; k < NKEYS; k++) {
			int want = k1 == k + 1 || k2 == k + 1;
			int got = verifies(d, l, k);
			mc_note("signed with %d and %d, write %d, verified with %d: %d; ", k1 - 1, k2 - 1, i, k, got);
			mc_assert(got == want, "signed with keys %d and %d, write %d: verifying with key %d gives %d", k1 - 1, k2 - 1, i, k, got);
			// Each signature where it belongs
			for (int s = 0; s < 2; s++) {
				int present = get16(d + (s ? OFF_SIG2_LEN : OFF_SIG1_LEN));
				mc_assert(!!present == !!(s ? k2 : k1), "signature %d is%s there", s + 1, present ? "" : " not");
				if (present)
					mc_assert(sig_verify(keys[k].k, d, l, d + (s ? OFF_SIG2 : OFF_SIG1), present) == ((s ? k2 : k1) == k + 1),
						"signature %d is not genuine", s + 1);
			}
		}
		// Changed once it has been written
		if (k1 || k2) {
			int k = k1 ? k1 - 1 : k2 - 1;
			d[l - 1] ^= 1;
			mc_assert(verifies(d, l, k) != 1, "a changed file is valid");
		}
		mc_state(mc_hash(MC_HASH_INIT, d, l));
		free(d);
	}
	loc_writer_unref(w);
}

// Files of all lengths around the sizes of buffers
static void sizes(void) {
	static const size_t around[] = { 4096, 8192, 65536, 65536 + 4200, 131072, 131072 + 4200, 3 * 65536 + 4200 };
	size_t l = around[mc_choose(7)] + mc_choose(7) - 3;
	int at = mc_choose(6);
	int key = mc_choose(2) * 2;
	mc_shard();
	if (l < length)
		l += length;
	unsigned char* p = malloc(l);
	memcpy(p, file, length);
	memset(p + length, 'x', l - length);
	unsigned char s[2048];
	size_t sl = sig_sign(&keys[key], p, l, s);
	sig_put(p, 0, s, sl);
	mc_note("%zu bytes", l);
	mc_assert(verifies(p, l, key) == 1, "a genuine file of %zu bytes is invalid", l);
	size_t where = at == 0 ? l - 1 : at == 1 ? length : at == 2 ? (l > 65536 ? 65536 : 4200) : at == 3 ? (l > 65536 ? 65535 : 4201) :
		at == 4 ? (l > 65536 + 4200 ? 65536 + 4199 : 5) : (l > 65536 + 4200 ? 65536 + 4200 : 10);
	p[where] ^= 4;
	mc_assert(verifies(p, l, key) != 1, "a file of %zu bytes that was changed at %zu is valid", l, where);
	p[where] ^= 4;
	mc_assert(verifies(p, l - 1, key) != 1, "a file of %zu bytes whose last byte was removed is valid", l);
	mc_state(mc_hash(MC_HASH_INIT, &l, sizeof(l)));
	free(p);
}

// A large file that is changed anywhere
#define HUGE_LENGTH ((size_t)(mc_thorough ? 33 << 20 : 10 << 20) + 4321)
static void huge(void) {
	static unsigned char* p = NULL;
	static size_t l;
	int at = mc_choose(HUGE_LENGTH / 65536 + 1), edge = mc_choose(3);
	mc_shard();
	if (!p) {
		l = HUGE_LENGTH;
		p = malloc(l);
		memcpy(p, file, length);
		memset(p + length, 'x', l - length);
		unsigned char s[2048];
		size_t sl = sig_sign(&keys[0], p, l, s);
		sig_put(p, 1, s, sl);
	}
	mc_note("%zu bytes", l);
	if (!at)
		mc_assert(verifies(p, l, 0) == 1, "a genuine file of %zu bytes is invalid", l);
	size_t where = edge == 0 ? (size_t)at * 65536 + 4215 : edge == 1 ? (size_t)at * 65536 + 4203 + 40000 : l - 1 - at;
	if (where >= l)
		return;
	p[where] ^= 1;
	mc_assert(verifies(p, l, 0) != 1, "a file of %zu bytes that was changed at %zu is valid", l, where);
	p[where] ^= 1;
	mc_state(mc_hash(MC_HASH_INIT, &where, sizeof(where)));
}

// Large files are signed by a writer as a whole
static void large_writers(void) {
	static const size_t L[] = { 40000, 57000, 57100, 61440, 65536, 131072, 1 << 20, 5 << 20, 9 << 20 };
	int which = mc_choose(9 + 4);
	size_t l = which < 9 ? L[which] : 65536 * (which - 9 + 1) * (which - 9 + 1);
	int slot = mc_choose(2);
	int k = mc_choose(2) * 2;
	mc_shard();
	if (which >= 9) {
		// Files that end exactly where a buffer does
		struct loc_writer* w = NULL;
		if (loc_writer_new(lk_ctx, &w, NULL, NULL))
			mc_fail("loc_writer_new() failed");
		char* text = malloc(l + 1);
		memset(text, 'y', l);
		text[l] = 0;
		loc_writer_set_description(w, text);
		free(text);
		FILE* f = lk_file(NULL, 0);
		int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_1);
		mc_assert(r == 0, "writing failed (%d)", r);
		loc_writer_unref(w);
		size_t n;
		free(lk_contents(f, &n));
		fclose(f);
		l += (65536 - n % 65536) % 65536;
	}
	struct loc_writer* w = NULL;
	FILE* f1 = sig_file(keys[k].priv, keys[k].privlen);
	FILE* f2 = sig_file(keys[1].priv, keys[1].privlen);
	int r = loc_writer_new(lk_ctx, &w, slot ? f2 : f1, slot ? f1 : f2);
	mc_assert(r == 0, "loc_writer_new() failed (%d)", r);
	fclose(f1);
	fclose(f2);
	char* text = malloc(l + 1);
	memset(text, 'y', l);
	text[l] = 0;
	loc_writer_set_description(w, text);
	FILE* f = lk_file(NULL, 0);
	mc_ops(1);
	r = loc_writer_write(w, f, LOC_DATABASE_VERSION_1);
	mc_assert(r == 0, "writing failed (%d)", r);
	loc_writer_unref(w);
	size_t n;
	unsigned char* d = lk_contents(f, &n);
	fclose(f);
	mc_note("%zu bytes", n);
	for (int s = 0; s < 2; s++) {
		int present = get16(d + (s ? OFF_SIG2_LEN : OFF_SIG1_LEN));
		mc_assert(present && sig_verify(keys[s == slot ? k : 1].k, d, n, d + (s ? OFF_SIG2 : OFF_SIG1), present),
			"signature %d of a file of %zu bytes is not genuine", s + 1, n);
	}
	mc_assert(verifies(d, n, k) == 1 && verifies(d, n, 1) == 1, "a file of %zu bytes is invalid", n);
	mc_state(mc_hash(MC_HASH_INIT, &n, sizeof(n)));
	free(d);
	free(text);
}

// What is given as the key
static void bad_keys(void) {
	int kind = mc_choose(6);
	int cut = mc_choose(kind == 0 ? (int)400 : 1);
	int valid = mc_choose(2);
	mc_shard();
	unsigned char* p = malloc(length);
	memcpy(p, file, length);
	if (valid)
		sig_put(p, 0, sigs[0], siglen[0]);
	struct loc_database* db = lk_open_bytes(p, length);
	char* pem = NULL;
	size_t l = 0;
	switch (kind) {
		case 0: pem = strdup(keys[0].pub); l = (size_t)cut < keys[0].publen ? cut : keys[0].publen; break;
		case 1: pem = strdup(keys[0].priv); l = strlen(pem); break;
		case 2: pem = strdup("garbage\n"); l = strlen(pem); break;
		case 3: pem = strdup("-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----\n"); l = strlen(pem); break;
		case 4: pem = calloc(1, 4096); l = 4096; break;
		case 5: pem = malloc(keys[0].publen + 20); sprintf(pem, "A comment\n\n%s", keys[0].pub); l = strlen(pem); break;
	}
	BIO* b = BIO_new_mem_buf(pem, l);
	EVP_PKEY* k = PEM_read_bio_PUBKEY(b, NULL, NULL, NULL);
	BIO_free(b);
	int want = k && valid && EVP_PKEY_eq(k, keys[0].k) == 1;
	EVP_PKEY_free(k);
	int r = verify_with(db, pem, l);
	mc_assert((r == 0) == want, "key %d cut at %d: verification returns %d", kind, cut, r);
	// Nothing is left behind that would change the next result
	r = verify_with(db, keys[0].pub, keys[0].publen);
	mc_assert((r == 0) == valid, "verification returns %d afterwards", r);
	r = verify_with(db, keys[1].pub, keys[1].publen);
	mc_assert(r != 0, "verification with another key succeeds afterwards");
	mc_state(mc_hash(MC_HASH_INIT, &l, sizeof(l)) + kind);
	loc_database_unref(db);
	free(pem);
	free(p);
}

void mc_run(void) {
	switch (mc_choose(7)) {
		case 0: slots(); break;
		case 1: changes(); break;
		case 2: writers(); break;
		case 3: sizes(); break;
		case 4: bad_keys(); break;
		case 5: huge(); break;
		case 6: large_writers(); break;
	}
}
