/*
	C11: a reported successful write means a complete database was written

	The output stream is a stand-in in memory whose operations can fail at any point.
*/
#include "sig.h"

const char* mc_property = "C11";

static struct key key1, key2;

static struct {
	unsigned char* data;
	size_t size, cap, pos;
	// What fails
	int at, kind, permanent;
	size_t capacity;		// the device is full beyond this
	// So far
	int calls, hits;
	int closed;
} out;

enum { K_ERROR, K_SHORT, K_EINTR, K_NOSPACE, K_KINDS };
static int error_of(int kind) { return kind == K_EINTR ? EINTR : kind == K_NOSPACE ? ENOSPC : EIO; }

static int failing(void) {
	int i = out.calls++;
	if (i == out.at || (out.permanent && out.at >= 0 && i > out.at)) {
		out.hits++;
		return 1;
	}
	return 0;
}

static ssize_t out_write(void* c, const char* buffer, size_t size) {
	if (failing()) {
		if (out.kind == K_SHORT && size > 1)
			size = size / 2;		// not an error: stdio continues
		else if (out.kind == K_SHORT)
			out.hits--;
		else {
			errno = error_of(out.kind);
			return 0;				// (a cookie reports errors this way)
		}
	}
	if (out.pos + size > out.capacity) {
		out.hits++;
		if (out.pos >= out.capacity) {
			errno = ENOSPC;
			return 0;
		}
		size = out.capacity - out.pos;
	}
	if (out.pos + size > out.cap) {
		out.cap = (out.pos + size) * 2;
		out.data = realloc(out.data, out.cap);
	}
	if (out.pos > out.size)
		memset(out.data + out.size, 0, out.pos - out.size);
	memcpy(out.data + out.pos, buffer, size);
	out.pos += size;
	if (out.pos > out.size)
		out.size = out.pos;
	return size;
}
static ssize_t out_read(void* c, char* buffer, size_t size) {
	if (failing()) {
		if (out.kind == K_SHORT) {
			if (size > 1)
				size = size / 2;
		} else {
			errno = error_of(out.kind);
			return -1;
		}
	}
	if (out.pos >= out.size)
		return 0;
	if (size > out.size - out.pos)
		size = out.size - out.pos;
	memcpy(buffer, out.data + out.pos, size);
	out.pos += size;
	return size;
}
static int out_seek(void* c, off64_t* offset, int whence) {
	if (failing() && out.kind != K_SHORT) {
		errno = error_of(out.kind);
		return -1;
	}
	off64_t p = *offset + (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)out.pos : (off64_t)out.size);
	if (p < 0) {
		errno = EINVAL;
		return -1;
	}
	*offset = out.pos = p;
	return 0;
}
static int out_close(void* c) {
	out.closed++;
	return 0;
}

static void init(void) {
	lk_init();
	sig_key(&key1, "EC", "P-256", 0);
	sig_key(&key2, "RSA", NULL, 1024);
	out.cap = 1 << 20;
	out.data = malloc(out.cap);
}
void (*mc_worker_init)(void) = init;

static net_t nets[3] = { { .plen = 3, .cc = "DE", .asn = 5 }, { .plen = 20, .cc = "US", .flags = 1 }, { .plen = 21, .asn = 4294967295u } };

static struct loc_writer* make(int keys, int content) {
	struct loc_writer* w = NULL;
	FILE* f1 = keys & 1 ? sig_file(key1.priv, key1.privlen) : NULL;
	FILE* f2 = keys & 2 ? sig_file(key2.priv, key2.privlen) : NULL;
	if (loc_writer_new(lk_ctx, &w, f1, f2))
		mc_fail("loc_writer_new() failed");
	if (f1)
		fclose(f1);
	if (f2)
		fclose(f2);
	if (!content)
		return w;
	loc_writer_set_vendor(w, "Vendor");
	for (int i = 0; i < 3; i++)
		if (lk_add(w, &nets[i]))
			mc_fail("%s could not be added", m_net_str(&nets[i]));
	struct loc_as* a = NULL;
	loc_writer_add_as(w, &a, 5);
	loc_as_set_name(a, "Five");
	loc_as_unref(a);
	struct loc_country* c = NULL;
	loc_writer_add_country(w, &c, "DE");
	loc_country_set_name(c, "Germany");
	loc_country_unref(c);
	return w;
}

static void check(const unsigned char* data, size_t size, int keys, int content) {
	struct loc_database* db = NULL;
	FILE* f = lk_file(data, size);
	int r = loc_database_new(lk_ctx, &db, f);
	fclose(f);
	mc_assert(r == 0, "the database that was reported as written cannot be opened (%d)", r);
	if (content) {
		for (int i = 0; i < 3; i++) {
			struct loc_network* n = NULL;
			struct in6_addr a = m_in6(m_last(&nets[i]));
			r = loc_database_lookup(db, &a, &n);
			mc_assert(r == 0 && n, "%s was not found (%d)", m_net_str(&nets[i]), r);
			int best = m_lpm(nets, 3, m_last(&nets[i]));
			lk_check_net(n, &nets[best], "lookup");
			loc_network_unref(n);
		}
		const char* v = loc_database_get_vendor(db);
		mc_assert(v && !strcmp(v, "Vendor"), "the vendor is '%s'", v);
		struct loc_as* a = NULL;
		mc_assert(!loc_database_get_as(db, &a, 5) && a, "AS5 was not found");
		mc_assert(loc_as_get_name(a) && !strcmp(loc_as_get_name(a), "Five"), "AS5 is called '%s'", loc_as_get_name(a));
		loc_as_unref(a);
		struct loc_country* c = NULL;
		mc_assert(!loc_database_get_country(db, &c, "DE") && c, "DE was not found");
		mc_assert(loc_country_get_name(c) && !strcmp(loc_country_get_name(c), "Germany"), "DE is called '%s'", loc_country_get_name(c));
		loc_country_unref(c);
	}
	for (int k = 1; k <= 2; k++) {
		struct key* key = k == 1 ? &key1 : &key2;
		FILE* f = sig_file(key->pub, key->publen);
		r = loc_database_verify(db, f);
		fclose(f);
		mc_assert((r == 0) == !!(keys & k), "verifying with key %d returns %d", k, r);
	}
	loc_database_unref(db);
}

static void attempt(int keys, int content, int buffering) {
	static char buffer[65536];
	struct loc_writer* w = make(keys, content);
	cookie_io_functions_t io = { .read = out_read, .write = out_write, .seek = out_seek, .close = out_close };
	out.size = out.pos = 0;
	out.calls = out.hits = out.closed = 0;
	FILE* f = fopencookie(NULL, "w+", io);
	switch (buffering) {
		case 0: setvbuf(f, NULL, _IONBF, 0); break;
		case 1: setvbuf(f, buffer, _IOFBF, 512); break;
		case 2: setvbuf(f, buffer, _IOFBF, 4096); break;
		case 3: setvbuf(f, buffer, _IOFBF, 65536); break;
	}
	mc_ops(1);
	int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
	// What has been written by now
	size_t size = out.size;
	unsigned char* data = malloc(size + 1);
	memcpy(data, out.data, size);
	int hits = out.hits;
	mc_note("keys %d, content %d, buffering %d: call %d%s fails (%d), space for %zu bytes: %d after %d calls, %zu bytes", keys, content,
		buffering, out.at, out.permanent ? " and following" : "", out.kind, out.capacity, r, out.calls, size);
	int obs[] = { keys, content, buffering, r, hits, out.calls };
	mc_state(mc_hash(MC_HASH_INIT, obs, sizeof(obs)));
	mc_assert(!out.closed, "the caller's stream was closed");
	if (!hits)
		mc_assert(r == 0, "writing failed (%d) without any failure", r);
	if (r == 0)
		check(data, size, keys, content);
	free(data);
	if (hits && out.permanent && (out.kind == K_ERROR || out.kind == K_NOSPACE))
		mc_assert(r != 0, "writing succeeded although nothing could be written from call %d on", out.at);
	if (hits && out.capacity != SIZE_MAX)
		mc_assert(r != 0, "writing succeeded although there was only space for %zu bytes", out.capacity);
	out.at = -1;
	out.permanent = 0;
	out.capacity = SIZE_MAX;
	fclose(f);

	// Try again with a stream that works
	f = lk_file(NULL, 0);
	mc_ops(1);
	r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
	mc_assert(r == 0, "writing again failed (%d)", r);
	size_t l;
	unsigned char* d = lk_contents(f, &l);
	check(d, l, keys, content);
	free(d);
	fclose(f);
	loc_writer_unref(w);
}

// Any operation on the stream fails
static void operations(void) {
	int keys = mc_choose(4);
	int content = mc_choose(2);
	int buffering = mc_choose(4);
	int kind = mc_choose(K_KINDS);
	int permanent = mc_choose(2);
	int at = mc_choose(buffering == 0 ? 230 : buffering == 1 ? 150 : 60);
	if (permanent && kind == K_EINTR)
		mc_prune();
	if (!mc_thorough && (keys == 2 || (!content && keys != 3) || (permanent && kind != K_ERROR && kind != K_NOSPACE) || (kind == K_NOSPACE && keys != 3)))
		mc_prune();
	mc_shard();
	out.at = at;
	out.kind = kind;
	out.permanent = permanent;
	out.capacity = SIZE_MAX;
	attempt(keys, content, buffering);
}

// The device is full
static void full(void) {
	int keys = mc_choose(4);
	int content = mc_choose(2);
	int buffering = mc_choose(4);
	int c = mc_choose(30000);
	int near = c % 4096 < 3 || c % 4096 > 4093 || (c >= 4190 && c < 4210) || c < 100;
	if (!near && c % (mc_thorough ? 3 : 701))
		mc_prune();
	if (!mc_thorough && (keys == 1 || keys == 2 || !content || buffering == 1))
		mc_prune();
	mc_shard();
	out.at = -1;
	out.kind = K_ERROR;
	out.permanent = 0;
	out.capacity = c;
	attempt(keys, content, buffering);
}

void mc_run(void) {
	switch (mc_choose(2)) {
		case 0: operations(); break;
		case 1: full(); break;
	}
}
