/*
	C12: read failures are reported and never mistaken for a valid database

	Every system-call-like function that opening and verifying use goes through a
	stand-in; the harness lets any of them fail in any way it can fail.
*/
#include "sig.h"
#include <openssl/err.h>

const char* mc_property = "C12";

/*
	Faults
*/
enum { F_NONE, F_EIO, F_EINTR, F_EOF, F_SHORT, F_STALE, F_KINDS };
static int active;			// are faults being injected?
static int position;		// of the call that fails
static int permanent;		// and all the following ones?
static int kind;
static int second;			// distance of a second failing call (0: none)
static int calls;			// so far
static int hits;			// faults that were injected
static int hard;			// ... that were errors
static int lost;			// data has been withheld

static int fault(void) {
	if (!active)
		return F_NONE;
	int i = calls++;
	if (i == position || (permanent && i > position) || (second && i == position + second)) {
		hits++;
		return kind;
	}
	return F_NONE;
}
static int fault_errno(const char* call) {
	switch (fault()) {
		case F_NONE: case F_SHORT: return 0;
		case F_EINTR: hard++; return EINTR;
		case F_EOF: hard++; return ENOMEM;
		case F_STALE: hard++; return ESTALE;
		default: hard++; return EIO;
	}
}

int __real_dup(int fd);
int __wrap_dup(int fd) {
	int e = active ? fault_errno("dup") : 0;
	if (e) {
		errno = e;
		return -1;
	}
	return __real_dup(fd);
}
int __real_fcntl(int fd, int cmd, ...);

off_t __real_lseek(int fd, off_t offset, int whence);
off_t __wrap_lseek(int fd, off_t offset, int whence) {
	int e = active ? fault_errno("lseek") : 0;
	if (e) {
		errno = e;
		return -1;
	}
	return __real_lseek(fd, offset, whence);
}
off_t __real_lseek64(int fd, off_t offset, int whence);
off_t __wrap_lseek64(int fd, off_t offset, int whence) {
	return __wrap_lseek(fd, offset, whence);
}
int __real_fstat(int fd, struct stat* st);
int __wrap_fstat(int fd, struct stat* st) {
	int e = active ? fault_errno("fstat") : 0;
	if (e) {
		errno = e;
		return -1;
	}
	return __real_fstat(fd, st);
}

// Is there anything left to be read?
static int more(int fd) {
	struct stat st;
	return !__real_fstat(fd, &st) && __real_lseek(fd, 0, SEEK_CUR) < st.st_size;
}
static ssize_t faulty_read(int fd, char* buffer, size_t size, off_t offset, int positioned) {
	switch (fault()) {
		case F_EIO: hard++; errno = EIO; return -1;
		case F_EINTR: hard++; errno = EINTR; return -1;
		case F_STALE: hard++; errno = ESTALE; return -1;
		case F_EOF: if (more(fd)) { hard++; lost++; } return 0;
		case F_SHORT: if (size > 1) size = size / 2; break;
	}
	return positioned ? pread(fd, buffer, size, offset) : read(fd, buffer, size);
}
ssize_t __real_read(int fd, void* b, size_t n);
ssize_t __wrap_read(int fd, void* b, size_t n) {
	return active ? faulty_read(fd, b, n, 0, 0) : __real_read(fd, b, n);
}
ssize_t __real_pread(int fd, void* b, size_t n, off_t o);
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
	return active ? faulty_read(fd, b, n, o, 1) : __real_pread(fd, b, n, o);
}

// Streams of the library are made from a descriptor, so that their reads can fail
struct stream { FILE* f; int fd; };
static int chunk = 4096;	// how much is read at once
static struct stream streams[16];

static ssize_t cookie_read(void* c, char* buffer, size_t size) {
	struct stream* s = c;
	if (size > (size_t)chunk)
		size = chunk;
	if (active) {
		switch (fault()) {
			case F_EIO: hard++; errno = EIO; return -1;
			case F_EINTR: hard++; errno = EINTR; return -1;
		case F_STALE: hard++; errno = ESTALE; return -1;
			case F_EOF: if (more(s->fd)) { hard++; lost++; } return 0;
			case F_SHORT: if (size > 1) size = size / 2; break;
		}
	}
	return __real_read(s->fd, buffer, size);
}
static int cookie_seek(void* c, off64_t* offset, int whence) {
	struct stream* s = c;
	if (active) {
		int e = fault_errno("seek");
		if (e) {
			errno = e;
			return -1;
		}
	}
	off_t r = __real_lseek(s->fd, *offset, whence);
	if (r < 0)
		return -1;
	*offset = r;
	return 0;
}
static int cookie_close(void* c) {
	struct stream* s = c;
	s->f = NULL;
	return close(s->fd);
}
FILE* __wrap_fdopen(int fd, const char* mode) {
	if (active) {
		int e = fault_errno("fdopen");
		if (e) {
			errno = e;
			return NULL;
		}
	}
	if (fcntl(fd, F_GETFD) < 0) {
		errno = EBADF;
		return NULL;
	}
	for (int i = 0; i < 16; i++) {
		if (streams[i].f)
			continue;
		cookie_io_functions_t io = { .read = cookie_read, .seek = cookie_seek, .close = cookie_close };
		streams[i].fd = fd;
		streams[i].f = fopencookie(&streams[i], "r", io);
		return streams[i].f;
	}
	mc_abort("too many streams");
}
int __real_fileno(FILE* f);
int __wrap_fileno(FILE* f) {
	for (int i = 0; i < 16; i++)
		if (streams[i].f && streams[i].f == f)
			return streams[i].fd;
	return __real_fileno(f);
}
int __wrap_fileno_unlocked(FILE* f) {
	return __wrap_fileno(f);
}

/*
	The files
*/
static struct key key, wrong;
#define NFILES 3
static unsigned char* files[NFILES];
static size_t lengths[NFILES];
static net_t nets[2];

static void init(void) {
	lk_init();
	sig_key(&key, "EC", "P-256", 0);
	sig_key(&wrong, "EC", "P-256", 0);
	nets[0] = (net_t){ .plen = 3, .cc = "DE", .asn = 5 };
	nets[1] = (net_t){ .addr = (u128)7 << 100, .plen = 40, .cc = "US", .flags = 1 };
	struct enc_as as = { 5, "Five" };
	for (int i = 0; i < NFILES; i++) {
		struct enc e = { .nets = nets, .nnets = 2, .as = &as, .nas = 1, .vendor = "Vendor", .created_at = 1700000000 + i,
			.compact = i == 0 };
		files[i] = encode(&e, &lengths[i]);
		if (i == 2) {
			size_t n = lengths[i] + 150000;
			files[i] = realloc(files[i], n);
			memset(files[i] + lengths[i], 'x', n - lengths[i]);
			lengths[i] = n;
		}
		unsigned char s[2048];
		size_t l = sig_sign(&key, files[i], lengths[i], s);
		sig_put(files[i], i == 1, s, l);
	}
	lk_fault = NULL;
}
void (*mc_worker_init)(void) = init;

static int mapping_fault(const char* call) {
	return active ? fault_errno(call) : 0;
}

// Is everything in the database?
static void check(struct loc_database* db, int which) {
	mc_assert(loc_database_created_at(db) == 1700000000 + which, "the database was created at %ld", (long)loc_database_created_at(db));
	const char* v = loc_database_get_vendor(db);
	mc_assert(v && !strcmp(v, "Vendor"), "the vendor is '%s'", v);
	mc_assert(loc_database_count_as(db) == 1, "there are %zu ASes", loc_database_count_as(db));
	for (int i = 0; i < 2; i++) {
		struct loc_network* n = NULL;
		struct in6_addr a = m_in6(m_last(&nets[i]));
		int r = loc_database_lookup(db, &a, &n);
		mc_assert(r == 0 && n, "%s was not found (%d)", m_net_str(&nets[i]), r);
		lk_check_net(n, &nets[i], "lookup");
		loc_network_unref(n);
	}
}

static int verify(struct loc_database* db, struct key* k) {
	FILE* f = sig_file(k->pub, k->publen);
	mc_ops(1);
	int r = loc_database_verify(db, f);
	fclose(f);
	return r;
}

static void arm(int p, int perm, int k, int s) {
	calls = hits = hard = lost = 0;
	position = p;
	permanent = perm;
	kind = k;
	second = s;
	active = 1;
	lk_fault = mapping_fault;
}
static void disarm(void) {
	active = 0;
	lk_fault = NULL;
}

// Whatever a failing verification has acquired, it gives back
static void no_growth(struct loc_database* db, struct key* key, int p, int perm, int k) {
	long allocs[4];
	int fds[4];
	for (int i = 0; i < 4; i++) {
		FILE* f = sig_file(key->pub, key->publen);
		arm(p, perm, k, 0);
		loc_database_verify(db, f);
		disarm();
		fclose(f);
		ERR_clear_error();
		allocs[i] = lk_live_allocs;
		fds[i] = lk_open_fds();
	}
	int more = 0, morefds = 0;
	for (int i = 2; i < 4; i++) {
		more += allocs[i] > allocs[i - 1];
		morefds += fds[i] > fds[i - 1];
	}
	mc_assert(more < 2, "every failing verification leaks %ld allocations", allocs[3] - allocs[2]);
	mc_assert(morefds < 2, "every failing verification leaks file descriptors");
}

static int file_whole(int fd) {
	return fcntl(fd, F_GETFD) != -1;
}

static void opening(void) {
	int which = mc_choose(NFILES);
	int perm = mc_choose(2);
	int k = 1 + mc_choose(F_KINDS - 1);
	int s = perm ? 0 : mc_choose(5);
	int p = mc_choose(16);
	mc_shard();
	FILE* f = lk_file(files[which], lengths[which]);
	int fds = lk_open_fds();
	long allocs = lk_live_allocs;
	struct loc_database* db = NULL;
	arm(p, perm, k, s);
	mc_ops(1);
	int r = loc_database_new(lk_ctx, &db, f);
	disarm();
	mc_note("file %d, opening: call %d%s fails (%d, %d): returns %d after %d calls", which, p, perm ? " and all following" : "", k, s, r, calls);
	uint64_t h = MC_HASH_INIT;
	int obs[] = { which, r, calls, hits };
	mc_state(mc_hash(h, obs, sizeof(obs)));
	if (!hits)
		mc_assert(r == 0, "opening failed (%d) without any failure", r);
	if (r == 0) {
		mc_assert(db, "there is no database");
		// Whatever failed must not have had any consequence
		check(db, which);
		loc_database_unref(db);
	}
	if (perm && hard && k == F_EIO && p == 0)
		mc_assert(r != 0, "opening succeeds although everything fails");
	mc_assert(lk_mappings == 0, "the file is still mapped after opening returned %d", r);
	mc_assert(lk_open_fds() == fds, "%d file descriptors were leaked when opening returned %d", lk_open_fds() - fds, r);
	mc_assert(lk_live_allocs == allocs, "%ld allocations were leaked when opening returned %d", lk_live_allocs - allocs, r);
	mc_assert(file_whole(fileno(f)), "the caller's file was closed");
	if (r == 0) {
		db = NULL;
		arm(p, perm, k, s);
		r = loc_database_new(lk_ctx, &db, f);
		disarm();
		if (r == 0) {
			mc_assert(verify(db, &key) == 0, "a database that was opened successfully does not verify");
			mc_assert(verify(db, &wrong) != 0, "it verifies with the wrong key");
			loc_database_unref(db);
		}
	}
	// Try again
	db = NULL;
	mc_ops(1);
	r = loc_database_new(lk_ctx, &db, f);
	mc_assert(r == 0 && db, "opening again failed (%d)", r);
	check(db, which);
	loc_database_unref(db);
	fclose(f);
}

static void verifying(void) {
	int which = mc_choose(NFILES);
	int perm = mc_choose(2);
	int k = 1 + mc_choose(F_KINDS - 1);
	int s = perm ? 0 : mc_choose(5);
	int p = mc_choose(50);
	int wrongkey = mc_choose(2);
	chunk = which == 0 && s < 2 && mc_choose(2) ? 1000 : 4096;
	mc_shard();
	struct loc_database* db = NULL;
	FILE* f = lk_file(files[which], lengths[which]);
	if (loc_database_new(lk_ctx, &db, f))
		mc_fail("opening failed");
	int fds = lk_open_fds();
	FILE* kf = wrongkey ? sig_file(wrong.pub, wrong.publen) : sig_file(key.pub, key.publen);
	long allocs = lk_live_allocs;
	arm(p, perm, k, s);
	mc_ops(1);
	int r = loc_database_verify(db, kf);
	disarm();
	mc_note("file %d, verifying: call %d%s fails (%d, %d): returns %d after %d calls", which, p, perm ? " and all following" : "", k, s, r, calls);
	int obs[] = { which, r, calls, hits, 77 };
	mc_state(mc_hash(MC_HASH_INIT, obs, sizeof(obs)));
	if (!hits || k == F_SHORT)
		mc_assert((r == 0) == !wrongkey, "verification returned %d without any failure", r);
	if (wrongkey)
		mc_assert(r != 0, "the wrong key was accepted");
	// The end of the file was reported too early: what was verified is not this file
	if (lost)
		mc_assert(r != 0, "verification succeeded although %d read(s) reported the end of the file too early", lost);
	if (perm && hard)
		mc_assert(r != 0, "verification succeeded although nothing could be read from call %d on", p);
	// A single error: only if it was dealt with
	fclose(kf);
	mc_assert(lk_open_fds() <= fds + 1, "file descriptors were leaked");
	// Failing again and again does not use up more and more memory
	if (hits && !s && !wrongkey && k != F_SHORT)
		no_growth(db, wrongkey ? &wrong : &key, p, perm, k);
	// The outcome of a later verification is not affected
	int r2 = verify(db, &key);
	mc_assert(r2 == 0, "verifying again failed (%d)", r2);
	r2 = verify(db, &wrong);
	mc_assert(r2 != 0, "verifying with another key succeeded");
	check(db, which);
	loc_database_unref(db);
	mc_assert(lk_mappings == 0, "the file is still mapped");
	fclose(f);
	chunk = 4096;
}

/*
	The key cannot be read
*/
struct keystream { int calls, at; size_t pos; };
static ssize_t key_read(void* c, char* buffer, size_t size) {
	struct keystream* s = c;
	if (s->calls++ >= s->at) {
		hits++;
		if (kind == F_EOF)
			return 0;
		errno = kind == F_EINTR ? EINTR : EIO;
		return -1;
	}
	if (size > 16)
		size = 16;
	if (size > key.publen - s->pos)
		size = key.publen - s->pos;
	memcpy(buffer, key.pub + s->pos, size);
	s->pos += size;
	return size;
}

static void key_failing(void) {
	int at = mc_choose(16);
	kind = 1 + mc_choose(3);
	mc_shard();
	struct loc_database* db = lk_open_bytes(files[0], lengths[0]);
	struct keystream s = { .at = at };
	cookie_io_functions_t io = { .read = key_read };
	hits = 0;
	FILE* f = fopencookie(&s, "r", io);
	setvbuf(f, NULL, _IOFBF, 16);
	mc_ops(1);
	int r = loc_database_verify(db, f);
	// All of the key but for the last line break must have been there
	mc_note("the key fails after %zu of %zu bytes: %d", s.pos, key.publen, r);
	if (s.pos + 1 < key.publen)
		mc_assert(r != 0, "verification succeeded although only %zu of %zu bytes of the key could be read", s.pos, key.publen);
	if (!hits)
		mc_assert(r == 0, "verification failed (%d) without any failure", r);
	fclose(f);
	long allocs[5];
	int more = 0;
	for (int i = 0; i < 5; i++) {
		s = (struct keystream){ .at = at };
		f = fopencookie(&s, "r", io);
		setvbuf(f, NULL, _IOFBF, 16);
		loc_database_verify(db, f);
		fclose(f);
		ERR_clear_error();
		allocs[i] = lk_live_allocs;
		if (i > 1)
			more += allocs[i] > allocs[i - 1];
	}
	mc_assert(more < 3, "every verification whose key cannot be read leaks %ld allocations", allocs[4] - allocs[3]);
	mc_assert(verify(db, &key) == 0, "verifying again failed");
	loc_database_unref(db);
	mc_state(mc_hash(MC_HASH_INIT, &s.pos, sizeof(s.pos)) + r);
}

void mc_run(void) {
	switch (mc_choose(3)) {
		case 0: opening(); break;
		case 1: verifying(); break;
		case 2: key_failing(); break;
	}
}
