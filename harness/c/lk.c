#include "lk.h"

struct loc_ctx* lk_ctx;
int lk_mappings = 0;
long lk_live_allocs = 0;
int (*lk_fault)(const char* call) = NULL;

static void quiet(struct loc_ctx* ctx, void* data, int priority, const char* file, int line,
		const char* fn, const char* format, va_list args) {
	char buffer[4096];
	// Evaluate the arguments, so that reading them is part of what is checked
	vsnprintf(buffer, sizeof(buffer), format, args);
}

struct loc_ctx* lk_new_ctx(void) {
	struct loc_ctx* ctx = NULL;
	if (loc_new(&ctx) || !ctx)
		mc_fail("loc_new() failed");
	loc_set_log_callback(ctx, quiet, NULL);
	return ctx;
}

void lk_init(void) {
	lk_ctx = lk_new_ctx();
}

FILE* lk_file(const void* data, size_t length) {
	int fd = memfd_create("db", MFD_CLOEXEC);
	if (fd < 0)
		mc_abort("memfd_create: %s", strerror(errno));
	size_t done = 0;
	while (done < length) {
		ssize_t r = write(fd, (const char*)data + done, length - done);
		if (r <= 0)
			mc_abort("write: %s", strerror(errno));
		done += r;
	}
	lseek(fd, 0, SEEK_SET);
	FILE* f = fdopen(fd, "r+");
	if (!f)
		mc_abort("fdopen: %s", strerror(errno));
	return f;
}

unsigned char* lk_contents(FILE* f, size_t* length) {
	fflush(f);
	int fd = fileno(f);
	struct stat st;
	if (fstat(fd, &st))
		mc_abort("fstat");
	unsigned char* p = malloc(st.st_size + 1);
	ssize_t r = pread(fd, p, st.st_size, 0);
	if (r != st.st_size)
		mc_abort("pread");
	*length = r;
	return p;
}

struct loc_database* lk_open_bytes(const void* data, size_t length) {
	FILE* f = lk_file(data, length);
	struct loc_database* db = NULL;
	int r = loc_database_new(lk_ctx, &db, f);
	fclose(f);
	if (r || !db)
		mc_fail("a well-formed database of %zu bytes could not be opened (%d)", length, r);
	return db;
}

struct loc_database* lk_open_enc(const struct enc* e) {
	size_t length;
	unsigned char* p = encode(e, &length);
	struct loc_database* db = lk_open_bytes(p, length);
	free(p);
	return db;
}

struct loc_database* lk_open_writer(struct loc_writer* w) {
	FILE* f = lk_file("", 0);
	int r = loc_writer_write(w, f, LOC_DATABASE_VERSION_UNSET);
	if (r)
		mc_fail("loc_writer_write() failed (%d)", r);
	struct loc_database* db = NULL;
	r = loc_database_new(lk_ctx, &db, f);
	fclose(f);
	if (r || !db)
		mc_fail("a database that was just written could not be opened (%d)", r);
	return db;
}

void lk_read(struct loc_network* n, net_t* out) {
	memset(out, 0, sizeof(*out));
	out->addr = m_u128(loc_network_get_first_address(n));
	int family = loc_network_address_family(n);
	out->plen = loc_network_prefix(n) + (family == AF_INET ? 96 : 0);
	const char* cc = loc_network_get_country_code(n);
	if (cc)
		strncpy(out->cc, cc, 2);
	out->asn = loc_network_get_asn(n);
	out->flags = loc_network_has_flag(n, 0xffff);
	if ((family == AF_INET) != (out->plen >= 96 && m_is_v4(out->addr)))
		mc_fail("network %s has the wrong address family %d", loc_network_str(n), family);
	if (out->plen > 128)
		mc_fail("network %s has the prefix %d", loc_network_str(n), out->plen);
	if (m_first(out) != out->addr)
		mc_fail("network %s has host bits set in its first address", loc_network_str(n));
	if (m_u128(loc_network_get_last_address(n)) != m_last(out))
		mc_fail("network %s has the wrong last address %s", loc_network_str(n),
			m_addr_str(m_u128(loc_network_get_last_address(n))));
}

void lk_check_net(struct loc_network* n, const net_t* want, const char* what) {
	net_t got;
	lk_read(n, &got);
	mc_checks(1);
	if (!m_same_net(&got, want) || !m_same_props(&got, want))
		mc_fail("%s: got %s %s instead of %s %s", what, m_net_str(&got), m_props_str(&got),
			m_net_str(want), m_props_str(want));
}

uint64_t lk_hash_net(uint64_t h, const net_t* n) {
	h = mc_hash(h, &n->addr, sizeof(n->addr));
	h = mc_hash(h, &n->plen, sizeof(n->plen));
	h = mc_hash(h, n->cc, 3);
	h = mc_hash(h, &n->asn, sizeof(n->asn));
	return mc_hash(h, &n->flags, sizeof(n->flags));
}

int lk_add(struct loc_writer* w, const net_t* n) {
	struct loc_network* network = NULL;
	mc_ops(1);
	int r = loc_writer_add_network(w, &network, m_net_str(n));
	if (r)
		return r;
	if (*n->cc && loc_network_set_country_code(network, n->cc))
		mc_fail("could not set country code %s", n->cc);
	if (n->asn && loc_network_set_asn(network, n->asn))
		mc_fail("could not set AS number %u", n->asn);
	if (n->flags && loc_network_set_flag(network, n->flags))
		mc_fail("could not set flags %x", n->flags);
	loc_network_unref(network);
	return 0;
}

// Called by the sanitizer runtime
void __sanitizer_malloc_hook(const volatile void* p, size_t size);
void __sanitizer_free_hook(const volatile void* p);
void __sanitizer_malloc_hook(const volatile void* p, size_t size) {
	if (p)
		lk_live_allocs++;
}
void __sanitizer_free_hook(const volatile void* p) {
	if (p)
		lk_live_allocs--;
}

int lk_open_fds(void) {
	int n = 0;
	for (int fd = 0; fd < 256; fd++)
		if (fcntl(fd, F_GETFD) != -1)
			n++;
	return n;
}

/*
	Stand-ins
*/
#define MAXMAP 64
static struct { void* p; size_t len; } maps[MAXMAP];

void* __real_mmap(void* addr, size_t length, int prot, int flags, int fd, off_t offset);
int __real_munmap(void* addr, size_t length);
int __real_madvise(void* addr, size_t length, int advice);

// A file is "mapped" into a heap block of exactly its length, so that the
// sanitizer sees every access outside of it
void* __wrap_mmap(void* addr, size_t length, int prot, int flags, int fd, off_t offset) {
	if (fd < 0)
		return __real_mmap(addr, length, prot, flags, fd, offset);
	if (lk_fault) {
		int e = lk_fault("mmap");
		if (e) {
			errno = e;
			return MAP_FAILED;
		}
	}
	if (!length) {
		errno = EINVAL;
		return MAP_FAILED;
	}
	for (int i = 0; i < MAXMAP; i++) {
		if (maps[i].p)
			continue;
		char* p = malloc(length);
		if (!p) {
			errno = ENOMEM;
			return MAP_FAILED;
		}
		memset(p, 0, length);
		size_t done = 0;
		while (done < length) {
			ssize_t r = pread(fd, p + done, length - done, offset + done);
			if (r <= 0)
				break;
			done += r;
		}
		maps[i].p = p;
		maps[i].len = length;
		lk_mappings++;
		return p;
	}
	mc_abort("too many mappings");
}
void* __wrap_mmap64(void* addr, size_t length, int prot, int flags, int fd, off_t offset) {
	return __wrap_mmap(addr, length, prot, flags, fd, offset);
}

int __wrap_munmap(void* addr, size_t length) {
	for (int i = 0; i < MAXMAP; i++) {
		if (maps[i].p && maps[i].p == addr) {
			// (the kernel only cares about whole pages)
			if ((length + 4095) / 4096 != (maps[i].len + 4095) / 4096)
				mc_fail("a mapping of %zu bytes was unmapped with length %zu", maps[i].len, length);
			free(addr);
			maps[i].p = NULL;
			lk_mappings--;
			return 0;
		}
	}
	return __real_munmap(addr, length);
}

int __wrap_madvise(void* addr, size_t length, int advice) {
	if (lk_fault) {
		int e = lk_fault("madvise");
		if (e) {
			errno = e;
			return -1;
		}
	}
	for (int i = 0; i < MAXMAP; i++)
		if (maps[i].p && maps[i].p == addr)
			return 0;
	return __real_madvise(addr, length, advice);
}
