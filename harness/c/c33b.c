/* C33: the damaged files of C10, opened and read with and without logging */
#define REDUCED 1
#define mc_property c10_property
#define mc_worker_init c10_worker_init
#define mc_run c10_run
#include "c10.c"
#include <syslog.h>

extern unsigned long c33_messages;
void c33_log(struct loc_ctx* ctx, int priority);

static uint64_t observe(const unsigned char* p, size_t length, int verify, int* result) {
	FILE* f = lk_file(p, length);
	struct loc_database* db = NULL;
	mc_ops(1);
	*result = loc_database_new(lk_ctx, &db, f);
	uint64_t h = *result ? 0 : exercise(db, verify);
	if (!*result)
		loc_database_unref(db);
	fclose(f);
	return h;
}

static void hook(const unsigned char* p, size_t length, int verify) {
	int r[2];
	uint64_t h[2];
	for (int i = 0; i < 2; i++) {
		c33_log(lk_ctx, i ? LOG_DEBUG : -1);
		h[i] = observe(p, length, verify, &r[i]);
	}
	c33_log(lk_ctx, -1);
	mc_assert(r[0] == r[1], "opening a file gives %d without and %d with logging", r[0], r[1]);
	mc_assert(h[0] == h[1], "a file is read differently with logging");
	mc_state(mc_hash(h[0], &c33_messages, sizeof(c33_messages)));
}

void c33_files_init(void) { init(); }
void c33_files(void) {
	c10_attempt = hook;
	c10_run();
}
