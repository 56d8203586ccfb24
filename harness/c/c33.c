/*
	C33: log messages go exactly where they are wanted, and logging changes nothing

	The library is built with debug messages. C31's programs, which use all of the
	API, and some more are run at every priority; the messages of one priority must
	be those of the debug priority that are not less important, and the transcripts
	must be the same.
*/
#define mc_property c31_property
#define mc_worker_init c31_worker_init
#define mc_run c31_run
#include "c31.c"
#undef mc_property
#undef mc_worker_init
#undef mc_run
#include <arpa/nameser.h>
#include <ctype.h>
#include <openssl/err.h>
#include <resolv.h>
#include <libloc/resolv.h>
#include <syslog.h>

const char* mc_property = "C33";

void c33_files_init(void);
void c33_files(void);

/*
	Messages
*/
// Per priority: how many messages, and which, that are not less important
#define LEVELS 10			// -1 to 8
static struct { int n; uint64_t which; } msgs[LEVELS], all[LEVELS];
static int nmsgs;
unsigned long c33_messages;
static struct loc_ctx* want_ctx;
static void* want_data;
static int want_priority;
static char tag_a, tag_b;
static int evaluate = 1;			// format the messages?

static void receive(struct loc_ctx* ctx, void* data, int priority, const char* source, int line,
		const char* fn, const char* format, va_list args) {
	static char buffer[8192];
	c33_messages++;
	if (!(ctx == want_ctx))
		mc_fail("a message was logged with another context");
	if (!(data == want_data))
		mc_fail("a message was logged with other data than were registered");
	if (!(priority <= want_priority))
		mc_fail("a message of priority %d was logged although only messages up to %d are wanted", priority, want_priority);
	if (!(source && fn && format))
		mc_fail("a message has no origin");
	if (evaluate)
		vsnprintf(buffer, sizeof(buffer), format, args);
	uint64_t h = mc_hash(MC_HASH_INIT, fn, strlen(fn));
	h = mc_hash(mc_hash(h, &line, sizeof(line)), &priority, sizeof(priority));
	for (int l = 0; l < LEVELS; l++)
		if (priority <= l - 1) {
			msgs[l].n++;
			msgs[l].which = mc_hash(msgs[l].which, &h, sizeof(h));
		}
	nmsgs++;
}
static void forget(void) {
	nmsgs = 0;
	memset(msgs, 0, sizeof(msgs));
}
static void receive_a(struct loc_ctx* ctx, void* data, int priority, const char* source, int line, const char* fn, const char* format, va_list args) {
	mc_assert(data == &tag_a, "the callback got the data of another one");
	receive(ctx, data, priority, source, line, fn, format, args);
}
static void receive_b(struct loc_ctx* ctx, void* data, int priority, const char* source, int line, const char* fn, const char* format, va_list args) {
	mc_assert(data == &tag_b, "the callback got the data of another one");
	receive(ctx, data, priority, source, line, fn, format, args);
}
static void listen_with(struct loc_ctx* ctx, int b) {
	loc_set_log_callback(ctx, b ? receive_b : receive_a, b ? &tag_b : &tag_a);
	want_ctx = ctx;
	want_data = b ? &tag_b : &tag_a;
}
static void set_priority(struct loc_ctx* ctx, int priority) {
	want_priority = priority;
	loc_set_log_priority(ctx, priority);
	mc_assert(loc_get_log_priority(ctx) == priority, "the priority is %d instead of %d", loc_get_log_priority(ctx), priority);
}
// (for the other file)
void c33_log(struct loc_ctx* ctx, int priority) {
	forget();
	c33_messages = 0;
	listen_with(ctx, 0);
	set_priority(ctx, priority);
}

/*
	Standard error
*/
static int saved_stderr = -1, stderr_fd;
static void catch_stderr(void) {
	fflush(stderr);
	saved_stderr = dup(2);
	stderr_fd = memfd_create("stderr", MFD_CLOEXEC);
	if (saved_stderr < 0 || stderr_fd < 0 || dup2(stderr_fd, 2) != 2)
		mc_abort("stderr");
}
// Returns the number of messages
static int release_stderr(void) {
	fflush(stderr);
	dup2(saved_stderr, 2);
	close(saved_stderr);
	off_t l = lseek(stderr_fd, 0, SEEK_END);
	int n = 0;
	if (l) {
		char* p = mmap(NULL, l + 1, PROT_READ, MAP_PRIVATE, stderr_fd, 0);
		if (p == MAP_FAILED)
			mc_abort("stderr");
		for (off_t i = 0; i + 8 <= l; i++)
			if ((!i || p[i - 1] == '\n') && !memcmp(p + i, "libloc: ", 8))
				n++;
		munmap(p, l + 1);
		if (!n)
			n = -1;
	}
	close(stderr_fd);
	return n;
}

/*
	More programs
*/
static const char* dns_text;
static int dns_kind;
static int query(const char* d, int class, int type, unsigned char* answer, int size) {
	if (dns_kind == 0) {
		errno = ECONNREFUSED;
		return -1;
	}
	unsigned char* p = answer;
	memset(p, 0, 12);
	p[2] = 0x81; p[3] = 0x80; p[5] = 1; p[7] = 1;
	p += 12;
	p += dn_comp(d, p, 200, NULL, NULL);
	NS_PUT16(dns_kind == 1 ? T_A : T_TXT, p);
	NS_PUT16(C_IN, p);
	p += dn_comp(d, p, 200, NULL, NULL);
	NS_PUT16(dns_kind == 2 ? T_A : T_TXT, p);
	NS_PUT16(C_IN, p);
	NS_PUT32(300, p);
	int l = strlen(dns_text);
	NS_PUT16(dns_kind == 3 ? 5000 : l + 1, p);
	*p++ = dns_kind == 4 ? 255 : l;
	memcpy(p, dns_text, l);
	return dns_kind == 5 ? 16 : p + l - answer;
}
int __wrap_res_init(void) { return dns_kind == 6 ? -1 : 0; }
int __wrap___res_init(void) { return dns_kind == 6 ? -1 : 0; }
int __wrap_res_query(const char* d, int c, int t, unsigned char* a, int l) { return query(d, c, t, a, l); }
int __wrap___res_query(const char* d, int c, int t, unsigned char* a, int l) { return query(d, c, t, a, l); }

static void p_discover(void) {
	static const char* texts[] = { "Mon, 20 Apr 2020 15:30:00 GMT", "", "Mon, 20 Apr 2020 15:30:00 GMT %s%n%s", "x" };
	for (int v = 0; v < 3; v++)
		for (dns_kind = 0; dns_kind < 9; dns_kind++)
			for (int i = 0; i < 4; i++) {
				dns_text = texts[i];
				time_t t = 0;
				int r = loc_discover_latest_version(lk_ctx, v == 2 ? 4294967295u : v, &t);
				say("%d %ld\n", !!r, r ? 0 : (long)t);
			}
	dns_kind = 7;
}

// Everything that is refused
static void p_refused(void) {
	static const char* nets[] = { "", "x", "10.0.0.0/33", "::/129", "10.0.0.0/", "10.0.0.0/x", "%s%n/%s", "2001:db8::/-1", "10.0.0.0/8/8",
		"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa" };
	struct loc_writer* w = NULL;
	if (loc_writer_new(lk_ctx, &w, NULL, NULL))
		mc_fail("loc_writer_new() failed");
	for (int i = 0; i < 10; i++) {
		struct loc_network* n = NULL;
		int r = loc_network_new_from_string(lk_ctx, &n, nets[i]);
		say("%d ", !!r);
		if (!r)
			loc_network_unref(n);
		n = NULL;
		r = loc_writer_add_network(w, &n, nets[i]);
		say("%d ", !!r);
		if (!r)
			loc_network_unref(n);
		struct loc_country* c = NULL;
		r = loc_country_new(lk_ctx, &c, nets[i]);
		say("%d ", !!r);
		if (!r)
			loc_country_unref(c);
		c = NULL;
		r = loc_writer_add_country(w, &c, nets[i]);
		say("%d\n", !!r);
		if (!r)
			loc_country_unref(c);
	}
	FILE* f = lk_file("", 0);
	say("%d\n", !!loc_writer_write(w, f, 99));
	fclose(f);
	f = lk_file("no key", 6);
	struct loc_writer* k = NULL;
	say("%d\n", !!loc_writer_new(lk_ctx, &k, f, NULL));
	ERR_clear_error();		// (OpenSSL remembers its last errors)
	fclose(f);
	// An output that fails
	f = fopen("/dev/full", "w");
	if (!f)
		f = fopen("/dev/null", "r");
	say("%d\n", !!loc_writer_write(w, f, 1));
	fclose(f);
	loc_writer_unref(w);
	// Files that are none, and one that ends too early
	static const char* files[] = { "", "LOCDBXX", "LOCDBXX\1", "LOCDBXX\2 and more and more" };
	for (int i = 0; i < 4; i++) {
		struct loc_database* db = NULL;
		f = lk_file(files[i], strlen(files[i]));
		say("%d\n", !!loc_database_new(lk_ctx, &db, f));
		fclose(f);
	}
}

// Networks with all and with none of the properties
static void p_networks_written(void) {
	struct loc_writer* w = NULL;
	int r = loc_writer_new(lk_ctx, &w, NULL, NULL);
	if (r)
		mc_fail("loc_writer_new() failed");
	static const char* nets[] = { "0.0.0.0/0", "::/0", "10.0.0.0/8", "10.0.0.0/9", "10.128.0.0/9", "2001:db8::/32", "2001:db8::1/128", "255.255.255.255/32" };
	for (int i = 0; i < 8; i++) {
		struct loc_network* n = NULL;
		r = loc_writer_add_network(w, &n, nets[i]);
		say("%d\n", r);
		if (r)
			continue;
		if (i % 2)
			loc_network_set_country_code(n, "DE");
		if (i % 3)
			loc_network_set_asn(n, i);
		if (i % 5)
			loc_network_set_flag(n, 1 << i);
		loc_network_unref(n);
	}
	struct loc_database* db = lk_open_writer(w);
	static const char* addresses[] = { "10.0.0.1", "::", "2001:db8::1", "255.255.255.255", "x", "1.2.3", "" };
	for (int i = 0; i < 7; i++) {
		struct loc_network* n = NULL;
		r = loc_database_lookup_from_string(db, addresses[i], &n);
		say("%s: %d\n", addresses[i], !!r);
		say_net("lookup", r ? NULL : n);
		if (!r)
			loc_network_unref(n);
	}
	loc_database_unref(db);
	loc_writer_unref(w);
}

static const struct { const char* name; void (*run)(void); } more[] = {
	{ "discovery", p_discover }, { "refusals", p_refused }, { "networks", p_networks_written },
};
#define NMORE ((int)(sizeof(more) / sizeof(*more)))
#define NALL (NPROGRAMS + NMORE)

static int switch_at = -1, calls;

static void run_any(int p) {
	if (p < NPROGRAMS) {
		run(p);
		return;
	}
	during = more[p - NPROGRAMS].name;
	length = 0;
	*text = 0;
	allocs = failures = 0;
	more[p - NPROGRAMS].run();
}

static const int priorities[] = { -2147483647 - 1, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 2147483647 };
#define NPRIORITIES 13

static void reference(int p) {
	static int current = -1;
	if (current == p)
		return;
	armed = 0;
	c33_log(lk_ctx, -1);
	run_any(p);		// (may allocate things that are kept)
	c33_log(lk_ctx, LOG_DEBUG);
	run_any(p);
	memcpy(all, msgs, sizeof(msgs));
	c33_log(lk_ctx, LOG_ERR);
	run_any(p);
	memcpy(expected, text, length + 1);
	current = p;
}

static int level(int priority) { return priority < -1 ? 0 : priority > 8 ? 9 : priority + 1; }

static void compare(int priority) {
	int l = level(priority);
	// (nothing that is more important than debug messages is lost at the debug priority)
	mc_assert(nmsgs == msgs[l].n, "%s: a message was logged that nobody wants", during);
	mc_assert(nmsgs == all[l].n, "%s: %d messages instead of %d were logged at priority %d", during, nmsgs, all[l].n, priority);
	mc_assert(msgs[l].which == all[l].which, "%s: other messages are logged at priority %d", during, priority);
	mc_assert(!strcmp(text, expected), "%s: different results at priority %d", during, priority);
	mc_state(mc_hash(MC_HASH_INIT, &msgs[l], sizeof(msgs[l])));
}

static void init33(void) {
	c33_files_init();
	init();
	reference(NPROGRAMS);
}
void (*mc_worker_init)(void) = init33;

// Every program at every priority
static void mode_programs(void) {
	int p = mc_choose(NALL);
	int priority = priorities[mc_choose(NPRIORITIES)];
	int where = mc_choose(2);			// a callback, or standard error
	mc_shard();
	reference(p);
	long live = lk_live_allocs;
	c33_log(lk_ctx, priority);
	mc_note("%s at priority %d, %s", p < NPROGRAMS ? programs[p].name : more[p - NPROGRAMS].name, priority, where ? "standard error" : "a callback");
	if (!where) {
		run_any(p);
		compare(priority);
	} else {
		// The context's own way to log
		struct loc_ctx* ctx = NULL;
		int r = loc_new(&ctx);
		if (r)
			mc_fail("loc_new() failed");
		struct loc_ctx* old = lk_ctx;
		lk_ctx = ctx;
		loc_set_log_priority(ctx, priority);
		catch_stderr();
		run_any(p);
		int n = release_stderr();
		loc_set_log_priority(ctx, -1);
		lk_ctx = old;
		loc_unref(ctx);
		mc_assert(n == all[level(priority)].n, "%s: %d messages instead of %d were written to standard error at priority %d", during, n, all[level(priority)].n, priority);
		mc_assert(!strcmp(text, expected), "%s: different results at priority %d", during, priority);
		mc_assert(nmsgs == 0, "%d messages of one context were logged by another one", nmsgs);
		mc_state(mc_hash(MC_HASH_INIT, &n, sizeof(n)));
	}
	mc_assert(lk_live_allocs == live, "%s: %ld allocations are left at priority %d", during, lk_live_allocs - live, priority);
}

// Single operations of objects with changes of the callback and the priority in between: all sequences
static void mode_changes(void) {
	enum { LOG_A, LOG_B, LEVEL, OPERATION = LEVEL + 4, KINDS = OPERATION + 3 };
	int n = mc_thorough ? 6 : 5, seq[6];
	for (int i = 0; i < n; i++)
		seq[i] = mc_choose(KINDS);
	mc_shard();
	struct loc_ctx* ctx = lk_new_ctx();
	struct loc_ctx* other = lk_new_ctx();
	loc_set_log_priority(other, -1);
	forget();
	listen_with(ctx, 0);
	set_priority(ctx, LOG_ERR);
	struct loc_network* net = NULL;
	static int counts[3][9];
	for (int i = 0; i < n; i++) {
		int k = seq[i];
		mc_note("%d ", k);
		if (k <= LOG_B)
			listen_with(ctx, k);
		else if (k < OPERATION) {
			static const int L[] = { -1, LOG_ERR, LOG_INFO, LOG_DEBUG };
			set_priority(ctx, L[k - LEVEL]);
			// Another context is not affected
			mc_assert(loc_get_log_priority(other) == -1, "the priority of another context changed to %d", loc_get_log_priority(other));
		} else {
			forget();
			struct loc_network* x = NULL;
			struct loc_as_list* l = NULL;
			FILE* f;
			struct loc_database* db = NULL;
			mc_ops(1);
			switch (k - OPERATION) {
				case 0:
					if (loc_network_new_from_string(ctx, &x, "10.0.0.0/8"))
						mc_fail("a network was refused");
					loc_network_unref(x);
					break;
				case 1:
					if (!loc_network_new_from_string(ctx, &x, "10.0.0.0/80"))
						mc_fail("a network was created");
					break;
				case 2:
					f = lk_file("nothing", 7);
					if (!loc_database_new(ctx, &db, f))
						mc_fail("nothing was opened");
					fclose(f);
					break;
			}
			// The number of messages depends on the priority only
			int* c = &counts[k - OPERATION][want_priority + 1];
			mc_assert(!*c || *c == nmsgs + 1, "operation %d logs %d messages at priority %d instead of %d", k - OPERATION, nmsgs, want_priority, *c - 1);
			*c = nmsgs + 1;
			uint64_t h = mc_hash(MC_HASH_INIT, &k, sizeof(k));
			h = mc_hash(h, &want_priority, sizeof(want_priority));
			mc_state(mc_hash(h, msgs, sizeof(msgs)));
		}
	}
	loc_unref(ctx);
	loc_unref(other);
}

// Any allocation fails while everything is logged
static void mode_faults(void) {
	static int sizes[NPROGRAMS];
	int p = mc_choose(NPROGRAMS);
	if (!sizes[p]) {
		armed = 0;
		c33_log(lk_ctx, -1);
		run(p);
		run(p);
		sizes[p] = allocs;
	}
	position = mc_choose(sizes[p]);
	lasting = mc_thorough ? mc_choose(2) : 0;
	second = 0;
	// (many positions are alike)
	if (!mc_thorough && sizes[p] > 2000 && position % 5)
		mc_prune();
	mc_shard();
	reference(p);
	long live = lk_live_allocs;
	c33_log(lk_ctx, LOG_DEBUG);
	evaluate = 1;
	armed = 1;
	run(p);
	armed = 0;
	c33_log(lk_ctx, -1);
	mc_note("%s: allocation %d of %d fails%s", during, position, sizes[p], lasting ? " and all others during the same call" : "");
	mc_assert(!strcmp(text, expected), "%s: different results when allocation %d fails and everything is logged", during, position);
	mc_assert(lk_live_allocs == live, "%s: %ld allocations are left when allocation %d fails", during, lk_live_allocs - live, position);
	uint64_t h = mc_hash(MC_HASH_INIT, &p, sizeof(p));
	mc_state(mc_hash(h, &position, sizeof(position)));
}

// What LOC_LOG means
static int m_priority(const char* s) {
	const char* p = s;
	while (isspace((unsigned char)*p))
		p++;
	int sign = 1, digits = 0;
	long v = 0;
	if (*p == '-' || *p == '+')
		sign = *p++ == '-' ? -1 : 1;
	for (; *p >= '0' && *p <= '9'; p++, digits++)
		v = v * 10 + *p - '0';
	if (digits && (!*p || isspace((unsigned char)*p)))
		return sign * v;
	if (!strncmp(s, "err", 3))
		return LOG_ERR;
	if (!strncmp(s, "info", 4))
		return LOG_INFO;
	if (!strncmp(s, "debug", 5))
		return LOG_DEBUG;
	return 0;
}

static void mode_environment(void) {
	static const char* tokens[] = { "0", "3", "7", "-1", "12", "err", "error", "info", "debug", "inf", "deb", "e", "DEBUG", "warning", " ", "\t", "x", "+", "," };
	char s[64] = "";
	int n = mc_choose(mc_thorough ? 5 : 4);
	for (int i = 0; i < n; i++)
		strcat(s, tokens[mc_choose(19)]);
	int set = n || mc_choose(2);
	mc_shard();
	if (set)
		setenv("LOC_LOG", s, 1);
	else
		unsetenv("LOC_LOG");
	mc_note("LOC_LOG=%s%s", set ? s : "", set ? "" : "(not set)");
	struct loc_ctx* ctx = NULL;
	catch_stderr();
	mc_ops(1);
	int r = loc_new(&ctx);
	int before = release_stderr();
	unsetenv("LOC_LOG");
	mc_assert(r == 0 && ctx, "no context was created");
	int got = loc_get_log_priority(ctx), want = set ? m_priority(s) : LOG_ERR;
	mc_assert(got == want, "LOC_LOG=\"%s\"%s gives priority %d instead of %d", s, set ? "" : " (not set)", got, want);
	if (want < LOG_INFO)
		mc_assert(before == 0, "creating a context wrote to standard error at priority %d", want);
	// An error is logged if it is wanted
	catch_stderr();
	FILE* f = lk_file("nothing", 7);
	struct loc_database* db = NULL;
	if (!loc_database_new(ctx, &db, f))
		mc_fail("nothing was opened");
	fclose(f);
	int errors = release_stderr();
	mc_assert(want >= LOG_ERR ? errors > 0 : errors == 0, "LOC_LOG=\"%s\": opening a broken file wrote %d messages", s, errors);
	// The number of messages depends on the priority only
	if (want >= -1 && want <= 12) {
		static int counts[14];
		int* c = &counts[want + 1];
		mc_assert(!*c || *c == errors + 1, "LOC_LOG=\"%s\": %d messages instead of %d", s, errors, *c - 1);
		*c = errors + 1;
	}
	loc_set_log_priority(ctx, -1);
	loc_unref(ctx);
	uint64_t h = mc_hash(MC_HASH_INIT, &got, sizeof(got));
	mc_state(mc_hash(h, &errors, sizeof(errors)));
}

void mc_run(void) {
	switch (mc_choose(5)) {
		case 0: mode_programs(); break;
		case 1: mode_changes(); break;
		case 2: mode_environment(); break;
		case 3: mode_faults(); break;
		case 4: c33_log(lk_ctx, -1); c33_files(); break;
	}
}
