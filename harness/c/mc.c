#define _GNU_SOURCE
#include <errno.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "mc.h"

#define MAXC 16384
#define MAXW 64
#define SETBITS 23
#define SAMPLES 4

int mc_thorough = 0;
int mc_noting = 0;
__attribute__((weak)) void (*mc_worker_init)(void) = NULL;

struct worker {
	volatile uint64_t beat;
	volatile int failed;
	volatile int done;
	volatile int timeout;
	volatile int depth;
	uint64_t execs, ops, checks;
	int maxdepth;
	int nsamples;
	char samples[SAMPLES][1024];
	char msg[8192];
	uint16_t c[MAXC];
	uint16_t n[MAXC];
};

static struct shm {
	volatile int stop;
	_Atomic uint64_t states;
	_Atomic uint64_t full;
	struct worker w[MAXW];
	_Atomic uint64_t set[1UL << SETBITS];
} *shm;

static struct worker* me;
static int nworkers = 1, my_id = 0;
static uint64_t shard_counter;
static int prefix_len;
static int depth;
static jmp_buf prune_env;
static char note[16384];
static size_t note_len;
static int replaying;
static int mc_replay_len;
static double deadline = 0;

static double now(void) {
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

int mc_choose(int n) {
	if (n <= 0)
		mc_abort("mc_choose(%d)", n);
	if (depth >= MAXC)
		mc_abort("more than %d decisions in one execution", MAXC);
	if (replaying) {
		if (depth >= mc_replay_len)
			me->c[depth] = 0;
		if (me->c[depth] >= n)
			mc_abort("replay: decision %d has only %d alternatives", depth, n);
		return me->c[depth++];
	}
	if (depth < prefix_len) {
		if (me->n[depth] != n)
			mc_fail("the number of alternatives of decision %d changed from %d to %d "
				"between two executions with the same decisions", depth, me->n[depth], n);
	} else {
		me->c[depth] = 0;
		me->n[depth] = n;
	}
	int r = me->c[depth++];
	me->depth = depth;
	return r;
}

void mc_prune(void) {
	if (replaying)
		return;
	longjmp(prune_env, 1);
}

void mc_shard(void) {
	if (replaying)
		return;
	if (shard_counter++ % nworkers != my_id)
		longjmp(prune_env, 1);
}

void mc_ops(unsigned n) { me->ops += n; }
void mc_checks(unsigned n) { me->checks += n; }

void mc_state(uint64_t h) {
	if (!h)
		h = 1;
	uint64_t i = (h * 0x9E3779B97F4A7C15ULL) >> (64 - SETBITS);
	for (int probe = 0; probe < 512; probe++) {
		uint64_t v = atomic_load_explicit(&shm->set[i], memory_order_relaxed);
		if (v == h)
			return;
		if (v == 0) {
			uint64_t zero = 0;
			if (atomic_compare_exchange_strong(&shm->set[i], &zero, h)) {
				atomic_fetch_add(&shm->states, 1);
				return;
			}
			if (zero == h)
				return;
		}
		i = (i + 1) & ((1UL << SETBITS) - 1);
	}
	// The table is full here: not counted (the count is a lower bound)
	atomic_fetch_add(&shm->full, 1);
}

uint64_t mc_hash(uint64_t h, const void* data, size_t length) {
	const unsigned char* p = data;
	for (size_t i = 0; i < length; i++) {
		h ^= p[i];
		h *= 0x100000001b3ULL;
	}
	return h;
}

void mc_note(const char* fmt, ...) {
	if (!mc_noting || note_len >= sizeof(note) - 1)
		return;
	va_list ap;
	va_start(ap, fmt);
	int r = vsnprintf(note + note_len, sizeof(note) - note_len, fmt, ap);
	va_end(ap);
	if (r > 0)
		note_len += r;
	if (note_len > sizeof(note) - 1)
		note_len = sizeof(note) - 1;
}

void mc_fail(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(me->msg, sizeof(me->msg), fmt, ap);
	va_end(ap);
	me->failed = 1;
	if (replaying) {
		printf("%s\nVIOLATED: %s\n", note, me->msg);
		fflush(stdout);
	}
	_exit(42);
}

void mc_abort(const char* fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "HARNESS ERROR: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	va_end(ap);
	_exit(43);
}

int mc_fast_sprintf(char* s, const char* fmt, ...) {
	static const char hex[] = "0123456789abcdef";
	va_list ap;
	va_start(ap, fmt);
	int r;
	if (strcmp(fmt, " %02x") == 0) {
		unsigned v = va_arg(ap, unsigned);
		if (v < 256) {
			s[0] = ' '; s[1] = hex[v >> 4]; s[2] = hex[v & 15]; s[3] = 0;
			va_end(ap);
			return 3;
		}
		va_end(ap);
		va_start(ap, fmt);
	} else if (strcmp(fmt, "%04x ") == 0) {
		unsigned v = va_arg(ap, unsigned);
		if (v < 65536) {
			for (int i = 0; i < 4; i++)
				s[i] = hex[(v >> (12 - 4 * i)) & 15];
			s[4] = ' '; s[5] = 0;
			va_end(ap);
			return 5;
		}
		va_end(ap);
		va_start(ap, fmt);
	}
	r = vsprintf(s, fmt, ap);
	va_end(ap);
	return r;
}

static int want_sample(uint64_t i) {
	return i == 0 || i == 7 || i == 500 || i == 20000;
}

static int worker(int id) {
	me = &shm->w[id];
	my_id = id;
	if (mc_worker_init)
		mc_worker_init();

	prefix_len = 0;
	while (!shm->stop) {
		if (deadline && now() > deadline) {
			me->timeout = 1;
			break;
		}
		depth = 0;
		note_len = 0;
		note[0] = 0;
		mc_noting = (id == 0 || id == nworkers / 2) && want_sample(me->execs) && me->nsamples < SAMPLES;
		me->beat++;
		if (!setjmp(prune_env)) {
			mc_run();
			me->execs++;
			if (depth > me->maxdepth)
				me->maxdepth = depth;
			if (mc_noting && note_len) {
				strncpy(me->samples[me->nsamples], note, sizeof(me->samples[0]) - 1);
				me->nsamples++;
			}
		}
		// Next decision sequence
		int i = depth - 1;
		while (i >= 0 && me->c[i] + 1 >= me->n[i])
			i--;
		if (i < 0)
			break;
		me->c[i]++;
		prefix_len = i + 1;
	}
	me->done = 1;
	_exit(0);
}

static void json_string(FILE* f, const char* s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\')
			fprintf(f, "\\%c", c);
		else if (c == '\n')
			fputs("\\n", f);
		else if (c < 0x20 || c >= 0x7f)
			fprintf(f, "\\u%04x", c);
		else
			fputc(c, f);
	}
	fputc('"', f);
}

static void write_path(FILE* f, struct worker* w) {
	fputc('[', f);
	for (int i = 0; i < w->depth; i++)
		fprintf(f, "%s%u", i ? "," : "", w->c[i]);
	fputc(']', f);
}

static int replay(const char* path, int limit) {
	// The path: decisions separated by commas
	replaying = 1;
	mc_noting = 1;
	me = &shm->w[0];
	int n = 0;
	const char* p = path;
	while (*p) {
		char* end;
		long v = strtol(p, &end, 10);
		if (end == p)
			break;
		me->c[n++] = v;
		p = (*end == ',') ? end + 1 : end;
	}
	if (mc_worker_init)
		mc_worker_init();
	// Decisions are taken from the record; the numbers of alternatives are not checked
	mc_replay_len = n;
	if (limit)
		alarm(limit);
	prefix_len = 0;
	depth = 0;
	if (!setjmp(prune_env))
		mc_run();
	printf("%s\nHELD\n", note);
	return 0;
}
int main(int argc, char** argv) {
	const char* out = NULL;
	const char* path = NULL;
	int hang = 20;

	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--jobs")) nworkers = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--out")) out = argv[++i];
		else if (!strcmp(argv[i], "--thorough")) mc_thorough = 1;
		else if (!strcmp(argv[i], "--replay")) path = argv[++i];
		else if (!strcmp(argv[i], "--hang")) hang = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--deadline")) deadline = now() + atof(argv[++i]);
		else { fprintf(stderr, "unknown option %s\n", argv[i]); return 2; }
	}
	if (nworkers > MAXW)
		nworkers = MAXW;

	shm = mmap(NULL, sizeof(*shm), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (shm == MAP_FAILED) {
		perror("mmap");
		return 2;
	}

	if (path) {
		int r = replay(path, hang);
		fflush(stdout);
		_exit(r);
	}

	pid_t pids[MAXW];
	uint64_t beats[MAXW] = { 0 };
	double since[MAXW];
	int status[MAXW];
	int alive = nworkers;
	fflush(stdout);
	for (int i = 0; i < nworkers; i++) {
		since[i] = now();
		pids[i] = fork();
		if (pids[i] < 0) {
			perror("fork");
			return 2;
		}
		if (!pids[i])
			worker(i);
	}
	int bad = -1, error = 0;
	const char* kind = NULL;
	char kindbuf[128];
	while (alive) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			int i;
			for (i = 0; i < nworkers; i++)
				if (pids[i] == p)
					break;
			if (i == nworkers)
				continue;
			alive--;
			pids[i] = 0;
			status[i] = st;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->w[i].done)
				continue;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 43) {
				error = 1;
				shm->stop = 1;
				continue;
			}
			if (bad < 0) {
				bad = i;
				if (shm->w[i].failed)
					kind = "check";
				else if (WIFSIGNALED(st)) {
					snprintf(kindbuf, sizeof(kindbuf), "killed by signal %d (%s)",
						WTERMSIG(st), strsignal(WTERMSIG(st)));
					kind = kindbuf;
				} else {
					snprintf(kindbuf, sizeof(kindbuf), "crashed (exit code %d)", WEXITSTATUS(st));
					kind = kindbuf;
				}
				shm->stop = 1;
			}
			continue;
		}
		usleep(10000);
		double t = now();
		for (int i = 0; i < nworkers; i++) {
			if (!pids[i])
				continue;
			if (shm->w[i].beat != beats[i]) {
				beats[i] = shm->w[i].beat;
				since[i] = t;
			} else if (t - since[i] > hang) {
				kill(pids[i], SIGKILL);
				if (bad < 0) {
					bad = i;
					kind = "hang";
				}
				shm->stop = 1;
				since[i] = t + 1e9;
			}
		}
	}
	(void)status;

	FILE* f = out ? fopen(out, "w") : stdout;
	if (!f) {
		perror(out);
		return 2;
	}
	uint64_t execs = 0, ops = 0, checks = 0;
	int maxdepth = 0, timeout = 0;
	for (int i = 0; i < nworkers; i++) {
		execs += shm->w[i].execs;
		ops += shm->w[i].ops;
		checks += shm->w[i].checks;
		if (shm->w[i].maxdepth > maxdepth)
			maxdepth = shm->w[i].maxdepth;
		timeout |= shm->w[i].timeout;
	}
	fprintf(f, "{\"executions\": %lu, \"ops\": %lu, \"checks\": %lu, \"states\": %lu, \"uncounted\": %lu, "
		"\"max_decisions\": %d, \"complete\": %s, \"error\": %s,\n \"samples\": [",
		execs, ops, checks, (unsigned long)shm->states, (unsigned long)shm->full, maxdepth,
		(timeout || bad >= 0 || error) ? "false" : "true", error ? "true" : "false");
	int first = 1;
	for (int i = 0; i < nworkers; i++) {
		for (int j = 0; j < shm->w[i].nsamples; j++) {
			if (!first)
				fputs(",\n  ", f);
			first = 0;
			json_string(f, shm->w[i].samples[j]);
		}
	}
	fprintf(f, "],\n \"violation\": ");
	if (bad >= 0) {
		fprintf(f, "{\"kind\": ");
		json_string(f, kind);
		fprintf(f, ", \"message\": ");
		json_string(f, shm->w[bad].msg);
		fprintf(f, ", \"path\": ");
		write_path(f, &shm->w[bad]);
		fprintf(f, "}");
	} else
		fprintf(f, "null");
	fprintf(f, "}\n");
	if (out)
		fclose(f);
	if (error)
		return 2;
	return bad >= 0 ? 1 : 0;
}
