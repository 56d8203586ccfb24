/*
	Linked into libloc.so for checks of the bindings: any one allocation of the library, of
	the binding or of Python can be made to fail
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static long countdown = -1;
static int burst;
static int fired, fired_py;

/* 0: nothing failed, 1: an allocation of the library or of a binding, 2: one of Python's */
/* Fails the n-th allocation from now on (counting from zero), and those that follow */
__attribute__((visibility("default"))) void oom_arm(long n, int count) {
	fired = fired_py = 0;
	burst = count;
	countdown = n;
}

__attribute__((visibility("default"))) int oom_disarm(void) {
	countdown = -1;
	return fired ? 1 + fired_py : 0;
}

static int no_memory(void) {
	if (countdown < 0)
		return 0;
	if (countdown) {
		countdown--;
		return 0;
	}
	fired++;
	if (!--burst)
		countdown = -1;
	errno = ENOMEM;
	return 1;
}

#define W(decl) __attribute__((visibility("default"))) decl
W(void* __wrap_malloc(size_t n)) { return no_memory() ? NULL : malloc(n); }
W(void* __wrap_calloc(size_t n, size_t m)) { return no_memory() ? NULL : calloc(n, m); }
W(void* __wrap_realloc(void* p, size_t n)) { return n && no_memory() ? NULL : realloc(p, n); }
W(void* __wrap_reallocarray(void* p, size_t n, size_t m)) { return n && no_memory() ? NULL : reallocarray(p, n, m); }
W(char* __wrap_strdup(const char* s)) { return no_memory() ? NULL : strdup(s); }
W(char* __wrap___strdup(const char* s)) { return no_memory() ? NULL : strdup(s); }
W(char* __wrap_strndup(const char* s, size_t n)) { return no_memory() ? NULL : strndup(s, n); }
W(int __wrap_vasprintf(char** p, const char* f, va_list a)) { return no_memory() ? -1 : vasprintf(p, f, a); }
W(int __wrap_asprintf(char** p, const char* f, ...)) {
	if (no_memory())
		return -1;
	va_list a;
	va_start(a, f);
	int r = vasprintf(p, f, a);
	va_end(a);
	return r;
}
/* Scripts open "oom:N" to let the N-th allocation fail, and "oom:?" to learn whether one has failed */
W(FILE* __wrap_fopen(const char* p, const char* m)) {
	if (p && strncmp(p, "oom:", 4) == 0) {
		if (p[4] == '?')
			errno = oom_disarm() ? E2BIG : EDOM;
		else {
			oom_arm(atol(p + 4), 1);
			errno = EDOM;
		}
		return NULL;
	}
	return no_memory() ? NULL : fopen(p, m);
}
W(FILE* __wrap_fdopen(int fd, const char* m)) { return no_memory() ? NULL : fdopen(fd, m); }

/* Python's allocators */
typedef struct {
	void* ctx;
	void* (*malloc)(void*, size_t);
	void* (*calloc)(void*, size_t, size_t);
	void* (*realloc)(void*, void*, size_t);
	void (*free)(void*, void*);
} Allocator;
static Allocator real[3];

static void* py_malloc(void* c, size_t n) { Allocator* a = c; return no_memory() ? (fired_py = 1, NULL) : a->malloc(a->ctx, n); }
static void* py_calloc(void* c, size_t n, size_t m) { Allocator* a = c; return no_memory() ? (fired_py = 1, NULL) : a->calloc(a->ctx, n, m); }
static void* py_realloc(void* c, void* p, size_t n) { Allocator* a = c; return no_memory() ? (fired_py = 1, NULL) : a->realloc(a->ctx, p, n); }
static void py_free(void* c, void* p) { Allocator* a = c; a->free(a->ctx, p); }

__attribute__((visibility("default"))) int oom_python(void) {
	void (*get)(int, Allocator*) = dlsym(RTLD_DEFAULT, "PyMem_GetAllocator");
	void (*set)(int, Allocator*) = dlsym(RTLD_DEFAULT, "PyMem_SetAllocator");
	if (!get || !set)
		return 1;
	for (int i = 0; i < 3; i++) {
		get(i, &real[i]);
		Allocator a = { &real[i], py_malloc, py_calloc, py_realloc, py_free };
		set(i, &a);
	}
	return 0;
}
