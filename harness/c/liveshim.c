/*
	Lets scripts in Lua and Perl ask for the number of bytes that are allocated:
	by os.clock() in Lua and getppid() in Perl. getpriority() lets allocations fail in Perl.
*/
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stddef.h>
#include <stdlib.h>
#include <time.h>
#include <sys/types.h>

extern size_t __sanitizer_get_current_allocated_bytes(void);

clock_t clock(void) {
	return __sanitizer_get_current_allocated_bytes() * CLOCKS_PER_SEC;
}

pid_t getppid(void) {
	return __sanitizer_get_current_allocated_bytes();
}

int getpriority(int which, unsigned int who) {
	static void (*arm)(long, int);
	static int (*disarm)(void);
	if (!disarm) {
		void* h = getenv("LIBOOM") ? dlopen(getenv("LIBOOM"), RTLD_LAZY|RTLD_NOLOAD) : NULL;
		if (!h)
			abort();
		arm = dlsym(h, "oom_arm");
		disarm = dlsym(h, "oom_disarm");
	}
	if (which)
		return disarm();
	arm(who, 1);
	return 0;
}
