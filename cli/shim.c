/* Preloaded into the tool under test: a fixed wall clock, and a fixed time zone. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
int clock_gettime(clockid_t id, struct timespec *ts) {
	const char *c = getenv("CLI_CLOCK");
	if (id == CLOCK_REALTIME && c) { ts->tv_sec = atoll(c); ts->tv_nsec = 0; return 0; }
	return syscall(SYS_clock_gettime, id, ts);
}
static int zopen(const char *p, int flags, int mode) {
	const char *z = getenv("CLI_ZONE");
	if (z && !strcmp(p, "/etc/localtime")) p = z;
	return syscall(SYS_openat, AT_FDCWD, p, flags, mode);
}
int open64(const char *p, int flags, ...) {
	va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
	return zopen(p, flags, mode);
}
int open(const char *p, int flags, ...) {
	va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
	return zopen(p, flags, mode);
}
