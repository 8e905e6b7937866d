/* Linked into the checked binary: makes the clock an input (env MC_TIME). */
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
static time_t now(void) { const char *p = getenv("MC_TIME"); return p ? (time_t)atoll(p) : (time_t)1700000000; }
time_t __wrap_time(time_t *t) { time_t n = now(); if (t) *t = n; return n; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { (void)tz; if (tv) { tv->tv_sec = now(); tv->tv_usec = 0; } return 0; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { ts->tv_sec = now(); ts->tv_nsec = 0; return 0; }
	return __real_clock_gettime(c, ts);
}

#ifdef __SANITIZE_ADDRESS__
/* what is not freed before exit is of no interest */
const char *__asan_default_options(void);
const char *
__asan_default_options(void)
{
	return ("detect_leaks=0:abort_on_error=0:exitcode=99");
}
#endif
