/* What the rate limiter is given for a clock. */
#include <errno.h>
#include <stddef.h>
#include "rt_clock.h"
struct timespec rt_now;
long rt_late, rt_breaks, rt_waits;
static const clockid_t rt_clocks[] = { CLOCK_MONOTONIC, CLOCK_REALTIME };
int rt_gettime(clockid_t c, struct timespec *t) { if (c != rt_clocks[0] && c != rt_clocks[1]) { errno = EINVAL; return -1; } *t = rt_now; return 0; }
int rt_timeofday(struct timeval *t, void *z) { (void)z; t->tv_sec = rt_now.tv_sec, t->tv_usec = rt_now.tv_nsec / 1000; return 0; }
static void norm(struct timespec *t) { while (t->tv_nsec >= 1000000000) t->tv_sec++, t->tv_nsec -= 1000000000; }
/* waits for d, or part of it when interrupted; what is left of it */
static int wait_for(long long d, long long *left)
{
	*left = 0;
	if (d <= 0) return 0;
	rt_waits++;
	if (rt_breaks > 0) { rt_breaks--; *left = d - d / 3; d /= 3; }
	else d += rt_late;
	rt_now.tv_sec += d / 1000000000, rt_now.tv_nsec += d % 1000000000;
	norm(&rt_now);
	return *left ? EINTR : 0;
}
static int valid(const struct timespec *t) { return t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000; }
int rt_nanosleep(const struct timespec *t, struct timespec *left)
{
	long long l;
	if (!valid(t)) { errno = EINVAL; return -1; }
	if (wait_for(t->tv_sec * 1000000000LL + t->tv_nsec, &l) == 0) return 0;
	if (left) left->tv_sec = l / 1000000000, left->tv_nsec = l % 1000000000;
	errno = EINTR;
	return -1;
}
int rt_until(clockid_t c, int flags, const struct timespec *t, struct timespec *left)
{
	long long l, d = t->tv_sec * 1000000000LL + t->tv_nsec;
	int r;
	if (!valid(t)) return EINVAL;
	if (flags & TIMER_ABSTIME) d -= rt_now.tv_sec * 1000000000LL + rt_now.tv_nsec;
	r = wait_for(d, &l);
	if (r && left && !(flags & TIMER_ABSTIME)) left->tv_sec = l / 1000000000, left->tv_nsec = l % 1000000000;
	return r;
}
