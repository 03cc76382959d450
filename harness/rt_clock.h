/* The rate limiter built twice, over stand-ins for the clock and the waits. */
#ifndef RT_CLOCK_H
#define RT_CLOCK_H
#include <time.h>
#include <sys/time.h>
struct my_rate;
struct rt_api { struct my_rate *(*init)(unsigned, unsigned); void (*destroy)(struct my_rate **); void (*sleep)(struct my_rate *); };
extern const struct rt_api rt_absolute, rt_relative;
extern struct timespec rt_now;		/* the time it is */
extern long rt_late, rt_breaks, rt_waits;	/* parts the next wait ends late; how often it is interrupted; waits so far */
int rt_gettime(clockid_t c, struct timespec *t);
int rt_timeofday(struct timeval *t, void *z);
int rt_nanosleep(const struct timespec *t, struct timespec *left);
int rt_until(clockid_t c, int flags, const struct timespec *t, struct timespec *left);
#endif
