/* The rate limiter over a clock of nanoseconds and waits until a time. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include "rt_clock.h"
#undef HAVE_CLOCK_GETTIME
#undef HAVE_CLOCK_NANOSLEEP
#define HAVE_CLOCK_GETTIME 1
#define HAVE_CLOCK_NANOSLEEP 1
#define clock_gettime rt_gettime
#define gettimeofday rt_timeofday
#define nanosleep rt_nanosleep
#define clock_nanosleep rt_until
#define my_rate_init rt_absolute_init
#define my_rate_destroy rt_absolute_destroy
#define my_rate_sleep rt_absolute_sleep
#include "libmy/my_rate.c"
const struct rt_api rt_absolute = { my_rate_init, my_rate_destroy, my_rate_sleep };
