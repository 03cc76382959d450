/* Included before the queue sources: their library calls and barriers become scheduling points. */
#ifndef QHOOK_H
#define QHOOK_H
#include <pthread.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "libmy/my_memory_barrier.h"
void *hq_memcpy(void *, const void *, size_t);
void *hq_calloc(size_t, size_t);
void *hq_malloc(size_t);
void *hq_realloc(void *, size_t);
void hq_free(void *);
void hq_barrier(void);
int hq_lock(pthread_mutex_t *);
int hq_trylock(pthread_mutex_t *);
int hq_unlock(pthread_mutex_t *);
#undef memcpy
#define memcpy hq_memcpy
#define memmove hq_memcpy
#define calloc hq_calloc
#define malloc hq_malloc
#define realloc hq_realloc
#define free hq_free
#define pthread_mutex_lock hq_lock
#define pthread_mutex_trylock hq_trylock
#define pthread_mutex_unlock hq_unlock
#ifdef MY_HAVE_MEMORY_BARRIERS
# undef smp_mb
# undef smp_rmb
# undef smp_wmb
# define smp_mb() hq_barrier()
# define smp_rmb() ((void)0)
# define smp_wmb() hq_barrier()
#endif
#endif
