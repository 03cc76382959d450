/* The queue as compiled for use, with two real threads. */
#include "hcommon.h"
#include <pthread.h>
#include <sched.h>
#include "libmy/my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops, my_queue_default_ops;
static const struct my_queue_ops *ops;
static struct my_queue *q;
static long items, size, n;
static volatile bool halt;
static void *producer(void *arg)
{
	uint8_t *x = malloc(size + 8);
	unsigned long bad = 0;
	for (long i = 0; i < items; i++) {
		unsigned sp = 0;
		for (long j = 0; j < size; j++) x[j] = (i * 37 + j * 5 + (i >> 8)) & 255;
		while (!ops->insert(q, x, &sp)) { if (halt) goto out; sched_yield(); }
		bad += sp > n - 2;
	}
out:
	free(x);
	return (void *)bad;
}
/* impl n size items */
static void do_stress(void)
{
	pthread_t th;
	void *pb = NULL;
	long got = 0, bad = 0, dry = 0;
	ops = A[0].n == 0 ? &my_queue_mb_ops : A[0].n == 1 ? &my_queue_mutex_ops : &my_queue_default_ops;
	n = A[1].n, size = A[2].n, items = A[3].n, halt = false;
	uint8_t *x = malloc(size + 8);
	q = ops->init(n, size);
	pthread_create(&th, NULL, producer, NULL);
	while (got < items && bad == 0 && dry < 200000000) {
		unsigned c = 0;
		if (!ops->remove(q, x, &c)) { dry++; sched_yield(); continue; }
		dry = 0;
		bad += c > n - 2;
		for (long j = 0; j < size; j++) bad += x[j] != ((got * 37 + j * 5 + (got >> 8)) & 255);
		got++;
	}
	halt = true;
	pthread_join(th, &pb);
	if (bad == 0 && ops->remove(q, x, NULL)) got++;
	ops->destroy(&q);
	free(x);
	j_int("got", got), j_int("bad", bad + (long)pb);
}
static const struct hop OPS[] = { { "qstress", do_stress }, { NULL, NULL } };
int main(int argc, char **argv) { return h_main(argc, argv, OPS); }
