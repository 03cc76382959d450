/* Runs the queue under a controlled scheduler: the queue sources are compiled with -fsanitize=thread and this
 * file is the run-time library those calls go to, so every access to shared memory is a scheduling point. */
#include "hcommon.h"
#include <errno.h>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include "libmy/my_queue.h"

extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops, my_queue_default_ops;
static const struct my_queue_ops *impl(long i)
{
	return i == 0 ? &my_queue_mb_ops : i == 1 ? &my_queue_mutex_ops : &my_queue_default_ops;
}

/* ---- memory: every block ends at an inaccessible page ---- */
static struct blk { uint8_t *p, *map; size_t len; } blks[64];
static bool q_sparse;
static void *q_alloc(size_t n, size_t align)
{
	size_t pg = 4096, body = (n + align - 1) / align * align, len = (body + 2 * pg - 1) / pg * pg;
	uint8_t *m = mmap(NULL, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) return NULL;
	mprotect(m + len, pg, PROT_NONE);
	for (int i = 0; i < 64; i++)
		if (!blks[i].p) {
			blks[i] = (struct blk){ m + len - body, m, len + pg };
			h_live++;
			return blks[i].p;
		}
	_exit(99);
}
/* small blocks are kept for reuse: mapping is the expensive part of a run */
static struct { struct blk b; size_t n, align; } kept[8];
static void *q_get(size_t n, size_t align)
{
	for (int i = 0; i < 8; i++)
		if (kept[i].b.p && kept[i].n == n && kept[i].align == align)
			for (int j = 0; j < 64; j++)
				if (!blks[j].p) {
					blks[j] = kept[i].b;
					kept[i].b.p = NULL;
					memset(blks[j].p, 0, n);
					h_live++;
					return blks[j].p;
				}
	return q_alloc(n, align);
}
static size_t blk_n[64], blk_al[64];
static void *q_take(size_t n, size_t align)
{
	void *p = q_get(n, align);
	for (int j = 0; j < 64; j++) if (blks[j].p == p && p) blk_n[j] = n, blk_al[j] = align;
	return p;
}
void *hq_calloc(size_t a, size_t b) { return q_take(a * b, a > 1 ? 1 : 64); }
void *hq_malloc(size_t n) { uint8_t *p = q_take(n, 64); if (p && n < 65536) memset(p, 0xa5, n); return p; }
void hq_free(void *p)
{
	if (!p) return;
	for (int j = 0; j < 64; j++)
		if (blks[j].p == p) {
			h_live--;
			for (int i = 0; i < 8; i++)
				if (!kept[i].b.p && blk_n[j] < 65536) {
					kept[i].b = blks[j], kept[i].n = blk_n[j], kept[i].align = blk_al[j];
					blks[j].p = NULL;
					return;
				}
			munmap(blks[j].map, blks[j].len);
			blks[j].p = NULL;
			return;
		}
	abort();
}
void *hq_realloc(void *p, size_t n)
{
	void *q = hq_malloc(n);
	for (int j = 0; j < 64; j++) if (p && blks[j].p == p) memcpy(q, p, blk_n[j] < n ? blk_n[j] : n);
	hq_free(p);
	return q;
}

/* ---- scheduler ---- */
enum { READY, BLOCKED, DONE };
static ucontext_t uc_main, uc[2];
static char stacks[2][128 * 1024];
static int cur = -1, state[2];
static pthread_mutex_t *held[4], *want[2];
static long step, limit, writes, delay;		/* delay: the write that stays in the store buffer, or -1 */
static bool wanted_switch, stuck;
static long sched[8], nsched, pos;

/* one store of the running thread that others do not see yet */
static struct { int thread; uint8_t *a; size_t n; uint8_t v[16], old[16]; int st; } sb;	/* st: 0 none, 1 about to be stored, 2 held back */
static void sb_settle(void) { if (sb.st == 1 && sb.thread == cur) { memcpy(sb.v, sb.a, sb.n); memcpy(sb.a, sb.old, sb.n); sb.st = 2; } }
static void sb_flush(void)
{
	if (sb.st && sb.thread == cur) {
		sb_settle();
		memcpy(sb.a, sb.v, sb.n);
		sb.st = 0;
	}
}
static bool sb_hits(const void *a, size_t n) { return sb.st == 2 && sb.thread == cur && (uint8_t *)a < sb.a + sb.n && sb.a < (uint8_t *)a + n; }

static void yield(void)
{
	int t = cur;
	swapcontext(&uc[t], &uc_main);
}
static void point(void)
{
	if (cur < 0) return;
	if (++step > limit) { stuck = true; yield(); }
	if (pos < nsched && step == sched[pos]) { pos++; wanted_switch = true; yield(); }
}
static void q_read(const void *a, size_t n)
{
	if (cur < 0) return;
	sb_settle();
	if (sb_hits(a, n)) sb_flush();
	point();
}
static bool q_write(void *a, size_t n)		/* true: the caller's own store is to be held back */
{
	if (cur < 0) return false;
	sb_settle();
	if (sb_hits(a, n)) sb_flush();
	point();
	if (writes++ == delay && n <= 16) {
		sb.thread = cur, sb.a = a, sb.n = n, sb.st = 1;
		memcpy(sb.old, a, n);
		return true;
	}
	return false;
}
void hq_barrier(void) { sb_flush(); point(); }
void *hq_memcpy(void *d, const void *s, size_t n)
{
	uint8_t *x = d; const uint8_t *y = s;
	if (q_sparse) {
		size_t k = n < 16 ? n : 16;
		memmove(x, y, k), memmove(x + n - k, y + n - k, k);
		return d;
	}
	for (size_t i = 0; i < n; i++) {
		uint8_t v;
		if (cur >= 0) q_read(y + i, 1);
		v = y[i];
		q_write(x + i, 1);
		x[i] = v;
		sb_settle();
	}
	return d;
}
static int lock_try(pthread_mutex_t *m)
{
	int f = -1;
	for (int i = 0; i < 4; i++) { if (held[i] == m) return EBUSY; if (!held[i]) f = i; }
	held[f] = m;
	return 0;
}
int hq_trylock(pthread_mutex_t *m) { hq_barrier(); return lock_try(m); }
int hq_lock(pthread_mutex_t *m)
{
	hq_barrier();
	while (lock_try(m)) {
		if (cur < 0) { stuck = true; return 0; }
		state[cur] = BLOCKED, want[cur] = m;
		yield();
	}
	return 0;
}
int hq_unlock(pthread_mutex_t *m)
{
	hq_barrier();
	for (int i = 0; i < 4; i++) if (held[i] == m) held[i] = NULL;
	for (int t = 0; t < 2; t++) if (state[t] == BLOCKED && want[t] == m) state[t] = READY;
	return 0;
}

/* ---- what -fsanitize=thread calls ---- */
#define RW(n) void __tsan_read##n(void *a) { q_read(a, n); } void __tsan_write##n(void *a) { q_write(a, n); } \
	void __tsan_unaligned_read##n(void *a) { q_read(a, n); } void __tsan_unaligned_write##n(void *a) { q_write(a, n); } \
	void __tsan_volatile_read##n(void *a) { q_read(a, n); } void __tsan_volatile_write##n(void *a) { q_write(a, n); } \
	void __tsan_read##n##_pc(void *a, void *p) { q_read(a, n); } void __tsan_write##n##_pc(void *a, void *p) { q_write(a, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { q_read(a, n); }
void __tsan_write_range(void *a, size_t n) { q_write(a, n); }
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_vptr_update(void **p, void *v) { }
void __tsan_vptr_read(void **p) { }
void __tsan_atomic_thread_fence(int mo) { hq_barrier(); }
void __tsan_atomic_signal_fence(int mo) { }
#define AT(b, T) \
	T __tsan_atomic##b##_load(const volatile T *a, int mo) { hq_barrier(); return *a; } \
	void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { hq_barrier(); *a = v; } \
	T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { hq_barrier(); T o = *a; *a = v; return o; } \
	T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { hq_barrier(); T o = *a; *a = o + v; return o; } \
	T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { hq_barrier(); T o = *a; *a = o - v; return o; } \
	T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { hq_barrier(); T o = *a; *a = o & v; return o; } \
	T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { hq_barrier(); T o = *a; *a = o | v; return o; } \
	T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { hq_barrier(); T o = *a; *a = o ^ v; return o; } \
	int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { hq_barrier(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { hq_barrier(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
	T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { hq_barrier(); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)

/* ---- histories ---- */
static const struct my_queue_ops *ops;
static struct my_queue *q;
static long q_n, q_size, plan[2], item_no;
static bool q_null;
#define MAXH 4096
static int H[MAXH]; static int hn;		/* encoded: event length, then the event */
static uint8_t *buf[2];
static void put(int v) { if (hn < MAXH) H[hn++] = v; }
static void ev(int k) { put(1); put(k); }
static void fill(uint8_t *b, long k) { for (long j = 0; j < q_size; j++) b[j] = (37 * k + 5 * j + 1) & 255; }

static void do_insert(void)
{
	unsigned x = 0xdead;
	bool ok;
	fill(buf[0], ++item_no);
	ev(0);
	ok = ops->insert(q, buf[0], q_null ? NULL : &x);
	sb_flush();
	put(q_null ? 2 : 3), put(1), put(ok);
	if (!q_null) put((int)x);
}
static bool do_remove(void)
{
	unsigned x = 0xdead;
	bool ok;
	memset(buf[1], 0xee, q_size);
	ev(2);
	ok = ops->remove(q, buf[1], q_null ? NULL : &x);
	sb_flush();
	put(3 + (ok ? q_size : 0)), put(3), put(ok), put(q_null ? -1 : (int)x);
	if (ok) for (long j = 0; j < q_size; j++) put(buf[1][j]);
	return ok;
}
static void thread_body(int t)
{
	for (long i = 0; i < plan[t]; i++) if (t == 0) do_insert(); else do_remove();
	sb_flush();
	state[t] = DONE;
	yield();
}
static void sequential(const uint8_t *s, size_t n)
{
	for (size_t i = 0; i < n; i++) if (s[i] == 'i') do_insert(); else if (s[i] == 'r') do_remove();
}
/* one execution; returns the number of scheduling points */
static long run(const uint8_t *prefix, size_t np, int first)
{
	memset(held, 0, sizeof(held));
	hn = 0, item_no = 0, stuck = false, cur = -1, sb.st = 0;
	q = ops->init(q_n, q_size);
	sequential(prefix, np);
	step = 0, pos = 0, writes = 0, limit = 20000, wanted_switch = false;
	for (int t = 0; t < 2; t++) {
		state[t] = READY;
		getcontext(&uc[t]);
		uc[t].uc_stack.ss_sp = stacks[t], uc[t].uc_stack.ss_size = sizeof(stacks[t]), uc[t].uc_link = &uc_main;
		makecontext(&uc[t], (void (*)(void))thread_body, 1, t);
	}
	int t = first;
	while (!stuck && (state[0] != DONE || state[1] != DONE)) {
		if (state[t] != READY) t = 1 - t;
		if (state[t] != READY) { stuck = true; break; }
		cur = t;
		swapcontext(&uc_main, &uc[t]);
		cur = -1;
		if (wanted_switch) { wanted_switch = false; t = 1 - t; }
	}
	long total = step;
	if (!stuck) for (int i = 0; i < q_n + 2; i++) if (!do_remove()) break;
	if (stuck) ev(9);
	ops->destroy(&q);
	ev(q == NULL ? 8 : 9);
	return total;
}

/* the distinct histories seen */
static struct hist { int *h; int n; struct hist *next; } *tab[4096];
static long nhist, nruns;
static void remember(void)
{
	uint32_t x = 2166136261u;
	for (int i = 0; i < hn; i++) x = (x ^ (uint32_t)H[i]) * 16777619u;
	for (struct hist *p = tab[x & 4095]; p; p = p->next) if (p->n == hn && !memcmp(p->h, H, hn * sizeof(int))) return;
	struct hist *p = malloc(sizeof(*p));
	p->h = malloc(hn * sizeof(int)), p->n = hn, memcpy(p->h, H, hn * sizeof(int));
	p->next = tab[x & 4095], tab[x & 4095] = p, nhist++;
	j_open(NULL, '[');
	for (int i = 0; i < hn; i += H[i] + 1) {
		j_open(NULL, '[');
		for (int k = 1; k <= H[i]; k++) j_int(NULL, H[i + k]);
		j_close(']');
	}
	j_close(']');
}
static void explore(const uint8_t *prefix, size_t np, int first, long bound)
{
	long total = run(prefix, np, first);
	nruns++;
	remember();
	if (nsched >= bound) return;
	long k = nsched;
	for (long s = k ? sched[k - 1] + 1 : 1; s <= total; s++) {
		sched[k] = s, nsched = k + 1;
		explore(prefix, np, first, bound);
	}
	nsched = k;
}
/* impl n size prefix inserts removes preemptions null delays */
static void do_queue(void)
{
	long bound = A[6].n;
	ops = impl(A[0].n), q_n = A[1].n, q_size = A[2].n, plan[0] = A[4].n, plan[1] = A[5].n, q_null = A[7].n;
	buf[0] = malloc(q_size + 1), buf[1] = malloc(q_size + 1);
	nhist = nruns = 0, nsched = 0;
	j_open("hists", '[');
	for (int first = 0; first < 2; first++) {
		delay = -1;
		explore(A[3].b, A[3].len, first, bound);
		if (A[8].n) {
			nsched = 0;
			run(A[3].b, A[3].len, first);
			long w = writes;
			for (delay = 0; delay < w; delay++) explore(A[3].b, A[3].len, first, bound < A[8].n ? bound : A[8].n);
			delay = -1;
		}
	}
	j_close(']');
	for (int i = 0; i < 4096; i++) for (struct hist *p; (p = tab[i]); ) { tab[i] = p->next; free(p->h); free(p); }
	free(buf[0]), free(buf[1]);
	j_int("runs", nruns);
}
/* impl n size ops: a sequential history */
static void do_qseq(void)
{
	ops = impl(A[0].n), q_n = A[1].n, q_size = A[2].n, q_null = A[4].n, delay = -1, cur = -1;
	buf[0] = malloc(q_size + 1), buf[1] = malloc(q_size + 1);
	hn = 0, item_no = 0;
	memset(held, 0, sizeof(held));
	q = ops->init(q_n, q_size);
	j_int("made", q != NULL);
	j_open("hists", '[');
	j_open(NULL, '[');
	for (size_t i = 0; q && i < A[3].len; i++) {
		hn = 0;
		if (A[3].b[i] == 'i') do_insert(); else do_remove();
		for (int p = 0; p < hn; p += H[p] + 1) {
			j_open(NULL, '[');
			for (int k = 1; k <= H[p]; k++) j_int(NULL, H[p + k]);
			j_close(']');
		}
	}
	j_close(']');
	j_close(']');
	ops->destroy(&q);
	j_int("gone", q == NULL);
	ops->destroy(&q);
	free(buf[0]), free(buf[1]);
}
/* impl n size(hi lo): elements so large that only their ends are copied */
static void do_qhuge(void)
{
	unsigned n = A[1].n, size = (unsigned)(A[2].n << 16 | A[3].n), bad = 0, got = 0;
	uint8_t *x = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	ops = impl(A[0].n), cur = -1, delay = -1, q_sparse = true;
	memset(held, 0, sizeof(held));
	q = ops->init(n, size);
	j_int("made", q != NULL && x != MAP_FAILED);
	if (q && x != MAP_FAILED) {
		for (unsigned i = 1; i < n; i++) x[0] = i, x[size - 1] = 100 + i, bad += !ops->insert(q, x, NULL);
		for (unsigned i = 1; i < n; i++) got += ops->remove(q, x, NULL), bad += x[0] != i || x[size - 1] != 100 + i;
	}
	j_int("got", got), j_int("bad", bad);
	if (x != MAP_FAILED) munmap(x, size);
	ops->destroy(&q);
	q_sparse = false;
}
/* impl n size (kind times)*: long runs of the same call on a big ring; the k-th item holds the number k */
static void do_qbulk(void)
{
	uint32_t put_no = 0, was, x;
	ops = impl(A[0].n), q_n = A[1].n, q_size = 4, delay = -1, cur = -1;
	memset(held, 0, sizeof(held));
	q = ops->init(q_n, 4);
	j_int("made", q != NULL);
	j_open("runs", '[');
	for (int i = 2; q && i + 1 < NA; i += 2) {
		bool ins = A[i].n == 0;
		long done = 0, breaks = 0, first = -1, last = -1, from = 0, to = 0;
		for (long k = 0; k < A[i + 1].n; k++) {
			unsigned v = 0xdead;
			was = ins ? ++put_no : 0, x = was;
			bool ok = ins ? ops->insert(q, &x, &v) : ops->remove(q, &x, &v);
			if (ins && !ok) put_no--;
			if (k == 0) first = v;
			else if ((long)v != (ok ? last - 1 : 0)) breaks++;
			last = v;
			if (ok) {
				done++;
				if (done == 1) from = x;
				else if ((long)x != to + 1) breaks++;
				to = x;
			}
		}
		j_open(NULL, '[');
		j_int(NULL, A[i].n), j_int(NULL, A[i + 1].n), j_int(NULL, done), j_int(NULL, first), j_int(NULL, last), j_int(NULL, from), j_int(NULL, to), j_int(NULL, breaks);
		j_close(']');
	}
	j_close(']');
	ops->destroy(&q);
	j_int("gone", q == NULL);
}
static const struct hop OPS[] = { { "qbulk", do_qbulk }, { "queue", do_queue }, { "qseq", do_qseq }, { "qhuge", do_qhuge }, { NULL, NULL } };
int main(int argc, char **argv) { return h_main(argc, argv, OPS); }
