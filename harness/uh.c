/* Drives the header-only and stand-alone utilities: trees, lists, hashes, reading, time, counters, spool directories. */
#include "hcommon.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "libmy/tree.h"
#include "libmy/list.h"
#include "libmy/lookup3.h"
#include "libmy/spooldir.h"
#include "libmy/atomic.h"
#include "libmy/threadnum.h"
#include "libmy/getenv_int.h"
#include "libmy/print_string.h"
#include "libmy/atomic_64.h"
#include "libmy/atomic_ptr.h"
#include "libmy/my_time.h"
#include "libmy/my_byteorder.h"

/* ---- ordered trees: kind (0 red-black, 1 splay), program of (operation, key) pairs ---- */
struct el { int key, id; RB_ENTRY(el) rb; SPLAY_ENTRY(el) sp; };
static int el_cmp(struct el *a, struct el *b) { return (a->key - b->key) * 8388608; }	/* any negative or positive number will do */
RB_HEAD(rbt, el);
RB_PROTOTYPE(rbt, el, rb, el_cmp)
RB_GENERATE(rbt, el, rb, el_cmp)
SPLAY_HEAD(spt, el);
SPLAY_PROTOTYPE(spt, el, sp, el_cmp)
SPLAY_GENERATE(spt, el, sp, el_cmp)

static int rb_depth(struct el *e, int d)
{
	int l, r;
	if (!e || d > 2000) return 0;
	l = rb_depth(RB_LEFT(e, rb), d + 1), r = rb_depth(RB_RIGHT(e, rb), d + 1);
	return 1 + (l > r ? l : r);
}
static void j_el(struct el *e) { j_sep(); fprintf(h_out, "%d", e ? e->id : 0); }
static void do_tree(void)
{
	struct rbt rb = RB_INITIALIZER(&rb);
	struct spt sp = SPLAY_INITIALIZER(&sp);
	struct el *x, *nx, key;
	bool sw = A[0].n == 1;
	size_t left = 0;
	RB_INIT(&rb);
	SPLAY_INIT(&sp);
	j_open("out", '[');
	for (size_t i = 0; i + 1 < A[1].len; i += 2) {
		struct el *r = NULL;
		memset(&key, 0x5a, sizeof(key));
		key.key = A[1].b[i + 1];
		switch (A[1].b[i]) {
		case 0:
			x = malloc(sizeof(*x));
			memset(x, 0xa5, sizeof(*x));
			x->key = key.key, x->id = i / 2 + 1;
			r = sw ? SPLAY_INSERT(spt, &sp, x) : RB_INSERT(rbt, &rb, x);
			if (r) free(x);
			break;
		case 1:
			x = sw ? SPLAY_FIND(spt, &sp, &key) : RB_FIND(rbt, &rb, &key);
			if (x) {
				r = sw ? SPLAY_REMOVE(spt, &sp, x) : RB_REMOVE(rbt, &rb, x);
				j_el(r == x ? x : NULL);
				memset(x, 0x77, sizeof(*x));
				free(x);
				continue;
			}
			break;
		case 2: r = sw ? SPLAY_FIND(spt, &sp, &key) : RB_FIND(rbt, &rb, &key); break;
		case 3: r = sw ? NULL : RB_NFIND(rbt, &rb, &key); break;
		case 4: r = sw ? SPLAY_MIN(spt, &sp) : RB_MIN(rbt, &rb); break;
		case 5: r = sw ? SPLAY_MAX(spt, &sp) : RB_MAX(rbt, &rb); break;
		case 6:
			x = sw ? SPLAY_FIND(spt, &sp, &key) : RB_FIND(rbt, &rb, &key);
			if (x) r = sw ? SPLAY_NEXT(spt, &sp, x) : RB_NEXT(rbt, &rb, x);
			break;
		case 7:
			x = sw ? NULL : RB_FIND(rbt, &rb, &key);
			if (x) r = RB_PREV(rbt, &rb, x);
			break;
		case 8:	/* everything, in order */
			j_open(NULL, '{');
			j_open("up", '[');
			if (sw) SPLAY_FOREACH(x, spt, &sp) j_el(x); else RB_FOREACH(x, rbt, &rb) j_el(x);
			j_close(']');
			j_open("down", '[');
			if (!sw) RB_FOREACH_REVERSE(x, rbt, &rb) j_el(x);
			j_close(']');
			j_int("empty", sw ? SPLAY_EMPTY(&sp) : RB_EMPTY(&rb));
			j_int("depth", sw ? 0 : rb_depth(RB_ROOT(&rb), 0));
			j_close('}');
			continue;
		}
		j_el(r);
	}
	j_close(']');
	if (sw) while ((x = SPLAY_MIN(spt, &sp)) != NULL && left++ < 100000) SPLAY_REMOVE(spt, &sp, x), free(x);
	else for (x = RB_MIN(rbt, &rb); x && left++ < 100000; x = nx) nx = RB_NEXT(rbt, &rb, x), RB_REMOVE(rbt, &rb, x), free(x);
	j_int("left", left);
	j_int("end", sw ? SPLAY_EMPTY(&sp) : RB_EMPTY(&rb));
}

/* ---- linked lists: program of (operation, element, other) triples over two lists ---- */
struct le { int id; ISC_LINK(struct le) link; };
typedef ISC_LIST(struct le) lelist;
static void j_list(lelist *l)
{
	int n = 0;
	j_open(NULL, '{');
	j_open("up", '[');
	for (struct le *e = ISC_LIST_HEAD(*l); e && n < 100; e = ISC_LIST_NEXT(e, link), n++) { j_sep(); fprintf(h_out, "%d", e->id); }
	j_close(']');
	n = 0;
	j_open("down", '[');
	for (struct le *e = ISC_LIST_TAIL(*l); e && n < 100; e = ISC_LIST_PREV(e, link), n++) { j_sep(); fprintf(h_out, "%d", e->id); }
	j_close(']');
	j_int("empty", ISC_LIST_EMPTY((*l)));
	j_close('}');
}
static void do_list(void)
{
	struct le e[16];
	lelist l[2];
	for (int i = 0; i < 16; i++) { e[i].id = i; ISC_LINK_INIT(&e[i], link); }
	ISC_LIST_INIT(l[0]);
	ISC_LIST_INIT(l[1]);
	j_open("out", '[');
	for (size_t i = 0; i + 2 < A[0].len; i += 3) {
		struct le *x = &e[A[0].b[i + 1] & 15], *y = &e[A[0].b[i + 2] & 15];
		lelist *t = &l[A[0].b[i + 2] & 1], *o = &l[~A[0].b[i + 2] & 1];
		lelist *ty = &l[A[0].b[i] >> 7];		/* the list y is on */
		switch (A[0].b[i] & 127) {
		case 0: ISC_LIST_APPEND(*t, x, link); break;
		case 1: ISC_LIST_PREPEND(*t, x, link); break;
		case 2: ISC_LIST_UNLINK(*t, x, link); break;
		case 3: ISC_LIST_INSERTBEFORE(*ty, y, x, link); break;
		case 4: ISC_LIST_INSERTAFTER(*ty, y, x, link); break;
		case 5: ISC_LIST_APPENDLIST((*t), (*o), link); break;
		case 6: ISC_LIST_ENQUEUE(*t, x, link); break;
		case 7: ISC_LIST_DEQUEUE(*t, x, link); break;
		case 8: ISC_LIST_INITANDAPPEND(*t, x, link); break;
		case 9: ISC_LIST_INITANDPREPEND(*t, x, link); break;
		}
		j_open(NULL, '{');
		j_open("lists", '[');
		j_list(&l[0]), j_list(&l[1]);
		j_close(']');
		j_open("linked", '[');
		for (int k = 0; k < 16; k++) if (ISC_LINK_LINKED(&e[k], link)) { j_sep(); fprintf(h_out, "%d", k); }
		j_close(']');
		j_close('}');
	}
	j_close(']');
}

/* ---- hashes: key, first seed, second seed (octets, most significant first) ---- */
static uint32_t be32(const uint8_t *p) { return (uint32_t)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static void do_hash(void)
{
	uint32_t s1 = be32(A[1].b), s2 = be32(A[2].b), little = 0, big = 0, c2 = 0, b2 = 0;
	size_t n = A[0].len;
	uint8_t *blk = aligned_alloc(16, (n + 64) / 16 * 16 + 32);
	int same = 1;
	for (int at = 0; at < 8; at++)
		for (int pad = 0; pad < 3; pad++) {
			uint32_t x, y, c = s1, b = s2;
			memset(blk, pad == 0 ? 0 : pad == 1 ? 0xff : 0x6b, (n + 64) / 16 * 16 + 32);
			memcpy(blk + 8 + at, A[0].b, n);
			x = my_hashlittle(blk + 8 + at, n, s1);
			y = my_hashbig(blk + 8 + at, n, s1);
			my_hashlittle2(blk + 8 + at, n, &c, &b);
			if (at == 0 && pad == 0) little = x, big = y, c2 = c, b2 = b;
			else if (x != little || y != big || c != c2 || b != b2) same = 0;
			if (memcmp(blk + 8 + at, A[0].b, n)) same = 0;
		}
	j_u32("little", little), j_u32("big", big), j_u32("c2", c2), j_u32("b2", b2), j_int("same", same);
	if (n % 4 == 0) {
		uint32_t *w = malloc(n + 1), c = s1, b = s2;
		memcpy(w, A[0].b, n);
		j_u32("word", my_hashword(w, n / 4, s1));
		my_hashword2(w, n / 4, &c, &b);
		j_u32("wc2", c), j_u32("wb2", b);
		free(w);
	}
	free(blk);
}

/* ---- reading: what the kernel answers is scripted; data, then answers: n>0 octets, 0 end, -1 interrupted, -2 error ---- */
static size_t rd_at; static int rd_i;
static ssize_t h_read(int fd, void *buf, size_t want)
{
	long k;
	(void)fd;
	if (rd_i >= NA) k = 0; else k = A[rd_i++].n;
	if (k == -1) { errno = EINTR; return -1; }
	if (k < 0) { errno = k == -2 ? EIO : EAGAIN; return -1; }
	if ((size_t)k > want) k = want;
	if ((size_t)k > A[0].len - rd_at) k = A[0].len - rd_at;
	if (k) memcpy(buf, A[0].b + rd_at, k);
	rd_at += k;
	return k;
}
#define read h_read
#include "libmy/read_bytes.h"
#undef read
static void do_read(void)
{
	uint8_t *base, *buf = h_exact(NULL, A[1].n, &base);
	if (A[1].n) memset(buf, 0x55, A[1].n);
	rd_at = 0, rd_i = 2;
	bool ok = read_bytes(7, buf, A[1].n);
	j_int("ok", ok);
	j_int("used", rd_at);
	j_int("calls", rd_i - 2);
	j_bytes("buf", buf, A[1].n);
	h_unexact(base, A[1].n);
}

/* ---- text helpers ---- */
static void do_prstr(void)
{
	char *t = NULL; size_t n = 0;
	FILE *f = open_memstream(&t, &n);
	print_string(A[0].b, A[0].len, f);
	fclose(f);
	j_bytes("text", t, n);
	free(t);
}
static void do_getenv(void)	/* 0/1 set, text */
{
	uint64_t v = 0x1122334455667788ULL;
	char *s = h_cstr(&A[1]);
	uint8_t o[8];
	static char var[4096];
	unsetenv("WDNS_TEST_NUMBER");
	snprintf(var, sizeof(var), "WDNS_TEST_NUMBER=%s", s);
	if (A[0].n) putenv(var);
	bool ok = getenv_int("WDNS_TEST_NUMBER", &v);
	for (int i = 0; i < 8; i++) o[i] = v >> (56 - 8 * i);
	j_int("ok", ok);
	j_open("v", '[');
	if (ok) j_sep(), j_rawbytes(o, 8);
	j_close(']');
	unsetenv("WDNS_TEST_NUMBER");
	free(s);
}

/* ---- counters: program of (operation, value) pairs on an int counter, then threads ---- */
static atomic_t at_c;
static void do_atomic(void)
{
	atomic_set(&at_c, 0);
	j_open("out", '[');
	for (size_t i = 0; i + 1 < A[0].len; i += 2) {
		int v = (int8_t)A[0].b[i + 1] * A[1].n, r = 0;
		switch (A[0].b[i]) {
		case 0: atomic_set(&at_c, v); break;
		case 1: atomic_add(v, &at_c); break;
		case 2: atomic_sub(v, &at_c); break;
		case 3: atomic_inc(&at_c); break;
		case 4: atomic_dec(&at_c); break;
		case 5: r = atomic_zero(&at_c); break;
		case 6: r = !!atomic_sub_and_test(v, &at_c); break;
		case 7: r = !!atomic_dec_and_test(&at_c); break;
		case 8: r = !!atomic_inc_and_test(&at_c); break;
		case 9: r = !!atomic_add_negative(v, &at_c); break;
		}
		j_sep(); fprintf(h_out, "[%d,%d]", r, atomic_read(&at_c));
	}
	j_close(']');
}
/* the same on a wide counter that starts at a multiple of 2^32 */
static void do_atomic64(void)
{
	static atomic64_t c;
	int64_t base = A[0].n * (1LL << 32);
	atomic64_set(&c, base);
	j_open("out", '[');
	for (size_t i = 0; i + 1 < A[1].len; i += 2) {
		int v = (int8_t)A[1].b[i + 1] * A[2].n, r = 0;
		int64_t was = atomic64_read(&c);
		switch (A[1].b[i]) {
		case 0: atomic64_set(&c, base + v); break;
		case 1: atomic64_add(v, &c); break;
		case 2: atomic64_sub(v, &c); break;
		case 3: atomic64_inc(&c); break;
		case 4: atomic64_dec(&c); break;
		case 5: r = atomic64_zero(&c) == was && atomic64_read(&c) == 0; atomic64_set(&c, was); break;
		case 6: r = !!atomic64_sub_and_test(v, &c); break;
		case 7: r = !!atomic64_dec_and_test(&c); break;
		case 8: r = !!atomic64_inc_and_test(&c); break;
		case 9: r = !!atomic64_add_negative(v, &c); break;
		}
		j_sep(); fprintf(h_out, "[%d,%ld]", r, (long)(atomic64_read(&c) - base));
	}
	j_close(']');
}
/* ---- a second thread let in at the k-th point of a call: it runs until it ends, or waits for the first ---- */
static void *(*in_fn)(void *);
static int in_at, in_n, in_state;		/* in_state: 0 not started, 1 running, 2 waiting for a lock, 3 ended */
static pthread_t in_main, in_thr;
static void *in_run(void *p) { in_fn(p); __atomic_store_n(&in_state, 3, __ATOMIC_SEQ_CST); return NULL; }
static void in_point(void)
{
	if (!in_fn || !pthread_equal(pthread_self(), in_main) || in_state) return;
	if (++in_n != in_at) return;
	in_state = 1;
	if (pthread_create(&in_thr, NULL, in_run, NULL)) _exit(99);
	for (int i = 0; i < 2000 && __atomic_load_n(&in_state, __ATOMIC_SEQ_CST) == 1; i++) usleep(i < 500 ? 20 : 200);
}
static void in_begin(void *(*fn)(void *), int at) { in_main = pthread_self(), in_at = at, in_n = in_state = 0, in_fn = fn; }
static bool in_end(void) { bool r = in_state != 0; if (r) pthread_join(in_thr, NULL); in_fn = NULL; return r; }
int in_trylock(pthread_mutex_t *m) { in_point(); return pthread_mutex_trylock(m); }
int in_lock(pthread_mutex_t *m)
{
	int r;
	in_point();
	r = pthread_mutex_trylock(m);
	if (r != EBUSY) return r;
	if (in_fn && !pthread_equal(pthread_self(), in_main)) __atomic_store_n(&in_state, 2, __ATOMIC_SEQ_CST);
	return pthread_mutex_lock(m);
}
int in_unlock(pthread_mutex_t *m) { int r = pthread_mutex_unlock(m); in_point(); return r; }
#define POINT() in_point()
#include "tsan_points.h"

/* a shared pointer: the places it is set to, in turn */
static void do_atptr(void)
{
	static char places[256];
	static atomic_ptr_t v;
	v.ptr = &places[A[0].b[0]];
	j_open("out", '[');
	for (size_t i = 1; i < A[0].len; i++) {
		char *was = atomic_ptr_get(&v);
		bool ok = atomic_ptr_set(&v, &places[A[0].b[i]]);
		j_sep(); fprintf(h_out, "[%ld,%d,%ld]", (long)(was - places), ok, (long)((char *)atomic_ptr_get(&v) - places));
	}
	j_close(']');
}

/* thread numbers: the point at which the second thread is let in */
static int nr_n[4], nr_next = -1, first_number = -1;	/* the number after the last one given, if nobody else was given one */
static void *nr_second(void *p) { my_threadnum_register(); nr_n[1] = my_threadnum(); return NULL; }
static void *nr_third(void *p) { my_threadnum_register(); nr_n[2] = my_threadnum(); return NULL; }
static void *nr_first(void *p)
{
	in_begin(nr_second, A[0].n);
	my_threadnum_register();
	nr_n[0] = my_threadnum();
	if (!in_end()) { pthread_t t; pthread_create(&t, NULL, nr_second, NULL), pthread_join(t, NULL); }
	nr_n[3] = my_threadnum();
	return NULL;
}
static void do_numrace(void)
{
	pthread_t t;
	pthread_create(&t, NULL, nr_first, NULL), pthread_join(t, NULL);
	j_int("kept", nr_n[3] == nr_n[0]);
	pthread_create(&t, NULL, nr_third, NULL), pthread_join(t, NULL);
	j_int("first", first_number == 0);
	j_int("next", nr_n[2] == nr_next + 2 || nr_next < 0);
	nr_next = nr_n[2] + 1;
	j_int("distinct", nr_n[0] >= 0 && nr_n[1] >= 0 && nr_n[2] >= 0 && nr_n[0] != nr_n[1] && nr_n[1] != nr_n[2] && nr_n[0] != nr_n[2]);
}

#define NT 6
static pthread_barrier_t at_bar;
static long at_n, at_zero[NT]; static int at_num[NT], at_again[NT];
static atomic_t at_sum, at_drain, at_ref;
static long at_last;
static void *at_run(void *p)
{
	long me = (long)p, z = 0;
	pthread_barrier_wait(&at_bar);
	my_threadnum_register();
	at_num[me] = my_threadnum();
	pthread_barrier_wait(&at_bar);
	for (long i = 0; i < at_n; i++) {
		if (me & 1) atomic_inc(&at_sum); else atomic_add(1, &at_sum);
		if (i % 3 == 0) atomic_dec(&at_sum), atomic_sub(2, &at_sum);
		atomic_inc(&at_drain);
		if (i % 16 == 0) z += atomic_zero(&at_drain);
	}
	at_zero[me] = z;
	pthread_barrier_wait(&at_bar);
	if (me == 0) atomic_set(&at_ref, NT * 1000);
	pthread_barrier_wait(&at_bar);
	for (int i = 0; i < 1000; i++)
		if (atomic_dec_and_test(&at_ref)) __sync_fetch_and_add(&at_last, 1);
	at_again[me] = my_threadnum();
	return NULL;
}
static void do_atthr(void)	/* rounds per thread */
{
	nr_next = -1;
	pthread_t t[NT];
	long z = 0;
	int distinct = 1, kept = 1;
	at_n = A[0].n, at_last = 0;
	atomic_set(&at_sum, 0), atomic_set(&at_drain, 0);
	pthread_barrier_init(&at_bar, NULL, NT);
	for (long i = 0; i < NT; i++) pthread_create(&t[i], NULL, at_run, (void *)i);
	for (int i = 0; i < NT; i++) pthread_join(t[i], NULL);
	pthread_barrier_destroy(&at_bar);
	for (int i = 0; i < NT; i++) {
		z += at_zero[i];
		if (at_again[i] != at_num[i] || at_num[i] < 0) kept = 0;
		for (int k = 0; k < i; k++) if (at_num[k] == at_num[i]) distinct = 0;
	}
	j_int("sum", atomic_read(&at_sum));
	j_int("drained", z + atomic_read(&at_drain));
	j_int("last", at_last);
	j_int("distinct", distinct), j_int("kept", kept);
}

/* ---- times: two times, then whole seconds, 512ths and multiples of 2^32 seconds ---- */
static void j_ts(const char *k, struct timespec *t) { j_open(k, '['); fprintf(h_out, "%ld,%ld", (long)t->tv_sec, (long)t->tv_nsec); j_close(']'); }
static void do_time(void)
{
	struct timespec a = { A[0].n, A[1].n }, b = { A[2].n, A[3].n }, t;
	double d, big = A[6].n * 4294967296.0;
	t = a; my_timespec_add(&b, &t); j_ts("add", &t);
	t = a; my_timespec_sub(&b, &t); j_ts("sub", &t);
	memset(&t, 0x5a, sizeof(t));
	my_timespec_from_double(big + A[4].n + A[5].n / 512.0, &t);
	t.tv_sec -= (long)big; j_ts("from", &t);
	t.tv_sec = (long)big + A[4].n, t.tv_nsec = A[5].n * 1953125;
	d = my_timespec_to_double(&t) - big;
	j_int("whole", (long)d), j_int("part", (long)((d - (long)d) * 512.0));
}
static void do_swap(void)
{
	uint32_t x, y;
	memcpy(&x, A[0].b, 4);
	y = my_bswap32(x); j_bytes("swap", &y, 4);
	y = my_htole32(x); j_bytes("to", &y, 4);
	y = my_le32toh(x); j_bytes("back", &y, 4);
}

/* ---- rate limiters: kind, rate, frequency of adjustment, start, then calls; the clock and the waits are stand-ins ---- */
#include "rt_clock.h"
static void rt_set(long s, long ns) { rt_now.tv_sec = s, rt_now.tv_nsec = ns; }
static void rt_pass(long s, long ns) { struct timespec d = { s, ns }; rt_now.tv_sec += d.tv_sec, rt_now.tv_nsec += d.tv_nsec; while (rt_now.tv_nsec >= 1000000000) rt_now.tv_sec++, rt_now.tv_nsec -= 1000000000; }
static void do_paced(void)
{
	const struct rt_api *api = A[0].n ? &rt_relative : &rt_absolute;
	struct my_rate *m = api->init(A[1].n, 0);
	rt_set(A[2].n, A[3].n), rt_late = rt_breaks = 0;
	api->sleep(NULL);
	j_int("null", rt_now.tv_sec == A[2].n && rt_now.tv_nsec == A[3].n);
	j_open("rets", '[');
	for (int i = 4; i + 3 < NA; i += 4) {
		rt_pass(A[i].n, A[i + 1].n);
		rt_late = A[i + 2].n, rt_breaks = A[i + 3].n;
		api->sleep(m);
		j_sep(); fprintf(h_out, "%ld,%ld", (long)rt_now.tv_sec, (long)rt_now.tv_nsec);
	}
	j_close(']');
	api->destroy(&m);
	j_int("gone", m == NULL);
	api->destroy(&m);
}
/* a caller always busy, or always slower than the rate: kind, rate, frequency, calls, parts between calls */
static void do_rtlong(void)
{
	const struct rt_api *api = A[0].n ? &rt_relative : &rt_absolute;
	struct my_rate *m = api->init(A[1].n, A[2].n);
	long n = A[3].n, s0 = 1000;
	rt_set(s0, 123456000), rt_breaks = rt_waits = 0;
	rt_late = A[0].n ? 1000 : 0;	/* no real wait ends within the grain of the clock */
	for (long i = 0; i < n; i++) rt_pass(A[4].n / 1000000000, A[4].n % 1000000000), api->sleep(m);
	api->destroy(&m);
	j_int("ms", (rt_now.tv_sec - s0) * 1000 + rt_now.tv_nsec / 1000000);
	j_int("waits", rt_waits);
}

/* ---- spool directories; the library's calls on the file system pass through here ---- */
static int sp_n, sp_crash, sp_fail, sp_log;
static bool sp_gate(const char *what)		/* true: this call must fail */
{
	in_point();
	sp_n++;
	if (sp_crash && sp_n == sp_crash) _exit(0);
	if (sp_fail && sp_n == sp_fail) { errno = EIO; return true; }
	return false;
}
int sp_rename(const char *a, const char *b) { return sp_gate("rename") ? -1 : rename(a, b); }
int sp_renameat(int d, const char *a, int e, const char *b) { return sp_gate("rename") ? -1 : renameat(d, a, e, b); }
int sp_unlink(const char *a) { return sp_gate("unlink") ? -1 : unlink(a); }
int sp_link(const char *a, const char *b) { return sp_gate("link") ? -1 : link(a, b); }
int sp_usleep(unsigned us) { return 0; }
int sp_fstatat(int d, const char *p, struct stat *sb, int fl) { return sp_gate("fstatat") ? -1 : fstatat(d, p, sb, fl); }
void sp_perror(const char *s) { }

static char sp_dir[64];
static void sp_list(const char *k, const char *sub)	/* [name, contents] of each file, by name; directories have contents [] */
{
	struct dirent **v = NULL;
	char p[700];
	uint8_t buf[256];
	snprintf(p, sizeof(p), "%s/%s", sp_dir, sub);
	int n = scandir(p, &v, NULL, alphasort);
	j_open(k, '[');
	for (int i = 0; i < n; i++) {
		if (strcmp(v[i]->d_name, ".") && strcmp(v[i]->d_name, "..")) {
			struct stat sb;
			snprintf(p, sizeof(p), "%s/%s/%s", sp_dir, sub, v[i]->d_name);
			if (lstat(p, &sb) == 0) {
				j_sep(); fputc('[', h_out);
				j_rawbytes(v[i]->d_name, strlen(v[i]->d_name));
				fputc(',', h_out);
				if (S_ISREG(sb.st_mode)) {
					int fd = open(p, O_RDONLY);
					ssize_t m = fd < 0 ? 0 : read(fd, buf, sizeof(buf));
					if (fd >= 0) close(fd);
					j_rawbytes(buf, m < 0 ? 0 : m);
				} else fputs("[]", h_out);
				fputc(']', h_out);
			}
		}
		free(v[i]);
	}
	j_close(']');
	free(v);
}
static void sp_put(const char *sub, const char *name, const uint8_t *p, size_t n)
{
	char tmp[700], dst[700];
	snprintf(tmp, sizeof(tmp), "%s/new", sp_dir);
	snprintf(dst, sizeof(dst), "%s/%s/%s", sp_dir, sub, name);
	int fd = open(tmp, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, p, n) != (ssize_t)n) _exit(99);
	close(fd);
	if (rename(tmp, dst)) unlink(tmp);
}
static void sp_clean(const char *sub)
{
	char p[700];
	snprintf(p, sizeof(p), "%s/%s", sp_dir, sub);
	DIR *d = opendir(p);
	struct dirent *de;
	while (d && (de = readdir(d)) != NULL)
		if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) {
			snprintf(p, sizeof(p), "%s/%s/%s", sp_dir, sub, de->d_name);
			if (unlink(p)) rmdir(p);
		}
	if (d) closedir(d);
	snprintf(p, sizeof(p), "%s/%s", sp_dir, sub);
	rmdir(p);
}
static void sp_answer2(const char *k, char *s, const char *root)	/* the name returned: [] none, else [name inside active] or [[0]] */
{
	char want[700];
	j_open(k, '[');
	if (s) {
		size_t n;
		snprintf(want, sizeof(want), "%s/active/", root);
		n = strlen(want);
		j_sep();
		if (strncmp(s, want, n) == 0) j_rawbytes(s + n, strlen(s + n)); else fputs("[0]", h_out);
		free(s);
	}
	j_close(']');
}
static void sp_answer(char *s, const char *root) { sp_answer2("got", s, root); }
static struct spooldir *in_sp; static char *in_got;
static void *in_next(void *p) { in_got = spooldir_next(in_sp); return NULL; }
/* operations: '+' name NUL contents into incoming; 'a' the same into active; '-' name out of incoming; '_' name out of active;
   'd' name a directory in incoming; 'y' name a dangling link in incoming; 'N' next; 'O' close and open again;
   'I' k: next, and at its k-th point (file operation, lock) next in another thread; 'C' k: next in a process that dies at its k-th file operation, then open again; 'F' k: next with the k-th file operation failing */
static void do_spool(void)
{
	char p[700], *root;
	struct spooldir *s;
	strcpy(sp_dir, "spool.XXXXXX");
	if (!mkdtemp(sp_dir)) _exit(99);
	root = realpath(sp_dir, NULL);
	sp_crash = sp_fail = 0;
	s = spooldir_init(sp_dir);
	j_open("out", '[');
	for (int i = 0; i < NA; i++) {
		char *t = h_cstr(&A[i]);
		size_t k = strlen(t);
		snprintf(p, sizeof(p), "%s/incoming/%s", sp_dir, t + 1);
		j_open(NULL, '{');
		switch (t[0]) {
		case '+': case 'a': sp_put(t[0] == 'a' ? "active" : "incoming", t + 1, A[i].b + k + 1, A[i].len - k - 1); break;
		case '-': unlink(p); break;
		case '_': snprintf(p, sizeof(p), "%s/active/%s", sp_dir, t + 1); unlink(p); break;
		case 'd': mkdir(p, 0700); break;
		case 'y': if (symlink("nowhere", p)) {} break;
		case 'N': sp_answer(spooldir_next(s), root); break;
		case 'O': spooldir_destroy(&s); j_int("gone", s == NULL); spooldir_destroy(&s); s = spooldir_init(sp_dir); break;
		case 'I': {
			char *g;
			in_sp = s, in_got = NULL;
			in_begin(in_next, A[i].b[1]);
			g = spooldir_next(s);
			j_int("two", in_end());
			sp_answer(g, root), sp_answer2("got2", in_got, root);
			break;
		}
		case 'F':
			sp_n = 0, sp_fail = A[i].b[1];
			sp_answer(spooldir_next(s), root);
			j_int("hit", sp_n >= sp_fail);
			sp_fail = 0;
			break;
		case 'C': {
			int st, pid;
			fflush(h_out);
			pid = fork();
			if (pid == 0) {
				h_timer(5);
				sp_n = 0, sp_crash = A[i].b[1];
				char *g = spooldir_next(s);
				_exit(g ? 3 : 4);
			}
			waitpid(pid, &st, 0);
			j_int("died", WIFEXITED(st) ? WEXITSTATUS(st) : 99);
			spooldir_destroy(&s);
			s = spooldir_init(sp_dir);
			break;
		}
		}
		sp_list("inc", "incoming"), sp_list("act", "active");
		j_close('}');
		free(t);
	}
	j_close(']');
	spooldir_destroy(&s);
	j_int("gone", s == NULL);
	sp_clean("incoming"), sp_clean("active");
	rmdir(sp_dir);
	free(root);
}
/* many threads taking from one spool: number of files, threads; each name is handed out once */
static struct spooldir *sp_s; static int sp_count[4096], sp_bad, sp_total;
static void *sp_take(void *p)
{
	for (int idle = 0; idle < 3;) {
		char *f = spooldir_next(sp_s), *b;
		if (!f) { idle++; continue; }
		idle = 0;
		b = strrchr(f, '/');
		if (!b || strncmp(b, "/f", 2) || atoi(b + 2) >= 4096) __sync_fetch_and_add(&sp_bad, 1);
		else __sync_fetch_and_add(&sp_count[atoi(b + 2)], 1);
		if (access(f, F_OK)) __sync_fetch_and_add(&sp_bad, 1);
		free(f);
	}
	return NULL;
}
static void do_spthr(void)
{
	pthread_t t[8];
	char nm[32];
	int once = 0, left;
	strcpy(sp_dir, "spool.XXXXXX");
	if (!mkdtemp(sp_dir)) _exit(99);
	memset(sp_count, 0, sizeof(sp_count)), sp_bad = 0;
	sp_s = spooldir_init(sp_dir);
	for (int i = 0; i < A[0].n / 2; i++) sprintf(nm, "f%d", i), sp_put("incoming", nm, (uint8_t *)"x", 1);
	for (long i = 0; i < A[1].n; i++) pthread_create(&t[i], NULL, sp_take, NULL);
	for (int i = A[0].n / 2; i < A[0].n; i++) sprintf(nm, "f%d", i), sp_put("incoming", nm, (uint8_t *)"x", 1);
	for (int i = 0; i < A[1].n; i++) pthread_join(t[i], NULL);
	sp_take(NULL);
	for (int i = 0; i < A[0].n; i++) once += sp_count[i] == 1;
	spooldir_destroy(&sp_s);
	j_int("once", once), j_int("bad", sp_bad);
	sp_clean("incoming"), sp_clean("active");
	left = rmdir(sp_dir);
	j_int("left", left != 0);
}

static const struct hop OPS[] = {
	{ "tree", do_tree }, { "list", do_list }, { "hash", do_hash }, { "read", do_read }, { "prstr", do_prstr }, { "getenv", do_getenv },
	{ "atomic", do_atomic }, { "atomic64", do_atomic64 }, { "atptr", do_atptr }, { "time", do_time }, { "swap", do_swap }, { "atthr", do_atthr }, { "numrace", do_numrace }, { "spool", do_spool }, { "spthr", do_spthr }, { "paced", do_paced }, { "busy", do_rtlong }, { "idle", do_rtlong },
	{ NULL, NULL }
};
static void *warm(void *p) { usleep(1000); return p; }
int main(int argc, char **argv)
{
	my_threadnum_register();
	first_number = my_threadnum();
	pthread_t t[8];	/* what threads allocate once and keep is allocated before the accounting starts */
	for (int i = 0; i < 8; i++) pthread_create(&t[i], NULL, warm, NULL);
	for (int i = 0; i < 8; i++) pthread_join(t[i], NULL);
	putenv("WDNS_TEST_NUMBER=0");
	return h_main(argc, argv, OPS);
}
