/* Shared by the harnesses: request parsing, JSON output, exact-size buffers, allocation accounting. */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <ctype.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
# include <sanitizer/asan_interface.h>
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
					      void (*)(const volatile void *));
#else
# if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#   define H_MSAN 1
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
					      void (*)(const volatile void *));
#  endif
# endif
# define ASAN_POISON_MEMORY_REGION(a, n) ((void)0)
# define ASAN_UNPOISON_MEMORY_REGION(a, n) ((void)0)
#endif

static long h_live;	/* blocks allocated and not freed */
static void h_on_malloc(const volatile void *p, size_t n) { (void)p; (void)n; __sync_fetch_and_add(&h_live, 1); }
static void h_on_free(const volatile void *p) { if (p) __sync_fetch_and_sub(&h_live, 1); }

static FILE *h_out;
static int h_first;

/* ---- JSON ---- */
static void j_sep(void) { if (!h_first) fputc(',', h_out); h_first = 0; }
static void j_key(const char *k) { j_sep(); if (k) fprintf(h_out, "\"%s\":", k); }
static void j_int(const char *k, long v) { j_key(k); fprintf(h_out, "%ld", v); }
static void j_str(const char *k, const char *v) { j_key(k); fprintf(h_out, "\"%s\"", v); }
static void j_rawbytes(const void *p, size_t n)
{
	const uint8_t *b = p;
	fputc('[', h_out);
	for (size_t i = 0; i < n; i++)
		fprintf(h_out, i ? ",%u" : "%u", b[i]);
	fputc(']', h_out);
}
static void j_bytes(const char *k, const void *p, size_t n) { j_key(k); j_rawbytes(p, n); }
static void j_u32(const char *k, uint32_t v) { j_key(k); fprintf(h_out, "[%u,%u]", v >> 16, v & 0xffff); }
static void j_open(const char *k, char c) { if (k) j_key(k); else j_sep(); fputc(c, h_out); h_first = 1; }
static void j_close(char c) { fputc(c, h_out); h_first = 0; }

/* ---- requests ---- */
struct arg { bool isbytes; long n; uint8_t *b; size_t len; uint8_t *base; };
#define MAXARGS 4096
static struct arg A[MAXARGS];
static int NA;

/* a buffer of exactly n octets: with ASan any access outside it is reported, for n = 0 too */
static uint8_t *h_exact(const uint8_t *src, size_t n, uint8_t **base)
{
	if (n == 0) {
		*base = malloc(32);
		ASAN_POISON_MEMORY_REGION(*base, 32);
		return *base + 16;
	}
	*base = malloc(n);
	if (src) memcpy(*base, src, n);
	return *base;
}
static void h_unexact(uint8_t *base, size_t n)
{
	if (n == 0) ASAN_UNPOISON_MEMORY_REGION(base, 32);
	free(base);
}
static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static int h_parse(char *line, char **op)
{
	char *save = NULL, *t = strtok_r(line, " \n", &save);
	NA = 0;
	if (!t) return 0;
	*op = t;
	while ((t = strtok_r(NULL, " \n", &save)) != NULL && NA < MAXARGS) {
		struct arg *a = &A[NA++];
		memset(a, 0, sizeof(*a));
		if (*t == 'x') {
			size_t n = strlen(t + 1) / 2;
			a->isbytes = true;
			a->len = n;
			a->b = h_exact(NULL, n, &a->base);
			for (size_t i = 0; i < n; i++)
				a->b[i] = hexv(t[1 + 2*i]) << 4 | hexv(t[2 + 2*i]);
		} else {
			a->n = strtol(t, NULL, 10);
		}
	}
	return 1;
}
static void h_freeargs(void)
{
	for (int i = 0; i < NA; i++)
		if (A[i].isbytes) h_unexact(A[i].base, A[i].len);
}
/* the bytes of an argument as a NUL-terminated string in an exact buffer */
static char *h_cstr(struct arg *a)
{
	char *s = malloc(a->len + 1);
	if (a->len) memcpy(s, a->b, a->len);
	s[a->len] = 0;
	return s;
}
static void h_echo_args(void)
{
	j_open("a", '[');
	for (int i = 0; i < NA; i++) {
		j_sep();
		if (A[i].isbytes) j_rawbytes(A[i].b, A[i].len);
		else fprintf(h_out, "%ld", A[i].n);
	}
	j_close(']');
}

#define H_TIMEOUT_RC 77
static void h_alarm(int s) { (void)s; _exit(H_TIMEOUT_RC); }
static void h_timer(int sec)
{
	struct itimerval it = { {0, 0}, {sec, 0} };
	setitimer(ITIMER_REAL, &it, NULL);
}

struct hop { const char *name; void (*fn)(void); };

/* main loop: argv[1] request file, argv[2] output ndjson (appended), argv[3] first request, argv[4] seconds per request */
static int h_main(int argc, char **argv, const struct hop *ops)
{
	static char obuf[1 << 20];
	char *line = NULL; size_t cap = 0; long i = 0;
	FILE *in = fopen(argv[1], "r");
	long start = argc > 3 ? atol(argv[3]) : 0;
	int tmo = argc > 4 ? atoi(argv[4]) : 10;
	h_out = fopen(argv[2], "a");
	if (!in || !h_out) { perror("open"); return 99; }
	setvbuf(h_out, obuf, _IOFBF, sizeof(obuf));
	signal(SIGALRM, h_alarm);
#if defined(__SANITIZE_ADDRESS__) || defined(H_MSAN)
	__sanitizer_install_malloc_and_free_hooks(h_on_malloc, h_on_free);
#endif
	while (getline(&line, &cap, in) > 0) {
		char *op = NULL;
		long live0, k = i++;
		const struct hop *o;
		if (k < start) continue;
		if (!h_parse(line, &op)) continue;
		for (o = ops; o->name && strcmp(o->name, op); o++) ;
		if (!o->name) { fprintf(stderr, "unknown op %s\n", op); return 98; }
		/* a record is written whole or not at all: the driver turns a death into a crash record */
		fflush(h_out);
		h_first = 1;
		fputc('{', h_out);
		j_int("i", k);
		j_str("op", op);
		h_echo_args();
		h_timer(tmo);
		live0 = h_live;
		j_open("r", '{');
		o->fn();
		j_close('}');
		h_timer(0);
		j_int("leak", h_live - live0);
		j_int("crash", 0);
		fputs("}\n", h_out);
		fflush(h_out);
		h_freeargs();
	}
	fclose(h_out);
	fclose(in);
	return 0;
}
#endif
