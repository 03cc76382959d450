/* Runs the command-line tools as they are, each in a child of its own, and records what they printed and how they ended. */
#define main wh_main
#include "wh.c"
#undef main
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#define th_pcap_loop real_pcap_loop
#include <pcap.h>

int t_dump_file(int, char **), t_dump_pcap(int, char **), t_version(int, char **);
int t_print(int, char **), t_serialize(int, char **), t_deserialize(int, char **), t_downcase(int, char **);
void __sanitizer_set_death_callback(void (*)(void));

static char T_dir[200], T_in[240], T_out[240];
static void t_rm(void) { unlink(T_in); unlink(T_out); rmdir(T_in); rmdir(T_dir); }
static void t_scratch(void)
{
	snprintf(T_dir, sizeof(T_dir), "%s/th.XXXXXX", getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
	if (!mkdtemp(T_dir)) { perror("mkdtemp"); _exit(99); }
	snprintf(T_in, sizeof(T_in), "%s/in", T_dir);
	snprintf(T_out, sizeof(T_out), "%s/out", T_dir);
}
static void t_dead(void) { _exit(66); }

struct run { int st; char *out, *err; size_t outsz, errsz; };
static char *t_slurp(int fd, size_t *sz)
{
	struct stat sb;
	char *p;
	size_t got = 0;
	ssize_t n;
	if (fstat(fd, &sb) < 0) _exit(99);
	p = malloc(sb.st_size + 1);
	while (got < (size_t)sb.st_size && (n = pread(fd, p + got, sb.st_size - got, got)) > 0) got += n;
	p[got] = 0;
	*sz = got;
	return p;
}
/* st: 0 or 1 as the tool ended; 66 when the sanitizer stopped it; 1000 + signal */
static struct run t_run(int (*fn)(int, char **), int argc, char **argv)
{
	struct run r = { 0 };
	int o = memfd_create("out", 0), e = memfd_create("err", 0), st;
	pid_t pid;
	if (o < 0 || e < 0) { perror("memfd"); _exit(99); }
	fflush(h_out);
	if ((pid = fork()) == 0) {
		int z = open("/dev/null", O_RDONLY);
		struct itimerval it = { {0, 0}, {9, 0} };
		dup2(z, 0), dup2(o, 1), dup2(e, 2);
		signal(SIGALRM, SIG_DFL);
		setitimer(ITIMER_REAL, &it, NULL);
		__sanitizer_set_death_callback(t_dead);
		st = fn(argc, argv);
		fflush(NULL);
		_exit(st & 255);
	}
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
	r.st = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	r.out = t_slurp(o, &r.outsz);
	r.err = t_slurp(e, &r.errsz);
	close(o), close(e);
	return r;
}
static void t_end(struct run *r) { free(r->out); free(r->err); }
static char *t_dup(const void *p, size_t n) { char *s = malloc(n + 1); if (n) memcpy(s, p, n); s[n] = 0; return s; }
static void t_write(const char *path, const void *p, size_t n)
{
	FILE *f = fopen(path, "w");
	if (!f || (n && fwrite(p, 1, n, f) != n) || fclose(f)) { perror("write"); _exit(99); }
}

static void do_tfile(void)	/* contents mode */
{
	char *v[4] = { t_dup("dump", 4), t_dup(T_in, strlen(T_in)), t_dup("more", 4), NULL };
	struct run r;
	unlink(T_in), rmdir(T_in);
	switch (A[1].n) {
	case 1: break;					/* no such file */
	case 4: mkdir(T_in, 0700); break;		/* not a file that can be read */
	default: t_write(T_in, A[0].b, A[0].len);
	}
	r = t_run(t_dump_file, A[1].n == 2 ? 3 : A[1].n == 3 ? 1 : 2, (char *[]){ v[0], A[1].n == 3 ? NULL : v[1], A[1].n == 2 ? v[2] : NULL, NULL });
	j_int("st", r.st);
	j_bytes("out", r.out, r.outsz);
	t_end(&r);
	for (int i = 0; i < 3; i++) free(v[i]);
	unlink(T_in), rmdir(T_in);
}

static int (*const T_hex[])(int, char **) = { t_print, t_serialize, t_deserialize, t_downcase };
static struct run t_hex(int which, char *text, int args)
{
	char *n = t_dup("tool", 4), *x = t_dup("00", 2);
	struct run r = t_run(T_hex[which & 3], args, (char *[]){ n, args > 1 ? text : NULL, args > 2 ? x : NULL, NULL });
	free(n), free(x);
	return r;
}
static char *t_tohex(const uint8_t *b, size_t n, int up)
{
	char *s = malloc(2 * n + 1);
	for (size_t i = 0; i < n; i++) {
		const char *d = up == 1 || (up == 2 && i % 2) ? "0123456789ABCDEF" : "0123456789abcdef";
		s[2 * i] = d[b[i] >> 4], s[2 * i + 1] = d[b[i] & 15];
	}
	s[2 * n] = 0;
	return s;
}
static void do_tbad(void)	/* which text args: text that is no message or set */
{
	char *s = t_dup(A[1].b, A[1].len);
	struct run r = t_hex(A[0].n, s, A[2].n);
	j_int("st", r.st);
	free(s), t_end(&r);
}
static void do_tprint(void)	/* message case */
{
	char *s = t_tohex(A[0].b, A[0].len, A[1].n);
	struct run r = t_hex(0, s, 2);
	j_int("st", r.st);
	j_bytes("out", r.out, r.outsz);
	free(s), t_end(&r);
}
static void do_tser(void)	/* message case */
{
	char *s = t_tohex(A[0].b, A[0].len, A[1].n), *p, *e;
	struct run r = t_hex(1, s, 2);
	int bad = 0;
	j_int("st", r.st);
	j_int("outsz", r.outsz);
	j_open("sets", '[');
	for (p = r.err; r.st == 0 && *p; p = e + 1) {
		wdns_rrset_t d;
		size_t n;
		uint8_t *b, *base;
		if ((e = strchr(p, '\n')) == NULL) { bad++; break; }
		n = (e - p) / 2;
		b = h_exact(NULL, n, &base);
		for (size_t i = 0; i < n; i++) {
			if (!isxdigit((unsigned char)p[2 * i]) || !isxdigit((unsigned char)p[2 * i + 1])) bad++;
			b[i] = hexv(p[2 * i]) << 4 | hexv(p[2 * i + 1]);
		}
		if ((e - p) % 2) bad++;
		if (wdns_deserialize_rrset(&d, b, n) == wdns_res_success) dump_rrset(NULL, &d), wdns_clear_rrset(&d);
		else bad++;
		h_unexact(base, n);
	}
	j_close(']');
	j_int("bad", bad);
	free(s), t_end(&r);
}
/* the two tools that take a serialized set; the set is reported as the library reads it */
static void t_set(const uint8_t *b, size_t n, int which, int up)
{
	char *s = t_tohex(b, n, up);
	struct run r = t_hex(which, s, 2);
	wdns_rrset_t d;
	j_int("st", r.st);
	j_bytes("out", r.out, r.outsz);
	j_open("set", '[');
	if (wdns_deserialize_rrset(&d, b, n) == wdns_res_success) dump_rrset(NULL, &d), wdns_clear_rrset(&d);
	j_close(']');
	free(s), t_end(&r);
}
static void do_tset(void)	/* which case name type class ttl-hi ttl-lo data... */
{
	wdns_rrset_t s;
	size_t sz = 0;
	uint8_t *b;
	arg_rrset(&s, 2);
	if (wdns_serialize_rrset(&s, NULL, &sz) || (b = malloc(sz)) == NULL || wdns_serialize_rrset(&s, b, NULL)) _exit(99);
	t_set(b, sz, A[0].n, A[1].n);
	free(b);
	wdns_clear_rrset(&s);
}
static void do_traw(void) { t_set(A[2].b, A[2].len, A[0].n, A[1].n); }	/* which case octets */

/* ---- captures ---- */
static pcap_handler T_handler;
static void t_each(u_char *user, const struct pcap_pkthdr *h, const u_char *pkt)
{
	uint8_t *base, *p = h_exact(pkt, h->caplen, &base);
	T_handler(user, h, p);
	h_unexact(base, h->caplen);
}
#undef th_pcap_loop
int pcap_loop(pcap_t *, int, pcap_handler, u_char *);
int th_pcap_loop(pcap_t *p, int n, pcap_handler f, u_char *u) { T_handler = f; return pcap_loop(p, n, t_each, u); }
int th_pcap_dispatch(pcap_t *p, int n, pcap_handler f, u_char *u) { T_handler = f; return pcap_dispatch(p, n, t_each, u); }

static void t_le32(FILE *f, uint32_t v) { for (int i = 0; i < 4; i++) fputc(v >> 8 * i & 255, f); }
static uint32_t t_rd32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static long t_count(const char *err, const char *key)
{
	const char *p = err, *at = NULL;
	for (; (p = strstr(p, key)) != NULL; p++) if (p == err || p[-1] == '\n') at = p;
	return at ? atol(at + strlen(key)) : -1;
}
static void do_tpcap(void)	/* mode filter extra packets...: mode 0 plain, 1 no such file, 2 too few arguments, 3 not a capture, 4 last record cut */
{
	static const char *const filters[] = { "", "ip", "((", "udp" };
	char *v[5] = { t_dup("pcap", 4), t_dup(T_in, strlen(T_in)), t_dup(T_out, strlen(T_out)), t_dup(filters[A[1].n & 3], strlen(filters[A[1].n & 3])), NULL };
	struct run r;
	int fd;
	unlink(T_in), unlink(T_out);
	if (A[0].n != 1) {
		FILE *f = fopen(T_in, "w");
		if (!f) _exit(99);
		if (A[0].n == 3) fputs("hello, this is not a capture file at all", f);
		else {
			t_le32(f, 0xa1b2c3d4), t_le32(f, 4 << 16 | 2), t_le32(f, 0), t_le32(f, 0), t_le32(f, 262144), t_le32(f, 1);
			for (int i = 3; i < NA; i++) {
				t_le32(f, 1000 + i), t_le32(f, i), t_le32(f, A[i].len), t_le32(f, A[i].len + A[2].n);
				fwrite(A[i].b, 1, A[i].len - (A[0].n == 4 && i == NA - 1 && A[i].len), f);
			}
		}
		fclose(f);
	}
	r = t_run(t_dump_pcap, A[0].n == 2 ? 3 : 4, v);
	j_int("st", r.st);
	j_bytes("out", r.out, r.outsz);
	j_int("count", t_count(r.err, "count="));
	j_int("cdump", t_count(r.err, "count_dump="));
	j_open("kept", '[');		/* the packets written out: when, original length, octets */
	if ((fd = open(T_out, O_RDONLY)) >= 0) {
		size_t sz, at = 24;
		uint8_t *p = (uint8_t *)t_slurp(fd, &sz);
		while (sz >= at + 16) {
			uint32_t n = t_rd32(p + at + 8);
			j_open(NULL, '[');
			j_sep(), fprintf(h_out, "%u", t_rd32(p + at)), j_sep(), fprintf(h_out, "%u", t_rd32(p + at + 4)), j_sep(), fprintf(h_out, "%u", t_rd32(p + at + 12));
			j_sep();
			if (sz < at + 16 + n) n = 0;
			j_rawbytes(p + at + 16, n);
			j_close(']');
			at += 16 + n;
		}
		free(p), close(fd);
	}
	j_close(']');
	t_end(&r);
	for (int i = 0; i < 4; i++) free(v[i]);
	unlink(T_in), unlink(T_out);
}
static void do_tver(void)
{
	char *n = t_dup("version", 7);
	struct run r = t_run(t_version, 1, (char *[]){ n, NULL });
	j_int("st", r.st);
	j_bytes("out", r.out, r.outsz);
	j_bytes("text", wdns_get_version(), strlen(wdns_get_version()));
	j_int("num", wdns_get_version_number());
	free(n), t_end(&r);
}

static const struct hop TOPS[] = {
	{ "tfile", do_tfile }, { "tbad", do_tbad }, { "tprint", do_tprint }, { "tser", do_tser }, { "tset", do_tset }, { "traw", do_traw },
	{ "tpcap", do_tpcap }, { "tver", do_tver }, { NULL, NULL }
};
int main(int argc, char **argv)
{
	int rc;
	t_scratch();
	rc = h_main(argc, argv, TOPS);
	t_rm();
	return rc;
}
