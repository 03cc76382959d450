/* The argument processor (libmy/argv.c): one table, one command line per request. */
#include "hcommon.h"
#include <sys/stat.h>
#include <sys/wait.h>
#include "argv.h"

static char dir[4200], here[4096];
static const char *const PROG[][3] = {
	{ "prog", "ARGV_PROG", "prog" }, { "./bin/my-prog", "ARGV_MY-PROG", "my-prog" }, { "/a/b.c/d9", "ARGV_D9", "d9" } };

static size_t size_of(unsigned t)
{
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: case ARGV_CHAR: return 1;
	case ARGV_CHAR_P: return sizeof(char *);
	case ARGV_SHORT: case ARGV_U_SHORT: return sizeof(short);
	case ARGV_LONG: case ARGV_U_LONG: case ARGV_SIZE: case ARGV_U_SIZE: return sizeof(long);
	case ARGV_FLOAT: return sizeof(float);
	case ARGV_DOUBLE: return sizeof(double);
	default: return sizeof(int);
	}
}
static void preset(void *v, unsigned t)
{
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: *(char *)v = 7; break;
	case ARGV_CHAR: *(char *)v = 'z'; break;
	case ARGV_CHAR_P: *(char **)v = NULL; break;
	case ARGV_SHORT: case ARGV_U_SHORT: *(short *)v = 7; break;
	case ARGV_LONG: case ARGV_U_LONG: case ARGV_SIZE: case ARGV_U_SIZE: *(long *)v = 7; break;
	case ARGV_FLOAT: *(float *)v = 7; break;
	case ARGV_DOUBLE: *(double *)v = 7; break;
	default: *(int *)v = 7; break;
	}
}
static void show(const void *v, unsigned t)
{
	char b[400];
	j_sep();
	switch (t) {
	case ARGV_BOOL: case ARGV_BOOL_NEG: case ARGV_BOOL_ARG: sprintf(b, "%d", *(char *)v); break;
	case ARGV_CHAR: j_rawbytes(v, 1); return;
	case ARGV_CHAR_P: j_rawbytes(*(char **)v, strlen(*(char **)v)); return;
	case ARGV_SHORT: sprintf(b, "%d", *(short *)v); break;
	case ARGV_U_SHORT: sprintf(b, "%u", *(unsigned short *)v); break;
	case ARGV_U_INT: sprintf(b, "%u", *(unsigned *)v); break;
	case ARGV_LONG: case ARGV_SIZE: sprintf(b, "%ld", *(long *)v); break;
	case ARGV_U_LONG: case ARGV_U_SIZE: sprintf(b, "%lu", *(unsigned long *)v); break;
	case ARGV_FLOAT: snprintf(b, sizeof b, "%f", *(float *)v); break;
	case ARGV_DOUBLE: snprintf(b, sizeof b, "%f", *(double *)v); break;
	default: sprintf(b, "%d", *(int *)v); break;
	}
	j_rawbytes(b, strlen(b));
}
static void put_file(const char *name, struct arg *a)
{
	FILE *f = fopen(name, "w");
	if (!f) _exit(99);
	fwrite(a->b, 1, a->len, f);
	fclose(f);
}
#define IS_SEP(c) ((c) == ARGV_OR || (c) == ARGV_XOR)

/* flags, program, file F, file E, environment, buffer sizes [copy, string], entries, entries..., words... */
static void do_args(void)
{
	int fl = A[0].n, n = A[6].n, nw = NA - 7 - n, same = 1, ret;
	const char *const *pr = PROG[A[1].n % 3];
	argv_t *t = calloc(n + 1, sizeof(argv_t));
	char **w = calloc(nw + 2, sizeof(char *)), **w2 = calloc(nw + 2, sizeof(char *)), *env = h_cstr(&A[4]), *env_text = NULL;
	char **lname = calloc(n + 1, sizeof(char *));
	int csize = A[5].b[0] * 256 + A[5].b[1], ssize = A[5].b[2] * 256 + A[5].b[3];
	long live0, kept;

	if (chdir(dir)) _exit(99);
	put_file("F", &A[2]), put_file("E", &A[3]);
	argv_interactive = 0, argv_error_stream = NULL;
	argv_close_enable_b = fl & 1, argv_last_toggle_b = !!(fl & 2), argv_multi_accept_b = !!(fl & 4);
	argv_env_after_b = !!(fl & 8), argv_process_env_b = !!(fl & 16);
	for (int i = 0; i < 3; i++) unsetenv(PROG[i][1]);
	if (*env) {
		env_text = malloc(strlen(env) + strlen(pr[1]) + 2);
		sprintf(env_text, "%s=%s", pr[1], env);
		putenv(env_text);
	}

	for (int i = 0; i < n; i++) {
		struct arg *e = &A[7 + i];	/* letter, type, flags (1 array, 2 mandatory, 4 no variable, 8 has a long name), long name */
		t[i].ar_short_arg = e->b[0];
		t[i].ar_type = e->b[1] | (e->b[2] & 1 ? ARGV_FLAG_ARRAY : 0) | (e->b[2] & 2 ? ARGV_FLAG_MAND : 0);
		if (e->b[2] & 8) {
			t[i].ar_long_arg = strndup((char *)e->b + 3, e->len - 3);
			lname[i] = strdup(t[i].ar_long_arg);
		}
		if (e->b[2] & 4 || IS_SEP(t[i].ar_short_arg)) continue;
		if (e->b[2] & 1) t[i].ar_variable = calloc(1, sizeof(argv_array_t));
		else t[i].ar_variable = malloc(size_of(e->b[1])), preset(t[i].ar_variable, e->b[1]);
	}
	t[n].ar_short_arg = ARGV_LAST;
	w[0] = strdup(pr[0]);
	for (int i = 0; i < nw; i++) w[i + 1] = h_cstr(&A[7 + n + i]), w2[i + 1] = strdup(w[i + 1]);

	live0 = h_live;
	ret = (fl & 64 ? argv_process_no_env : argv_process)(n == 0 && fl & 32 ? NULL : t, nw + 1, w);
	j_int("ret", ret);
	j_bytes("prog", argv_program, strlen(argv_program));
	for (int i = 1; i <= nw; i++) same &= !strcmp(w[i], w2[i]);
	j_int("same", same);
	if (csize > 0) {
		char *b = malloc(csize);
		int cr = argv_copy_args(b, csize);
		j_int("cret", cr);
		j_bytes("copy", b, strnlen(b, csize));
		free(b);
	}
	if (ret == 0) {
		j_open("used", '[');
		for (int i = 0; i < n; i++) j_sep(), fprintf(h_out, "%d", IS_SEP(t[i].ar_short_arg) ? 0 : argv_entry_was_used(&t[i]));
		j_close(']');
		j_open("short", '[');
		for (int i = 0; i < n; i++) j_sep(), fprintf(h_out, "%d", IS_SEP(t[i].ar_short_arg) ? 0 : argv_was_used(t, t[i].ar_short_arg));
		j_close(']');
		j_open("long", '[');
		for (int i = 0; i < n; i++) j_sep(), fprintf(h_out, "%d", lname[i] == NULL ? 0 : argv_long_was_used(t, lname[i]));
		j_close(']');
		j_int("none", argv_was_used(t, '!') + argv_long_was_used(t, "no such name"));
		j_open("vals", '[');
		for (int i = 0; i < n; i++) {
			unsigned ty = ARGV_TYPE(t[i].ar_type);
			j_sep(), fputc('[', h_out), h_first = 1;
			if (!IS_SEP(t[i].ar_short_arg)) {
				if (t[i].ar_type & ARGV_FLAG_ARRAY) {
					argv_array_t *v = (argv_array_t *)t[i].ar_variable;
					for (int k = 0; k < ARGV_ARRAY_COUNT(*v); k++) show((char *)v->aa_entries + k * size_of(ty), ty);
				} else if (ty != ARGV_CHAR_P || *(char **)t[i].ar_variable)
					show(t[i].ar_variable, ty);
			}
			j_close(']');
		}
		j_close(']');
		j_open("strs", '[');
		for (int i = 0; i < n; i++) {
			char *b = malloc(ssize);
			int k = IS_SEP(t[i].ar_short_arg) ? 0 : argv_value_string(&t[i], b, ssize);
			j_sep();
			if (k < 0 || k > ssize) fprintf(h_out, "[%d]", -2 - k);
			else j_rawbytes(b, k);
			free(b);
		}
		j_close(']');
	}
	argv_cleanup(t);
	kept = h_live - live0;
	j_int("kept", kept);
	for (int i = 0; i < n; i++) {
		if (t[i].ar_variable) free(t[i].ar_variable);
		free((char *)t[i].ar_long_arg), free(lname[i]);
	}
	for (int i = 0; i <= nw; i++) free(w[i]), free(w2[i]);
	free(w), free(w2), free(t), free(lname), free(env);
	if (*here && chdir(here)) _exit(99);
	for (int i = 0; i < 3; i++) unsetenv(PROG[i][1]);
	free(env_text);
	h_live -= kept;		/* judged above */
}
static argv_t *usage_table(struct arg *a, int n, char *label)
{
	argv_t *t = calloc(n + 1, sizeof(argv_t));
	for (int i = 0; i < n; i++) {
		struct arg *e = a + i;	/* as above; also 16 label on the value, 32 note */
		t[i].ar_short_arg = e->b[0];
		t[i].ar_type = e->b[1] | (e->b[2] & 1 ? ARGV_FLAG_ARRAY : 0) | (e->b[2] & 2 ? ARGV_FLAG_MAND : 0);
		if (e->b[2] & 8) t[i].ar_long_arg = strndup((char *)e->b + 3, e->len - 3);
		if (e->b[2] & 16) t[i].ar_var_label = label;
		if (e->b[2] & 32) t[i].ar_comment = label;
	}
	t[n].ar_short_arg = ARGV_LAST;
	return t;
}
/* which usage, default usage, label, entries...: the text */
static void do_ausage(void)
{
	int n = NA - 3;
	char *b = NULL, *label = h_cstr(&A[2]);
	argv_t *t = usage_table(&A[3], n, label);
	size_t len = 0;
	strcpy(argv_program, "prog");
	argv_interactive = 0, argv_usage_type = A[1].n;
	argv_error_stream = open_memstream(&b, &len);
	j_int("ret", argv_usage(n == 0 ? NULL : t, A[0].n));
	fclose(argv_error_stream), argv_error_stream = NULL;
	j_bytes("text", b, len);
	for (int i = 0; i < n; i++) free((char *)t[i].ar_long_arg);
	free(b), free(label), free(t);
}
/* settings, usage on errors, usage on request, exit code, label, version, number of entries, entries..., words...:
   the program as people run it, in a process of its own */
static char text[70000];
static void do_arun(void)
{
	int n = A[6].n, nw = NA - 7 - n, pfd[2], st = 0;
	size_t len = 0;
	ssize_t k;
	pid_t pid;
	if (pipe(pfd)) _exit(99);
	fflush(NULL);
	pid = fork();
	if (pid < 0) _exit(99);
	if (pid == 0) {
		char *label = h_cstr(&A[4]), *version = h_cstr(&A[5]), **w = calloc(nw + 2, sizeof(char *));
		argv_t *t = usage_table(&A[7], n, label);
		int ret;
		for (int fd = 3; fd < 64; fd++) if (fd != pfd[1]) close(fd);	/* leaving must not move our files */
		for (int i = 0; i < n; i++) {
			struct arg *e = &A[7 + i];
			if (e->b[2] & 4 || IS_SEP(t[i].ar_short_arg)) continue;
			if (e->b[2] & 1) t[i].ar_variable = calloc(1, sizeof(argv_array_t));
			else t[i].ar_variable = malloc(size_of(e->b[1])), preset(t[i].ar_variable, e->b[1]);
		}
		w[0] = strdup("/x/prog");
		for (int i = 0; i < nw; i++) w[i + 1] = h_cstr(&A[7 + n + i]);
		argv_close_enable_b = A[0].n & 1, argv_last_toggle_b = !!(A[0].n & 2), argv_multi_accept_b = !!(A[0].n & 4);
		argv_process_env_b = 0, argv_env_after_b = 0;
		argv_interactive = 1, argv_error_type = A[1].n, argv_usage_type = A[2].n, argv_error_code = A[3].n;
		argv_version_string = *version ? version : NULL;
		argv_error_stream = fdopen(pfd[1], "w");
		ret = argv_process(t, nw + 1, w);
		fflush(argv_error_stream);
		_exit(ret == 0 ? 200 : 201);
	}
	close(pfd[1]);
	while ((k = read(pfd[0], text + len, sizeof text - len)) > 0) len += k;
	close(pfd[0]);
	if (waitpid(pid, &st, 0) != pid) _exit(99);
	j_int("code", WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st));
	j_bytes("text", text, len);
}
/* the settings before, the text of GLOBAL_ARGV: the settings after, read once by a process of its own */
static void do_asetting(void)
{
	int pfd[2], st = 0, v[8], *const g[] = { &argv_close_enable_b, &argv_last_toggle_b, &argv_process_env_b, &argv_env_after_b, &argv_error_type, &argv_multi_accept_b, &argv_usage_type };
	pid_t pid;
	if (pipe(pfd)) _exit(99);
	fflush(NULL);
	pid = fork();
	if (pid < 0) _exit(99);
	if (pid == 0) {
		char *e = h_cstr(&A[7]), *w[2] = { (char *)"prog", NULL };
		close(pfd[0]);
		for (int i = 0; i < 7; i++) *g[i] = A[i].n;
		argv_interactive = 0, argv_error_stream = NULL;
		setenv("GLOBAL_ARGV", e, 1);
		v[7] = argv_process(NULL, 1, w);
		setenv("GLOBAL_ARGV", "close=off,lasttog=on", 1);
		v[7] |= A[0].n & 1 ? argv_process(NULL, 1, w) : 0;	/* read once only */
		for (int i = 0; i < 7; i++) v[i] = *g[i];
		if (write(pfd[1], v, sizeof v) != sizeof v) _exit(1);
		_exit(0);
	}
	close(pfd[1]);
	if (read(pfd[0], v, sizeof v) != sizeof v) memset(v, 0x7f, sizeof v);
	close(pfd[0]);
	if (waitpid(pid, &st, 0) != pid) _exit(99);
	j_int("ret", v[7]);
	j_open("set", '[');
	for (int i = 0; i < 7; i++) j_sep(), fprintf(h_out, "%d", v[i]);
	j_close(']');
}
/* the settings before anybody touched them */
static int left_alone[8];
static void do_adefault(void)
{
	j_open("set", '[');
	for (int i = 0; i < 8; i++) j_sep(), fprintf(h_out, "%d", left_alone[i]);
	j_close(']');
}
/* type: its name, size and description */
static void do_atype(void)
{
	unsigned size = 99;
	const char *desc = NULL, *name = argv_type_info(A[0].n, &size, &desc);
	j_int("size", size);
	j_int("known", strcmp(name, "(unknown type)") != 0 && strcmp(desc, "Unknown type") != 0);
	j_int("both", name[0] && desc[0] && argv_type_info(A[0].n, NULL, NULL) == name);
}
static const struct hop OPS[] = { { "args", do_args }, { "ausage", do_ausage }, { "arun", do_arun }, { "asetting", do_asetting }, { "adefault", do_adefault }, { "atype", do_atype }, { NULL, NULL } };
static pid_t me;
static void sweep(void)
{
	char p[4300];
	if (getpid() != me) return;
	sprintf(p, "%s/F", dir), unlink(p), sprintf(p, "%s/E", dir), unlink(p), rmdir(dir);
}
int main(int argc, char **argv)
{
	int rc, now[] = { argv_close_enable_b, argv_last_toggle_b, argv_process_env_b, argv_env_after_b, argv_multi_accept_b, argv_usage_type, argv_interactive, argv_argc };
	memcpy(left_alone, now, sizeof now);
	if (!getcwd(here, sizeof here)) return 99;
	sprintf(dir, "%s/ah.XXXXXX", here);
	if (!mkdtemp(dir)) return 99;
	me = getpid(), atexit(sweep);
	unsetenv("GLOBAL_ARGV");
	putenv("ARGV_D9=x");	/* the environment grows before the accounting starts */
	rc = h_main(argc, argv, OPS);
	return rc;
}
