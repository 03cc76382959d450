/* The zone file reader (libmy/zonefile.c) over a stand-in for ldns: one file and one script of calls per request. */
#include "hcommon.h"
#include <dirent.h>
#include <sys/stat.h>
#include <ldns/ldns.h>
#include "zonefile.h"

/* ---- the stand-in: lines are "$ORIGIN name", "$TTL n", "owner [ttl] A|SOA value", comments after ';' ---- */
static ldns_rdf *rdf_new(const char *s)
{
	ldns_rdf *r = malloc(sizeof *r);
	r->text = strdup(s);
	return r;
}
ldns_rdf *ldns_rdf_clone(const ldns_rdf *r) { return rdf_new(r->text); }
void ldns_rdf_deep_free(ldns_rdf *r) { free(r->text); free(r); }
ldns_rr_type ldns_rr_get_type(const ldns_rr *rr) { return rr->type; }
ldns_rdf *ldns_rr_owner(const ldns_rr *rr) { return rr->owner; }
ldns_rdf *ldns_rr_rdf(const ldns_rr *rr, size_t k) { return rr && k < rr->n ? rr->rdf[k] : NULL; }
uint32_t ldns_rdf2native_int32(const ldns_rdf *r) { return strtoul(r->text, NULL, 10); }
void ldns_rr_free(ldns_rr *rr)
{
	if (!rr) return;
	ldns_rdf_deep_free(rr->owner);
	for (size_t k = 0; k < rr->n; k++) ldns_rdf_deep_free(rr->rdf[k]);
	free(rr);
}
static bool digits(const char *s) { return *s && s[strspn(s, "0123456789")] == 0; }
ldns_status ldns_rr_new_frm_fp_l(ldns_rr **out, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev, int *line_nr)
{
	char *line = NULL, *tok[6], *p, *save, name[2100];
	size_t room = 0, n = 0;
	ssize_t len = getline(&line, &room, fp);
	ldns_status st = LDNS_STATUS_SYNTAX_ERR;
	uint32_t t = *ttl;
	if (len == -1) { free(line); return LDNS_STATUS_SYNTAX_EMPTY; }
	if (line_nr) (*line_nr)++;
	line[strcspn(line, ";\n")] = 0;
	bool blank = line[0] == ' ' || line[0] == '\t';
	for (p = strtok_r(line, " \t", &save); p && n < 6; p = strtok_r(NULL, " \t", &save)) tok[n++] = p;
	size_t k = blank ? 0 : 1;
	if (n == 0) st = LDNS_STATUS_SYNTAX_EMPTY;
	else if (!strcmp(tok[0], "$ORIGIN") && !blank) {
		if (n == 2 && tok[1][strlen(tok[1]) - 1] == '.') {
			if (*origin) ldns_rdf_deep_free(*origin);
			*origin = rdf_new(tok[1]);
			st = LDNS_STATUS_SYNTAX_ORIGIN;
		}
	} else if (!strcmp(tok[0], "$TTL") && !blank) {
		if (n == 2 && digits(tok[1])) *ttl = strtoul(tok[1], NULL, 10), st = LDNS_STATUS_SYNTAX_TTL;
	} else {
		const char *o = *origin ? (*origin)->text : ".";
		if (n > k && digits(tok[k])) t = strtoul(tok[k], NULL, 10), k++;
		if (n == k + 2 && (!strcmp(tok[k], "A") || !strcmp(tok[k], "SOA")) && digits(tok[k + 1]) && !(blank && !*prev)) {
			ldns_rr *rr = calloc(1, sizeof *rr);
			if (blank) snprintf(name, sizeof name, "%s", (*prev)->text);
			else if (!strcmp(tok[0], "@")) snprintf(name, sizeof name, "%s", o);
			else if (tok[0][strlen(tok[0]) - 1] == '.') snprintf(name, sizeof name, "%s", tok[0]);
			else snprintf(name, sizeof name, "%s.%s", tok[0], strcmp(o, ".") ? o : "");
			rr->owner = rdf_new(name), rr->ttl = t;
			if (tok[k][0] == 'S') rr->type = LDNS_RR_TYPE_SOA, rr->rdf[0] = rdf_new("m."), rr->rdf[1] = rdf_new("r."), rr->n = 2;
			else rr->type = LDNS_RR_TYPE_A;
			rr->rdf[rr->n++] = rdf_new(tok[k + 1]);
			if (*prev) ldns_rdf_deep_free(*prev);
			*prev = rdf_new(name);
			*out = rr, st = LDNS_STATUS_OK;
		}
	}
	free(line);
	return st;
}

ldns_status ldns_rr_new_frm_fp(ldns_rr **out, FILE *fp, uint32_t *ttl, ldns_rdf **origin, ldns_rdf **prev) { return ldns_rr_new_frm_fp_l(out, fp, ttl, origin, prev, NULL); }
ldns_rr *ldns_rr_clone(const ldns_rr *rr)
{
	ldns_rr *c = calloc(1, sizeof *c);
	*c = *rr, c->owner = rdf_new(rr->owner->text);
	for (size_t k = 0; k < rr->n; k++) c->rdf[k] = rdf_new(rr->rdf[k]->text);
	return c;
}
uint32_t ldns_rr_ttl(const ldns_rr *rr) { return rr->ttl; }
size_t ldns_rr_rd_count(const ldns_rr *rr) { return rr->n; }
int ldns_rdf_compare(const ldns_rdf *a, const ldns_rdf *b) { return strcmp(a->text, b->text); }

/* ---- requests ---- */
static char dir[4200], here[4096];
static int only_dots(const struct dirent *d) { return strcmp(d->d_name, ".") && strcmp(d->d_name, ".."); }
static int sweep_dir(const char *keep)
{
	struct dirent **l = NULL;
	int n = scandir(dir, &l, only_dots, alphasort), others = 0;
	for (int i = 0; i < n; i++) {
		char p[4600];
		snprintf(p, sizeof p, "%s/%s", dir, l[i]->d_name);
		others += !keep || strcmp(keep, l[i]->d_name);
		if (unlink(p)) rmdir(p);
		free(l[i]);
	}
	if (n >= 0) free(l);
	return others;
}
static void res(int k, const char *a, const char *b, const char *c)
{
	char n[12];
	sprintf(n, "%d", k);
	j_sep(), fputc('[', h_out);
	j_rawbytes(n, strlen(n)), fputc(',', h_out);
	j_rawbytes(a, strlen(a)), fputc(',', h_out), j_rawbytes(b, strlen(b)), fputc(',', h_out), j_rawbytes(c, strlen(c));
	fputc(']', h_out);
}
/* how the file is kept (0 plain, 1 compressed, 2 missing, 3 a name that claims compression without it, 4 a directory), its name, its text, the calls:
   r read, s serial, d domain, c count */
static void do_zone(void)
{
	char *name = h_cstr(&A[1]), num[32], num2[32];
	struct zonefile *z;
	long live0;
	if (chdir(dir)) _exit(99);
	if (A[0].n == 4) { if (mkdir(name, 0700)) _exit(99); }
	else if (A[0].n != 2) {
		FILE *f = A[0].n == 1 ? popen("gzip -c > packed", "w") : fopen(name, "w");
		if (!f) _exit(99);
		fwrite(A[2].b, 1, A[2].len, f);
		if (A[0].n == 1) { if (pclose(f) || rename("packed", name)) _exit(99); }
		else fclose(f);
	}
	live0 = h_live;
	z = zonefile_init_fname(name);
	j_int("open", z != NULL);
	j_open("got", '[');
	for (size_t i = 0; z && i < A[3].len; i++) {
		ldns_rr *rr = NULL;
		switch (A[3].b[i]) {
		case 'r':
			if (zonefile_read(z, &rr) != LDNS_STATUS_OK) res(2, "", "", "");
			else if (!rr) res(0, "", "", "");
			else {
				sprintf(num, "%u", rr->ttl);
				res(rr->type == LDNS_RR_TYPE_SOA ? 3 : 1, rr->owner->text, num, rr->rdf[rr->n - 1]->text);
				ldns_rr_free(rr);
			}
			break;
		case 's': sprintf(num, "%u", zonefile_get_serial(z)); res(4, num, "", ""); break;
		case 'd': res(5, zonefile_get_domain(z)->text, "", ""); break;
		default: sprintf(num2, "%zu", zonefile_get_count(z)); res(6, num2, "", ""); break;
		}
	}
	j_close(']');
	zonefile_destroy(&z);
	j_int("gone", z == NULL);
	if (z) zonefile_destroy(&z);
	j_int("kept", h_live - live0);
	j_int("others", sweep_dir(A[0].n == 2 ? NULL : name));	/* nothing but the file it was given */
	if (chdir(here)) _exit(99);
	free(name);
}
static const struct hop OPS[] = { { "zone", do_zone }, { NULL, NULL } };
static void sweep(void) { sweep_dir(NULL), rmdir(dir); }
int main(int argc, char **argv)
{
	if (!getcwd(here, sizeof here)) return 99;
	sprintf(dir, "%s/zh.XXXXXX", here);
	if (!mkdtemp(dir)) return 99;
	atexit(sweep);
	return h_main(argc, argv, OPS);
}
