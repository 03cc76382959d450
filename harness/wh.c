/* Drives the public libwdns API: one request per line in, one JSON event per request out. */
#include <sys/stat.h>
#include "hcommon.h"
#include "wdns.h"

#if defined(__has_feature)
# if __has_feature(memory_sanitizer)
#  include <sanitizer/msan_interface.h>
#  define UNDEF(p, n) __msan_allocated_memory(p, n)
# endif
#endif
#ifndef UNDEF
# define UNDEF(p, n) memset(p, 0xa5, n)
#endif

static void do_unpack(void)
{
	size_t sz = 999999;
	uint8_t *base, *dst = h_exact(NULL, WDNS_MAXLEN_NAME, &base);
	wdns_res r = wdns_unpack_name(A[0].b, A[0].b + A[0].len, A[0].b + A[1].n, dst, &sz);
	j_int("res", r);
	if (r == wdns_res_success) j_bytes("out", dst, sz <= WDNS_MAXLEN_NAME ? sz : 0), j_int("sz", sz);
	h_unexact(base, 1);
}
static void do_copyu(void)
{
	size_t sz = 999999;
	uint8_t *base, *dst = h_exact(NULL, WDNS_MAXLEN_NAME, &base);
	wdns_res r = wdns_copy_uname(A[0].b, A[0].b + A[0].len, A[0].b + A[1].n, dst, &sz);
	j_int("res", r);
	if (r == wdns_res_success) j_bytes("out", dst, sz <= WDNS_MAXLEN_NAME ? sz : 0), j_int("sz", sz);
	h_unexact(base, 1);
}
/* octets, where the message starts in them, where the name is said to start in them */
static void within(wdns_res (*f)(const uint8_t *, const uint8_t *, const uint8_t *, uint8_t *, size_t *))
{
	size_t sz = 999999;
	uint8_t *base, *dst = h_exact(NULL, WDNS_MAXLEN_NAME, &base);
	wdns_res r = f(A[0].b + A[1].n, A[0].b + A[0].len, A[0].b + A[2].n, dst, &sz);
	j_int("res", r);
	if (r == wdns_res_success) j_bytes("out", dst, sz <= WDNS_MAXLEN_NAME ? sz : 0), j_int("sz", sz);
	h_unexact(base, 1);
}
static void do_unpackm(void) { within(wdns_unpack_name); }
static void do_copyum(void) { within(wdns_copy_uname); }
static void do_skip(void)
{
	const uint8_t *p = A[0].b + A[1].n;
	size_t n = wdns_skip_name(&p, A[0].b + A[0].len);
	j_int("n", (long)n);
	j_int("at", p - A[0].b);
}
static void do_lenu(void)
{
	size_t sz = 999999;
	wdns_res r = wdns_len_uname(A[0].b + A[1].n, A[0].b + A[0].len, &sz);
	j_int("res", r);
	if (r == wdns_res_success) j_int("sz", (long)(int)sz);
}
static void do_nlabels(void)
{
	wdns_name_t nm = { .len = A[0].len, .data = A[0].b };
	size_t n = 999999;
	wdns_res r = wdns_count_labels(&nm, &n);
	j_int("res", r);
	if (r == wdns_res_success) j_int("n", n);
}
static void do_d2s(void)
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, WDNS_PRESLEN_NAME, &base);
	size_t n = wdns_domain_to_str(A[0].b, A[0].len, dst);
	j_int("n", n);
	j_bytes("text", dst, strlen(dst));
	h_unexact(base, 1);
}
static void do_s2n(void)
{
	char *s = h_cstr(&A[0]);
	wdns_name_t nm = { .len = 0, .data = NULL };
	wdns_res r = A[1].n ? wdns_str_to_name_case(s, &nm) : wdns_str_to_name(s, &nm);
	j_int("res", r);
	if (r == wdns_res_success) {
		j_bytes("out", nm.data, nm.len);
		free(nm.data);
	}
	free(s);
}
/* print a name, parse the text back both ways */
static void do_nametrip(void)
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, WDNS_PRESLEN_NAME, &base);
	size_t n = wdns_domain_to_str(A[0].b, A[0].len, dst);
	j_int("n", n);
	j_bytes("text", dst, strlen(dst));
	for (int k = 0; k < 2; k++) {
		wdns_name_t nm = { .len = 0, .data = NULL };
		wdns_res r = k ? wdns_str_to_name_case(dst, &nm) : wdns_str_to_name(dst, &nm);
		j_open(k ? "case" : "fold", '[');
		if (r == wdns_res_success)
			j_sep(), j_rawbytes(nm.data, nm.len), free(nm.data);
		j_close(']');
	}
	h_unexact(base, 1);
}
static void do_rev(void)
{
	uint8_t *base, *dst = h_exact(NULL, A[0].len, &base);
	wdns_res r = wdns_reverse_name(A[0].b, A[0].len, dst);
	j_int("res", r);
	if (r == wdns_res_success) j_bytes("out", dst, A[0].len);
	h_unexact(base, A[0].len);
}
static void do_chop(void)
{
	wdns_name_t nm = { .len = A[0].len, .data = A[0].b }, ch = { 0, NULL };
	wdns_res r = wdns_left_chop(&nm, &ch);
	j_int("res", r);
	if (r == wdns_res_success) j_int("off", ch.data - A[0].b), j_int("len", ch.len);
}
static void do_sub(void)
{
	wdns_name_t n0 = { .len = A[0].len, .data = A[0].b }, n1 = { .len = A[1].len, .data = A[1].b };
	bool v = false;
	wdns_res r = wdns_is_subdomain(&n0, &n1, &v);
	j_int("res", r);
	if (r == wdns_res_success) j_int("v", v);
}
static void do_down(void)
{
	wdns_name_t nm = { .len = A[0].len, .data = malloc(A[0].len + 1) };
	uint8_t *base, *d = h_exact(A[0].len ? A[0].b : NULL, A[0].len, &base);
	free(nm.data);
	nm.data = d;
	wdns_downcase_name(&nm);
	j_bytes("out", d, A[0].len);
	h_unexact(base, A[0].len);
}


/* ---------------------------------------------------------------- messages and RRsets */
static void dump_rdatas(wdns_rdata_t **d, unsigned n)
{
	j_open("d", '[');
	for (unsigned i = 0; i < n; i++)
		j_sep(), j_rawbytes(d[i]->data, d[i]->len);
	j_close(']');
}
static void dump_rr(const wdns_rr_t *rr)
{
	j_open(NULL, '{');
	j_bytes("n", rr->name.data, rr->name.len);
	j_int("t", rr->rrtype);
	j_int("c", rr->rrclass);
	j_u32("ttl", rr->rrttl);
	j_open("d", '[');
	if (rr->rdata) j_sep(), j_rawbytes(rr->rdata->data, rr->rdata->len);
	j_close(']');
	j_close('}');
}
static void dump_rrset(const char *k, const wdns_rrset_t *s)
{
	j_open(k, '{');
	j_bytes("n", s->name.data, s->name.len);
	j_int("t", s->rrtype);
	j_int("c", s->rrclass);
	j_u32("ttl", s->rrttl);
	dump_rdatas(s->rdatas, s->n_rdatas);
	j_close('}');
}
static void dump_msg(const wdns_message_t *m)
{
	j_int("id", m->id);
	j_int("flags", m->flags);
	j_int("rcode", m->rcode);
	j_open("edns", '[');
	if (m->edns.present) {
		j_open(NULL, '{');
		j_int("v", m->edns.version);
		j_int("f", m->edns.flags);
		j_int("s", m->edns.size);
		j_open("o", '[');
		if (m->edns.options) j_sep(), j_rawbytes(m->edns.options->data, m->edns.options->len);
		j_close(']');
		j_close('}');
	}
	j_close(']');
	j_open("rrs", '[');
	for (int s = 0; s < 4; s++) {
		j_open(NULL, '[');
		for (unsigned i = 0; i < m->sections[s].n_rrs; i++) dump_rr(&m->sections[s].rrs[i]);
		j_close(']');
	}
	j_close(']');
	j_open("sets", '[');
	for (int s = 0; s < 4; s++) {
		j_open(NULL, '[');
		for (unsigned i = 0; i < m->sections[s].n_rrsets; i++) dump_rrset(NULL, &m->sections[s].rrsets[i]);
		j_close(']');
	}
	j_close(']');
}
/* on failure nothing is cleared: what stayed allocated shows as a leak */
static void do_msg(void)
{
	wdns_message_t m;
	wdns_res r;
	UNDEF(&m, sizeof(m));
	r = wdns_parse_message(&m, A[0].b, A[0].len);
	j_int("res", r);
	if (r == wdns_res_success) {
		dump_msg(&m);
		wdns_clear_message(&m);
	}
}
static void j_text(const char *k, char *s)
{
	if (s == NULL) { j_str(k, "NULL"); return; }
	j_bytes(k, s, strlen(s));
}
static char *P_buf; static size_t P_sz;
static FILE *p_begin(void) { return open_memstream(&P_buf, &P_sz); }
static int p_same(FILE *f, const char *s)
{
	int ok;
	fclose(f);
	ok = P_sz == strlen(s) && memcmp(P_buf, s, P_sz) == 0;
	free(P_buf);
	return ok;
}
static void do_render(void)
{
	wdns_message_t m;
	wdns_res r = wdns_parse_message(&m, A[0].b, A[0].len);
	int same = 1;
	char *t;
	FILE *f;
	j_int("res", r);
	if (r != wdns_res_success) return;
	j_open("m", '{'); dump_msg(&m); j_close('}');
	t = wdns_message_to_str(&m);
	j_text("text", t);
	f = p_begin(); wdns_print_message(f, &m); same &= p_same(f, t);
	free(t);
	j_open("arr", '[');
	for (int s = 0; s < 4; s++) {
		t = wdns_rrset_array_to_str(&m.sections[s], s);
		j_text(NULL, t);
		f = p_begin(); wdns_print_rrset_array(f, &m.sections[s], s); same &= p_same(f, t);
		free(t);
	}
	j_close(']');
	j_open("rr", '[');
	for (int s = 0; s < 4; s++) {
		j_open(NULL, '[');
		for (unsigned i = 0; i < m.sections[s].n_rrs; i++) {
			t = wdns_rr_to_str(&m.sections[s].rrs[i], s);
			j_text(NULL, t);
			f = p_begin(); wdns_print_rr(f, &m.sections[s].rrs[i], s); same &= p_same(f, t);
			free(t);
		}
		j_close(']');
	}
	j_close(']');
	j_open("set", '[');
	for (int s = 0; s < 4; s++) {
		j_open(NULL, '[');
		for (unsigned i = 0; i < m.sections[s].n_rrsets; i++) {
			t = wdns_rrset_to_str(&m.sections[s].rrsets[i], s);
			j_text(NULL, t);
			f = p_begin(); wdns_print_rrset(f, &m.sections[s].rrsets[i], s); same &= p_same(f, t);
			free(t);
		}
		j_close(']');
	}
	j_close(']');
	j_int("same", same);
	wdns_clear_message(&m);
}

/* arguments k.. : name type class ttl-hi ttl-lo data...; every block of its exact size */
static void arg_rrset(wdns_rrset_t *s, int k)
{
	memset(s, 0, sizeof(*s));
	s->name.len = A[k].len;
	s->name.data = malloc(A[k].len);
	memcpy(s->name.data, A[k].b, A[k].len);
	s->rrtype = A[k + 1].n;
	s->rrclass = A[k + 2].n;
	s->rrttl = (uint32_t)A[k + 3].n << 16 | (uint32_t)A[k + 4].n;
	s->n_rdatas = NA - k - 5;
	s->rdatas = calloc(s->n_rdatas, sizeof(void *));
	for (int i = 0; i < s->n_rdatas; i++) {
		s->rdatas[i] = malloc(sizeof(wdns_rdata_t) + A[k + 5 + i].len);
		s->rdatas[i]->len = A[k + 5 + i].len;
		memcpy(s->rdatas[i]->data, A[k + 5 + i].b, A[k + 5 + i].len);
	}
}
static void do_ser(void)
{
	wdns_rrset_t s, d;
	size_t sz = 0, sz2 = 0;
	uint8_t *buf, *base;
	wdns_res r;
	arg_rrset(&s, 0);
	r = wdns_serialize_rrset(&s, NULL, &sz);
	j_int("res", r);
	j_int("sz", (long)sz);
	buf = malloc(sz);
	UNDEF(buf, sz);
	j_int("res2", wdns_serialize_rrset(&s, buf, &sz2));
	j_int("sz2", (long)sz2);
	/* the count alone must not have been what filled the buffer */
	uint8_t *buf2 = malloc(sz);
	memset(buf2, 0x5a, sz);
	j_int("res3", wdns_serialize_rrset(&s, buf2, NULL));
	j_int("filled", memcmp(buf, buf2, sz) == 0);
	free(buf2);
	UNDEF(&d, sizeof(d));
	r = wdns_deserialize_rrset(&d, buf, sz);
	j_int("dres", r);
	if (r == wdns_res_success) {
		dump_rrset("out", &d);
		wdns_clear_rrset(&d);
	}
	/* every proper prefix (all of them when short, both ends otherwise) */
	long took = 0, bad = 0;
	for (size_t n = 0; n < sz; n++) {
		if (n > 400 && n + 400 < sz) continue;
		long live = h_live;
		uint8_t *p = h_exact(buf, n, &base);
		UNDEF(&d, sizeof(d));
		r = wdns_deserialize_rrset(&d, p, n);
		if (r == wdns_res_success) { took++; wdns_clear_rrset(&d); }
		h_unexact(base, n);
		if (h_live != live) bad++;
	}
	j_int("took", took);
	j_int("kept", bad);
	free(buf);
	wdns_clear_rrset(&s);
}
/* is the record one of the set? neither is changed */
static void do_cmpset(void)	/* record: name type class, set: name type class */
{
	wdns_rr_t rr;
	wdns_rrset_t s;
	uint8_t *b1, *b2;
	UNDEF(&rr, sizeof(rr)), UNDEF(&s, sizeof(s));
	rr.rrttl = 7, rr.rdata = NULL, s.rrttl = 9, s.n_rdatas = 0, s.rdatas = NULL;
	rr.name.len = A[0].len, rr.name.data = h_exact(A[0].b, A[0].len, &b1), rr.rrtype = A[1].n, rr.rrclass = A[2].n;
	s.name.len = A[3].len, s.name.data = h_exact(A[3].b, A[3].len, &b2), s.rrtype = A[4].n, s.rrclass = A[5].n;
	j_int("same", wdns_compare_rr_rrset(&rr, &s));
	j_int("kept", memcmp(b1, A[0].b, A[0].len) == 0 && memcmp(b2, A[3].b, A[3].len) == 0);
	h_unexact(b1, A[0].len), h_unexact(b2, A[3].len);
}
static void do_deser(void)
{
	wdns_rrset_t d;
	wdns_res r;
	UNDEF(&d, sizeof(d));
	r = wdns_deserialize_rrset(&d, A[0].b, A[0].len);
	j_int("res", r);
	if (r == wdns_res_success) {
		size_t sz = 0;
		uint8_t *b;
		wdns_serialize_rrset(&d, NULL, &sz);
		b = malloc(sz);
		wdns_serialize_rrset(&d, b, &sz);
		j_bytes("again", b, sz);
		free(b);
		wdns_clear_rrset(&d);
	}
}
static void do_sort(void)
{
	wdns_rrset_t s, s2;
	wdns_res r, r2;
	arg_rrset(&s, 0);
	arg_rrset(&s2, 0);
	for (int i = 0; i < s2.n_rdatas / 2; i++) {	/* the same data the other way round */
		wdns_rdata_t *x = s2.rdatas[i];
		s2.rdatas[i] = s2.rdatas[s2.n_rdatas - 1 - i];
		s2.rdatas[s2.n_rdatas - 1 - i] = x;
	}
	r = wdns_sort_rrset(&s);
	r2 = wdns_sort_rrset(&s2);
	j_int("res", r); j_int("res2", r2);
	dump_rrset("out", &s);
	dump_rrset("rev", &s2);
	r = wdns_sort_rrset(&s);
	dump_rrset("again", &s);
	wdns_clear_rrset(&s);
	wdns_clear_rrset(&s2);
}
static void do_fold(void)
{
	wdns_rrset_t s;
	wdns_res r;
	arg_rrset(&s, 0);
	r = wdns_downcase_rrset(&s);
	j_int("res", r);
	dump_rrset("out", &s);
	r = wdns_downcase_rrset(&s);
	j_int("res2", r);
	dump_rrset("again", &s);
	wdns_clear_rrset(&s);
}
static void do_foldrd(void)	/* type class data */
{
	wdns_rdata_t *d = malloc(sizeof(*d) + A[2].len);
	d->len = A[2].len;
	memcpy(d->data, A[2].b, A[2].len);
	j_int("res", wdns_downcase_rdata(d, A[0].n, A[1].n));
	j_bytes("out", d->data, d->len);
	free(d);
}

/* ---------------------------------------------------------------- record data and text */
static void do_rd2s(void)	/* type class data */
{
	char *t = wdns_rdata_to_str(A[2].b, A[2].len, A[0].n, A[1].n);
	j_text("text", t);
	free(t);
}
static void do_s2rd(void)	/* type class text */
{
	char *s = h_cstr(&A[2]);
	uint8_t *d = NULL;
	size_t n = 0;
	wdns_res r = wdns_str_to_rdata(s, A[0].n, A[1].n, &d, &n);
	j_int("res", r);
	if (r == wdns_res_success) {
		j_bytes("out", d, n);
		free(d);
	}
	free(s);
}
/* data to text, text to data, data to text */
static void do_rdtrip(void)
{
	char *t = wdns_rdata_to_str(A[2].b, A[2].len, A[0].n, A[1].n);
	uint8_t *d = NULL, *base, *x;
	size_t n = 0;
	wdns_res r;
	j_text("text", t);
	r = wdns_str_to_rdata(t, A[0].n, A[1].n, &d, &n);
	free(t);
	j_int("res", r);
	if (r == wdns_res_success) {
		j_bytes("out", d, n);
		x = h_exact(d, n, &base);
		free(d);
		t = wdns_rdata_to_str(x, n, A[0].n, A[1].n);
		h_unexact(base, n);
		j_text("text2", t);
		free(t);
	}
}

/* ---------------------------------------------------------------- code points */
static void j_const(const char *k, const char *s)
{
	j_open(k, '[');
	if (s) j_sep(), j_rawbytes(s, strlen(s));
	j_close(']');
}
static void do_code(void)	/* n: the mnemonics of code point n */
{
	j_const("type", wdns_rrtype_to_str(A[0].n));
	j_const("class", wdns_rrclass_to_str(A[0].n));
	j_const("rcode", wdns_rcode_to_str(A[0].n));
	j_const("opcode", wdns_opcode_to_str(A[0].n));
}
static void do_restr(void) { j_const("text", wdns_res_to_str(A[0].n)); }
static void do_mnem(void)	/* text */
{
	char *s = h_cstr(&A[0]);
	uint16_t v = 0xffff;
	wdns_res r;
	j_int("type", wdns_str_to_rrtype(s));
	j_int("class", wdns_str_to_rrclass(s));
	r = wdns_str_to_rcode(s, &v);
	j_open("rcode", '[');
	if (r == wdns_res_success) j_sep(), fprintf(h_out, "%u", v);
	j_close(']');
	free(s);
}
static void do_version(void)
{
	j_const("text", wdns_get_version());
	j_int("number", wdns_get_version_number());
	j_const("htext", WDNS_LIBRARY_VERSION), j_int("hnumber", (long)(WDNS_LIBRARY_VERSION_NUMBER));
}
/* every code point's generic spelling, lower and upper case: how many come back wrong */
static void do_generic(void)
{
	long bad = 0;
	for (unsigned n = A[0].n; n < (unsigned)A[1].n; n++) {
		char b[32];
		sprintf(b, "TYPE%u", n);  if (wdns_str_to_rrtype(b) != n) bad++;
		sprintf(b, "type%u", n);  if (wdns_str_to_rrtype(b) != n) bad++;
		sprintf(b, "CLASS%u", n); if (wdns_str_to_rrclass(b) != n) bad++;
		sprintf(b, "Class%u", n); if (wdns_str_to_rrclass(b) != n) bad++;
	}
	j_int("bad", bad);
}

/* ---------------------------------------------------------------- names files */
static void on_name(wdns_name_t *n, void *u)
{
	(void)u;
	j_sep();
	j_rawbytes(n->data, n->len);
	free(n->data);		/* the callback takes the name over */
}
static void do_names(void)	/* file contents */
{
	char path[] = "names.XXXXXX";
	int fd = mkstemp(path);
	wdns_res r;
	if (fd < 0 || write(fd, A[0].b, A[0].len) != (ssize_t)A[0].len) _exit(99);
	close(fd);
	if (NA > 1 && A[1].n) unlink(path);
	if (NA > 1 && A[1].n == 2 && mkdir(path, 0700)) _exit(99);	/* opens, but cannot be read */
	j_open("names", '[');
	r = wdns_file_load_names(path, on_name, NULL);
	j_close(']');
	j_int("res", r);
	if (NA > 1 && A[1].n == 2) rmdir(path);
	else unlink(path);
}

/* ---------------------------------------------------------------- histories over objects */
enum { L_ZERO, L_WHOLE, L_PART };
static wdns_message_t LM[2]; static int LMs[2];
static wdns_rrset_t LS[3]; static int LSs[3];
static wdns_rrset_t *life_set(wdns_message_t *m, unsigned y)
{
	for (int s = 0; s < 4; s++) {
		if (y < m->sections[s].n_rrsets) return &m->sections[s].rrsets[y];
		y -= m->sections[s].n_rrsets;
	}
	return NULL;
}
static wdns_rr_t *life_rr(wdns_message_t *m, unsigned y)
{
	for (int s = 0; s < 4; s++) {
		if (y < m->sections[s].n_rrs) return &m->sections[s].rrs[y];
		y -= m->sections[s].n_rrs;
	}
	return NULL;
}
static int life_ser(wdns_rrset_t *from, wdns_rrset_t *to)
{
	size_t sz = 0;
	int r = wdns_serialize_rrset(from, NULL, &sz);
	if (r) return r;
	uint8_t *b = malloc(sz);
	UNDEF(b, sz);
	r = wdns_serialize_rrset(from, b, &sz);
	if (r == 0 && to) r = wdns_deserialize_rrset(to, b, sz);
	/* every octet was written: looking at them must be fine */
	unsigned sum = 0;
	for (size_t i = 0; i < sz; i++) sum += b[i];
	if (sum == 0xffffffff) abort();
	free(b);
	return r;
}
static int life_text(char *t)
{
	int ok = t != NULL && strlen(t) > 0;
	free(t);
	return ok ? 0 : 1;
}
static void life_step(const uint8_t *w)
{
	int op = w[0], x = w[1], y = w[2], z = w[3], res = 0, skip = 0;
	wdns_rrset_t *s;
	wdns_rr_t *rr;
	long live = h_live;
	char *obuf = NULL; size_t osz = 0;
	FILE *keep;
#define NEED(c) if (!(c)) { skip = 1; break; }
#define SHOW(expr) do { int f = h_first; keep = h_out; h_out = open_memstream(&obuf, &osz); h_first = 1; j_open("o", '{'); expr; j_close('}'); fclose(h_out); h_out = keep; h_first = f; } while (0)
	switch (op) {
	case 1: NEED(LMs[x] == L_ZERO && y < NA - 1);
		UNDEF(&LM[x], sizeof(LM[x]));
		res = wdns_parse_message(&LM[x], A[y + 1].b, A[y + 1].len);
		if (res == 0) LMs[x] = L_WHOLE;
		break;
	case 2: NEED(LSs[x] == L_ZERO && y < NA - 1);
		UNDEF(&LS[x], sizeof(LS[x]));
		res = wdns_deserialize_rrset(&LS[x], A[y + 1].b, A[y + 1].len);
		if (res == 0) { LSs[x] = L_WHOLE; }
		break;
	case 3: if (LMs[x] == L_WHOLE) { SHOW(dump_msg(&LM[x])); }
		live = h_live;
		wdns_clear_message(&LM[x]); LMs[x] = L_ZERO; break;
	case 4: if (LSs[x] == L_WHOLE) { SHOW((j_bytes("n", LS[x].name.data, LS[x].name.len), j_int("t", LS[x].rrtype), j_int("c", LS[x].rrclass), j_u32("ttl", LS[x].rrttl), dump_rdatas(LS[x].rdatas, LS[x].n_rdatas))); }
		live = h_live;
		wdns_clear_rrset(&LS[x]); LSs[x] = L_ZERO; break;
	case 5: NEED(LSs[x] == L_WHOLE); res = wdns_downcase_rrset(&LS[x]); break;
	case 6: NEED(LSs[x] == L_WHOLE); res = wdns_sort_rrset(&LS[x]); break;
	case 7: NEED(LSs[x] == L_WHOLE && x != z && LSs[z] == L_ZERO);
		UNDEF(&LS[z], sizeof(LS[z]));
		res = life_ser(&LS[x], &LS[z]); if (res == 0) LSs[z] = L_WHOLE; break;
	case 8: NEED(LMs[x] == L_WHOLE);
		res |= life_text(wdns_message_to_str(&LM[x]));
		for (int k = 0; k < 4; k++) {
			free(wdns_rrset_array_to_str(&LM[x].sections[k], k));
			for (unsigned i = 0; i < LM[x].sections[k].n_rrs; i++) res |= life_text(wdns_rr_to_str(&LM[x].sections[k].rrs[i], k));
		}
		break;
	case 9: NEED(LSs[x] == L_WHOLE);
		free(wdns_rrset_to_str(&LS[x], WDNS_MSG_SEC_ANSWER));
		for (int i = 0; i < LS[x].n_rdatas; i++) free(wdns_rdata_to_str(LS[x].rdatas[i]->data, LS[x].rdatas[i]->len, LS[x].rrtype, LS[x].rrclass));
		break;
	case 10: NEED(LMs[x] == L_WHOLE && (s = life_set(&LM[x], y)) != NULL && LSs[z] == L_ZERO);
		UNDEF(&LS[z], sizeof(LS[z]));
		res = life_ser(s, &LS[z]); if (res == 0) LSs[z] = L_WHOLE; break;
	case 11: NEED(LMs[x] == L_WHOLE && (s = life_set(&LM[x], y)) != NULL); res = wdns_downcase_rrset(s); break;
	case 12: NEED(LMs[x] == L_WHOLE && (s = life_set(&LM[x], y)) != NULL); res = wdns_sort_rrset(s); break;
	case 13: NEED(LMs[x] != L_ZERO); LMs[x] = L_PART; if ((s = life_set(&LM[x], y)) != NULL) wdns_clear_rrset(s); break;
	case 14: NEED(LMs[x] != L_ZERO); LMs[x] = L_PART; if ((rr = life_rr(&LM[x], y)) != NULL) wdns_clear_rr(rr); break;
	case 15: NEED(LMs[x] != L_ZERO); LMs[x] = L_PART; wdns_clear_rrset_array(&LM[x].sections[y & 3]); break;
	case 16: NEED(LSs[x] == L_WHOLE); res = life_ser(&LS[x], NULL); break;
	default: skip = 1;
	}
	long d = h_live - live;
	if (op == 2 && res == 0 && !skip) SHOW((j_bytes("n", LS[x].name.data, LS[x].name.len), j_int("t", LS[x].rrtype), j_int("c", LS[x].rrclass), j_u32("ttl", LS[x].rrttl), dump_rdatas(LS[x].rdatas, LS[x].n_rdatas)));
	j_open(NULL, '{');
	j_int("skip", skip);
	j_int("res", res);
	j_int("d", d);
	if (obuf) { j_sep(); fwrite(obuf, 1, osz, h_out); free(obuf); }
	j_close('}');
}
static void do_life(void)	/* program, pool... */
{
	uint8_t w[4] = { 0, 0, 0, 0 };
	memset(LM, 0, sizeof(LM)), memset(LS, 0, sizeof(LS)), memset(LMs, 0, sizeof(LMs)), memset(LSs, 0, sizeof(LSs));
	j_open("steps", '[');
	for (size_t i = 0; i + 4 <= A[0].len; i += 4) life_step(A[0].b + i);
	for (int k = 0; k < 2; k++) {
		for (int i = 0; i < 2; i++) w[0] = 3, w[1] = i, life_step(w);
		for (int i = 0; i < 3; i++) w[0] = 4, w[1] = i, life_step(w);
	}
	j_close(']');
}

static const struct hop OPS[] = {
	{ "unpack", do_unpack }, { "copyu", do_copyu }, { "unpackm", do_unpackm }, { "copyum", do_copyum }, { "skip", do_skip }, { "lenu", do_lenu },
	{ "nlabels", do_nlabels }, { "d2s", do_d2s }, { "s2n", do_s2n }, { "nametrip", do_nametrip }, { "rev", do_rev },
	{ "msg", do_msg }, { "mgroup", do_msg }, { "mrdata", do_msg }, { "medns", do_msg }, { "render", do_render },
	{ "ser", do_ser }, { "deser", do_deser }, { "sort", do_sort }, { "fold", do_fold }, { "foldrd", do_foldrd },
	{ "rd2s", do_rd2s }, { "s2rd", do_s2rd }, { "rdtrip", do_rdtrip }, { "code", do_code }, { "restr", do_restr },
	{ "mnem", do_mnem }, { "version", do_version }, { "generic", do_generic }, { "names", do_names }, { "life", do_life },
	{ "cmpset", do_cmpset }, { "chop", do_chop }, { "sub", do_sub }, { "down", do_down },
	{ NULL, NULL }
};

int main(int argc, char **argv) { return h_main(argc, argv, OPS); }
