/* Drives the utility library: address text, codecs, varints, checksums, heap, growable buffers, file sets. */
#include "hcommon.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include "libmy/fast_inet_ntop.h"
#include "libmy/my_format.h"
#include "libmy/b64_encode.h"
#include "libmy/b64_decode.h"
#include "libmy/b32_encode.h"
#include "libmy/b32_decode.h"
#include "libmy/hex_decode.h"
#include "libmy/varint.h"
#include "libmy/crc32c.h"
#include "libmy/heap.h"
#include "libmy/ubuf.h"
#include "libmy/ubuf-pb.h"
#include "libmy/my_fileset.h"
#include <sys/resource.h>
#include "libmy/ip_arith.h"
#include "libmy/string_replace.h"

uint32_t my_crc32c_slicing(const uint8_t *, size_t);
#if defined(__x86_64__)
bool my_crc32c_sse42_supported(void);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);
#endif

static void j_opt_text(const char *k, const char *s)
{
	j_open(k, '[');
	if (s) j_sep(), j_rawbytes(s, strlen(s));
	j_close(']');
}

/* ---- addresses: af octets capacity ---- */
static void do_ntop(void)
{
	int af = A[0].n == 4 ? AF_INET : A[0].n == 6 ? AF_INET6 : (int)A[0].n;
	uint8_t *base, back[16];
	char *dst = (char *)h_exact(NULL, A[2].n, &base);
	const char *s = fast_inet_ntop(af, A[1].b, dst, A[2].n);
	j_opt_text("text", s);
	j_opt_text("direct", af == AF_INET ? fast_inet4_ntop(A[1].b, dst, A[2].n) : af == AF_INET6 ? fast_inet6_ntop(A[1].b, dst, A[2].n) : NULL);
	j_open("back", '[');
	if (s && inet_pton(af, s, back) == 1) j_sep(), j_rawbytes(back, af == AF_INET ? 4 : 16);
	j_close(']');
	h_unexact(base, A[2].n);
}
/* ---- address ranges: octets prefix ---- */
static void do_iparith(void)
{
	uint8_t lo[16], hi[16], nx[16];
	if (A[0].len == 4) {
		ip4_lower(A[0].b, A[1].n, lo), ip4_upper(A[0].b, A[1].n, hi);
		memcpy(nx, A[0].b, 4), ip4_incr(nx);
	} else {
		ip6_lower(A[0].b, A[1].n, lo), ip6_upper(A[0].b, A[1].n, hi);
		memcpy(nx, A[0].b, 16), ip6_incr(nx);
	}
	j_bytes("lo", lo, A[0].len), j_bytes("hi", hi, A[0].len), j_bytes("next", nx, A[0].len);
}

/* ---- codecs ---- */
static void do_b64e(void)	/* data, chunk lengths */
{
	size_t cap = (A[0].len + 2) / 3 * 4, at = 0, o = 0;
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, cap, &base);
	base64_encodestate st;
	base64_init_encodestate(&st);
	for (int i = 1; i <= NA; i++) {
		size_t n = i < NA ? (size_t)A[i].n : A[0].len - at;
		if (n > A[0].len - at) n = A[0].len - at;
		o += base64_encode_block((char *)A[0].b + at, n, dst + o, &st);
		at += n;
	}
	o += base64_encode_blockend(dst + o, &st);
	j_bytes("text", dst, o);
	h_unexact(base, cap);
}
static void do_b64d(void)	/* text, chunk lengths */
{
	size_t cap = (A[0].len + 3) / 4 * 3 + 1, at = 0, o = 0;
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, cap, &base);
	base64_decodestate st;
	base64_init_decodestate(&st);
	for (int i = 1; i <= NA; i++) {
		size_t n = i < NA ? (size_t)A[i].n : A[0].len - at;
		if (n > A[0].len - at) n = A[0].len - at;
		o += base64_decode_block((char *)A[0].b + at, n, dst + o, &st);
		at += n;
	}
	j_bytes("out", dst, o);
	h_unexact(base, cap);
}
static void do_b64v(void)
{
	j_int("v", base64_decode_value((char)A[0].n));
	j_int("c", (unsigned char)base64_encode_value(A[0].n & 127));
}
static void do_b32e(void)	/* data, capacity */
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, A[1].n, &base);
	size_t n = base32_encode(dst, A[1].n, A[0].b, A[0].len);
	j_bytes("text", dst, n);
	h_unexact(base, A[1].n);
}
static void do_b32d(void)	/* text, capacity */
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, A[1].n, &base);
	size_t n = base32_decode(dst, A[1].n, (char *)A[0].b, A[0].len);
	j_open("out", '[');
	if (n != (size_t)-1) j_sep(), j_rawbytes(dst, n);
	j_close(']');
	h_unexact(base, A[1].n);
}
static void do_hexe(void)	/* data, upper, capacity >= 1 */
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, A[2].n, &base);
	size_t n = my_bytes_to_hex_str(A[0].b, A[0].len, A[1].n, dst, A[2].n);
	j_int("n", n);
	j_bytes("text", dst, strlen(dst));
	h_unexact(base, A[2].n);
}
static void do_hex16(void)	/* number, upper */
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, 5, &base);
	size_t n = my_uint16_to_hex_str(A[0].n, A[1].n, dst, 5);
	j_int("n", n);
	j_bytes("text", dst, strlen(dst));
	h_unexact(base, 5);
}
static uint64_t arg64(const struct arg *a)
{
	uint64_t v = 0;
	for (size_t i = 0; i < a->len; i++) v = v << 8 | a->b[i];
	return v;
}
static void j_u64(const char *k, uint64_t v)
{
	uint8_t b[8];
	for (int i = 0; i < 8; i++) b[i] = v >> (56 - 8 * i);
	j_bytes(k, b, 8);
}
static void do_dec(void)	/* 8 octets, capacity >= 2 */
{
	uint8_t *base;
	char *dst = (char *)h_exact(NULL, A[1].n, &base);
	const char *start = NULL;
	size_t n = my_uint64_to_str(arg64(&A[0]), dst, A[1].n, &start);
	j_int("n", n);
	j_bytes("text", start, strlen(start));
	j_int("ends", start + strlen(start) == dst + A[1].n - 1);
	h_unexact(base, A[1].n);
}
static void do_hexd(void)
{
	char *s = h_cstr(&A[0]);
	uint8_t *raw = (uint8_t *)"?";
	size_t len = 77777;
	j_open("out", '[');
	if (hex_decode(s, &raw, &len)) j_sep(), j_rawbytes(raw, len), free(raw);
	j_close(']');
	free(s);
}

/* ---- varints: 8 octets ---- */
static void do_varint(void)
{
	uint64_t v = arg64(&A[0]), w64 = 0;
	uint32_t w32 = 0;
	uint8_t buf[16], *b, *base;
	size_t n;
	memset(buf, 0xee, sizeof(buf));
	n = varint_encode64(buf, v);
	j_int("len", varint_length(v));
	j_bytes("e64", buf, n <= 16 ? n : 16);
	j_int("over", n < 16 && buf[n] != 0xee);
	if (n > 10) n = 10;
	b = h_exact(buf, n, &base);
	j_int("d64n", varint_decode64(b, &w64));
	j_u64("d64", w64);
	j_int("pk", varint_length_packed(b, n));
	j_int("cut", varint_length_packed(b, n - 1));
	h_unexact(base, n);
	if (v <= 0xffffffff) {
		memset(buf, 0xee, sizeof(buf));
		n = varint_encode32(buf, v);
		j_bytes("e32", buf, n <= 16 ? n : 16);
		j_int("over32", n < 16 && buf[n] != 0xee);
		if (n > 5) n = 5;
		b = h_exact(buf, n, &base);
		j_int("d32n", varint_decode32(b, &w32));
		j_u64("d32", w32);
		h_unexact(base, n);
	}
}
static void do_packed(void)	/* octets, limit <= their number */
{
	uint64_t v = 0;
	j_int("n", varint_length_packed(A[0].b, A[1].n));
	if (A[0].len >= 10) j_int("d64n", varint_decode64(A[0].b, &v));
}

/* ---- checksums: data, misalignment ---- */
static void crcs(const uint8_t *p, size_t n)
{
	j_u32("any", my_crc32c(p, n));
	j_u32("table", my_crc32c_slicing(p, n));
#if defined(__x86_64__)
	if (my_crc32c_sse42_supported())
		j_u32("hw", my_crc32c_sse42(p, n));
	else
#endif
		j_u32("hw", my_crc32c_slicing(p, n));
}
static void do_crc(void)
{
	size_t n = A[0].len, al = A[1].n;
	uint8_t *base = malloc(al + n + (al + n == 0)), *p = base + al;
	if (n) memcpy(p, A[0].b, n);
	crcs(p, n);
	free(base);
}
/* the checksum of a fixed text, asked for before the library's own constructors have run */
static uint32_t crc_early;
__attribute__((constructor(101))) static void ask_early(void)
{
	uint8_t *p = malloc(9);
	memcpy(p, "123456789", 9);
	crc_early = my_crc32c(p, 9);
	free(p);
}
static void do_crcfirst(void)
{
	j_u32("any", crc_early);
}
/* a block over and over, then some more octets */
static void do_crcrep(void)
{
	size_t m = A[0].len, k = A[1].n, t = A[2].len, al = A[3].n;
	uint8_t *base = malloc(al + m * k + t), *p = base + al;
	for (size_t i = 0; i < k; i++) memcpy(p + i * m, A[0].b, m);
	if (t) memcpy(p + m * k, A[2].b, t);
	crcs(p, m * k + t);
	free(base);
}

/* ---- heap: program of (code, x) pairs ---- */
struct item { int key, id; };
static int item_cmp(const void *a, const void *b)
{
	return (((const struct item *)a)->key - ((const struct item *)b)->key) * 1000;
}
static void j_item(const struct item *it)
{
	j_open(NULL, '[');
	j_int(NULL, it ? it->key : -1), j_int(NULL, it ? it->id : -1);
	j_close(']');
}
static void do_heap(void)
{
	size_t n = A[0].len / 2;
	struct item *it = calloc(n + 1, sizeof(*it));
	struct heap *h = heap_init(item_cmp);
	j_open("out", '[');
	for (size_t i = 0; i < n; i++) {
		int code = A[0].b[2 * i], x = A[0].b[2 * i + 1];
		it[i].key = x, it[i].id = i + 1;
		switch (code) {
		case 0: heap_push(h, &it[i]); j_item(NULL); break;
		case 1: j_item(heap_pop(h)); break;
		case 2: j_item(heap_replace(h, &it[i])); break;
		case 3: j_item(heap_peek(h)); break;
		default: j_item(heap_get(h, x)); break;
		}
	}
	j_close(']');
	j_int("size", heap_size(h));
	j_open("left", '[');
	for (size_t i = 0; i < heap_size(h); i++) j_item(heap_get(h, i));
	j_close(']');
	j_int("beyond", heap_get(h, heap_size(h)) != NULL);
	j_open("drain", '[');
	for (size_t i = 0; i <= n && heap_size(h); i++) j_item(heap_pop(h));
	j_close(']');
	j_int("empty", heap_size(h) == 0 && heap_pop(h) == NULL && heap_peek(h) == NULL && heap_replace(h, &it[n]) == NULL
	      && heap_get(h, 0) == NULL && heap_get(h, 1) == NULL && heap_size(h) == 0);
	heap_destroy(&h);
	j_int("gone", h == NULL);
	heap_destroy(&h);
	free(it);
}

/* ---- growable buffers: hint, then one argument per operation ---- */
struct e5 { uint8_t b[5]; };
VECTOR_GENERATE(vec5, struct e5);

static void vec_state(const void *d, size_t n, size_t sz, const void *p, size_t bytes, const uint8_t *x, size_t xn)
{
	j_open(NULL, '{');
	j_int("n", n);
	j_bytes("d", d, n * sz);
	j_int("p", p == (const uint8_t *)d + n * sz && bytes == n * sz);
	j_bytes("x", x, xn);
	j_close('}');
}
#define N16(a) ((a)->b[1] * 256 + (a)->b[2])
static void do_ubuf(void)
{
	ubuf *u = ubuf_init(A[0].n), *v;
	j_open("st", '[');
	for (int i = 1; i < NA; i++) {
		struct arg *a = &A[i];
		const uint8_t *pl = a->b + 1;
		size_t pn = a->len - 1, xn = 0;
		uint8_t *x = NULL;
		char *s = calloc(1, pn + 1);
		memcpy(s, pl, pn);
		switch (a->b[0]) {
		case 'a': ubuf_add(u, pl[0]); break;
		case 'A': ubuf_append(u, pl, pn); break;
		case 'r': ubuf_reserve(u, N16(a)); break;
		case 'p': {
			struct ubuf_protobuf_c_buffer pb = UBUF_PROTOBUF_C_BUFFER_INIT(u);
			pb.base.append(&pb.base, pn / 2, pl);
			pb.base.append(&pb.base, pn - pn / 2, pl + pn / 2);
			break;
		}
		case 'v': ubuf_reserve(u, pn); memcpy(ubuf_ptr(u), pl, pn); ubuf_advance(u, pn); break;
		case 'c': ubuf_clip(u, N16(a)); break;
		case 's': ubuf_rstrip(u, pl[0]); break;
		case 'z': ubuf_reset(u); break;
		case 'e': v = ubuf_init(1); ubuf_append(v, pl, pn); ubuf_extend(u, v); ubuf_destroy(&v); xn = v != NULL; break;
		case 'E': v = ubuf_dup_cstr(s); ubuf_extend(u, v); ubuf_extend(v, u); ubuf_destroy(&u); u = v; break;
		case 'd': ubuf_detach(u, &x, &xn); break;
		case 'S': ubuf_add_cstr(u, s); break;
		case 't': ubuf_cterm(u); break;
		case 'C': xn = strlen(ubuf_cstr(u)); x = malloc(xn + 1); memcpy(x, ubuf_cstr(u), xn); break;
		case 'f': ubuf_add_fmt(u, "%s", s); break;
		case 'F': ubuf_add_fmt(u, "%d-%s.", (int)N16(a), s + 2); break;
		}
		free(s);
		vec_state(ubuf_data(u), ubuf_size(u), 1, ubuf_ptr(u), ubuf_bytes(u), x, xn);
		free(x);
	}
	j_close(']');
	ubuf_destroy(&u);
	j_int("gone", u == NULL);
}
static void do_vec5(void)
{
	vec5 *u = vec5_init(A[0].n), *v;
	j_open("st", '[');
	for (int i = 1; i < NA; i++) {
		struct arg *a = &A[i];
		const uint8_t *pl = a->b + 1;
		size_t pn = (a->len - 1) / 5, xn = 0;
		struct e5 *x = NULL, *in = calloc(pn + 1, 5);
		memcpy(in, pl, a->len - 1);
		switch (a->b[0]) {
		case 'a': vec5_add(u, in[0]); break;
		case 'A': vec5_append(u, in, pn); break;
		case 'r': vec5_reserve(u, N16(a)); break;
		case 'v': vec5_reserve(u, pn); memcpy(vec5_ptr(u), in, 5 * pn); vec5_advance(u, pn); break;
		case 'c': vec5_clip(u, N16(a)); break;
		case 'z': vec5_reset(u); break;
		case 'e': v = vec5_init(0); vec5_append(v, in, pn); vec5_extend(u, v); vec5_destroy(&v); break;
		case 'd': vec5_detach(u, &x, &xn); break;
		case 'i': free(vec5_data(u)); vec5_reinit(N16(a), u); break;
		case 'g': if (N16(a) < vec5_size(u)) x = malloc(5), *x = vec5_value(u, N16(a)), xn = 1; break;
		}
		free(in);
		vec_state(vec5_data(u), vec5_size(u), 5, vec5_ptr(u), vec5_bytes(u), (uint8_t *)x, xn * 5);
		free(x);
	}
	j_close(']');
	vec5_destroy(&u);
	j_int("gone", u == NULL);
}

/* ---- string replacement: text, old, new ---- */
static void do_replace(void)
{
	char *s = h_cstr(&A[0]), *o = h_cstr(&A[1]), *w = h_cstr(&A[2]);
	char *r = string_replace(s, o, w);
	j_bytes("text", r, strlen(r));
	free(r), free(s), free(o), free(w);
}

/* ---- file sets: one argument per operation, in a scratch directory ---- */
static char fs_dir[] = "fset.XXXXXX";
static long fs_handle;
static struct { char kind, *name; long h; } fs_ev[4096];
static int fs_nev;
static void *fs_load(struct my_fileset *fs, const char *f)
{
	if (fs_nev < 4096) fs_ev[fs_nev].kind = 'L', fs_ev[fs_nev].name = strdup(f), fs_ev[fs_nev++].h = ++fs_handle;
	return (void *)fs_handle;
}
static void fs_unload(struct my_fileset *fs, const char *f, void *p)
{
	if (fs_nev < 4096) fs_ev[fs_nev].kind = 'U', fs_ev[fs_nev].name = strdup(f), fs_ev[fs_nev++].h = (long)p;
}
static const char *fs_rel(const char *f)
{
	size_t n = strlen(fs_dir);
	return strncmp(f, fs_dir, n) == 0 && f[n] == '/' ? f + n + 1 : "?";
}
static void fs_entry(const char *f, long h)
{
	const char *r = fs_rel(f);
	j_open(NULL, '[');
	j_sep(), j_rawbytes(r, strlen(r));
	j_int(NULL, h);
	j_close(']');
}
static void fs_events(const char *k, char kind)
{
	j_open(k, '[');
	for (int i = 0; i < fs_nev; i++)
		if (fs_ev[i].kind == kind) fs_entry(fs_ev[i].name, fs_ev[i].h);
	j_close(']');
}
static void fs_clear(void)
{
	for (int i = 0; i < fs_nev; i++) free(fs_ev[i].name);
	fs_nev = 0;
}
static void fs_write(const char *path, const void *p, size_t n, long mtime)
{
	struct timespec ts[2] = { { mtime, 0 }, { mtime, 0 } };
	int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || write(fd, p, n) != (ssize_t)n || futimens(fd, ts) != 0) _exit(99);
	close(fd);
}
static void do_fileset(void)
{
	char set[64], tmp[64], path[600];
	long clock = 1000000, low = 1000000, mt = clock;	/* mt: time of the set file; seen: unchanged since the last reload */
	int seen = 0;
	struct my_fileset *fs;
	DIR *d;
	struct dirent *de;
	strcpy(fs_dir, "fset.XXXXXX");
	fs_handle = 0;
	if (!mkdtemp(fs_dir)) _exit(99);
	snprintf(set, sizeof(set), "%s/.set", fs_dir);
	snprintf(tmp, sizeof(tmp), "%s/.new", fs_dir);
	fs_write(set, "", 0, clock);
	int cb = NA && A[0].len == 2 && A[0].b[0] == 'c' ? A[0].b[1] - '0' : 0;
	fs = my_fileset_init(set, cb & 1 ? NULL : fs_load, cb & 2 ? NULL : fs_unload, &fs_handle);
	j_int("user", my_fileset_user(fs) == &fs_handle);
	j_open("out", '[');
	for (int i = 0; i < NA; i++) {
		char *s = h_cstr(&A[i]);
		snprintf(path, sizeof(path), "%s/%s", fs_dir, s + 1);
		switch (s[0]) {
		case 'w': fs_write(set, s + 1, strlen(s + 1), mt = ++clock); seen = 0; break;
		case 'W': fs_write(set, s + 1, strlen(s + 1), mt = --low); seen = 0; break;		/* an older time */
		case 'n': fs_write(tmp, s + 1, strlen(s + 1), mt = ++clock); if (rename(tmp, set)) _exit(99); seen = 0; break;
		case 'N':	/* another file with the same time, where the one last loaded is still there to tell them apart */
			fs_write(tmp, s + 1, strlen(s + 1), seen ? mt : (mt = --low));
			if (rename(tmp, set)) _exit(99);
			seen = 0;
			break;
		case 'x': unlink(set); seen = 0; break;
		case '+': fs_write(path, "m", 1, clock); break;
		case '-': unlink(path); break;
		case 'R':
		case 'F':	/* no file can be opened meanwhile */
			if (s[0] == 'F') {
				struct rlimit was, none;
				getrlimit(RLIMIT_NOFILE, &was);
				none = was, none.rlim_cur = 0;
				if (setrlimit(RLIMIT_NOFILE, &none)) _exit(99);
				my_fileset_reload(fs);
				setrlimit(RLIMIT_NOFILE, &was);
			} else {
				my_fileset_reload(fs);
				seen = access(set, F_OK) == 0;
			}
			j_open(NULL, '{');
			fs_events("load", 'L'), fs_events("unload", 'U');
			j_open("get", '[');
			{
				const char *f = NULL; void *p = NULL;
				for (size_t k = 0; my_fileset_get(fs, k, &f, &p) && k < 1000; k++) fs_entry(f, (long)p);
			}
			j_close(']');
			j_close('}');
			fs_clear();
			break;
		}
		free(s);
	}
	j_close(']');
	my_fileset_destroy(&fs);
	fs_events("unload", 'U'), fs_events("load", 'L');
	j_int("gone", fs == NULL);
	fs_clear();
	my_fileset_destroy(&fs);
	d = opendir(fs_dir);
	while ((de = readdir(d)) != NULL)
		if (strcmp(de->d_name, ".") && strcmp(de->d_name, "..")) {
			snprintf(path, sizeof(path), "%s/%s", fs_dir, de->d_name);
			unlink(path);
		}
	closedir(d);
	rmdir(fs_dir);
}

static const struct hop OPS[] = {
	{ "ntop", do_ntop }, { "iparith", do_iparith }, { "b64e", do_b64e }, { "b64d", do_b64d }, { "b64v", do_b64v }, { "b32e", do_b32e },
	{ "b32d", do_b32d }, { "hexe", do_hexe }, { "hex16", do_hex16 }, { "dec", do_dec }, { "hexd", do_hexd }, { "varint", do_varint },
	{ "packed", do_packed }, { "crc", do_crc }, { "crcrep", do_crcrep }, { "crcfirst", do_crcfirst }, { "heap", do_heap }, { "ubuf", do_ubuf }, { "vec5", do_vec5 }, { "replace", do_replace },
	{ "fileset", do_fileset },
	{ NULL, NULL }
};
int main(int argc, char **argv) { return h_main(argc, argv, OPS); }
