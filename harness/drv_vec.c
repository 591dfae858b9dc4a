/* Vector driver: run KIND NVECS HINT op:arg:arg:hexlist...
 * KIND b: byte buffer, w: vector of 6-byte records, q: vector of 64-bit values.  Lists are 4 hex digits per element.
 * i:v:h destroy, make anew  A add  P append  X:v:w extend  C:v:n clip  R reset  V:v:n:list reserve n, write list, advance
 * D detach  K destroy, make anew  Z:v:h detach, free and reinit
 * s add_cstr  f:v:kind:hex:int add_fmt  t cterm  c cstr  r:v:c rstrip  u:v:0:hex dup_cstr  l append_cstr(_lit) */
#include "drv.h"
#include "libmy/ubuf.h"
struct __attribute__((packed)) rec { uint16_t a; uint32_t b; };
VECTOR_GENERATE(vb, uint8_t)
VECTOR_GENERATE(vw, struct rec)
VECTOR_GENERATE(vq, uint64_t)
static uint8_t mk_b(unsigned x) { return x; }
static unsigned un_b(uint8_t x) { return x; }
static struct rec mk_w(unsigned x) { struct rec r = { x, ~x }; return r; }
static unsigned un_w(struct rec x) { return x.b == ~(uint32_t) x.a ? x.a : 99999; }
static uint64_t mk_q(unsigned x) { return (uint64_t) x << 40 | (x ^ 0xffff); }
static unsigned un_q(uint64_t x) { return mk_q(x >> 40) == x ? x >> 40 : 99999; }
static unsigned L[4096]; static size_t nL;
static char *ARG[5]; static int nARG;
static unsigned long num(int k) { return k < nARG ? strtoul(ARG[k], NULL, 10) : 0; }
static void parse(char *t) {
	nARG = 0;
	for (char *p = t; p && nARG < 5; ) { ARG[nARG++] = p; p = strchr(p, ':'); if (p) *p++ = 0; }
	nL = 0;
	if (nARG > 3 && ARG[3][0] != '-') for (char *p = ARG[3]; *p && nL < 4096; p += 4) { char h[5]; memcpy(h, p, 4); h[4] = 0; L[nL++] = strtoul(h, NULL, 16); }
}
#define GEN(T, t, ty) \
static void list_##t(const ty *p, size_t n) { out("["); for (size_t i = 0; i < n; i++) out(i ? ",%u" : "%u", un_##t(p[i])); out("]"); } \
static void see_##t(T **v, int nv) { \
	for (int k = 0; k < nv; k++) { \
		out(k ? ",[%zu,%zu,%lld,[" : "[%zu,%zu,%lld,[", T##_size(v[k]), T##_bytes(v[k]) / sizeof(ty), (long long) (T##_ptr(v[k]) - T##_data(v[k]))); \
		for (size_t i = 0; i < T##_size(v[k]); i++) out(i ? ",%u" : "%u", un_##t(T##_value(v[k], i))); \
		out("],"); list_##t(T##_data(v[k]), T##_size(v[k])); out("]"); } } \
static void run_##t(int nv, int hint) { \
	T **v = malloc(nv * sizeof *v); for (int i = 0; i < nv; i++) v[i] = T##_init(hint); \
	for (int i = 4; i < NTOK; i++) { \
		parse(TOK[i]); int a = num(1); unsigned long n = num(2); char o = ARG[0][0]; \
		ty *x = malloc(nL * sizeof(ty)); for (size_t k = 0; k < nL; k++) x[k] = mk_##t(L[k]); \
		key(NULL); out("[\"%c\",%d,%lu,", o, a, n); list_##t(x, nL); out(","); \
		ty *d; size_t dn; int nul = 0, ret = 0; \
		switch (o) { \
		case 'i': T##_destroy(&v[a]); v[a] = T##_init(n); break; \
		case 'A': T##_add(v[a], x[0]); break; \
		case 'P': T##_append(v[a], x, nL); break; \
		case 'X': T##_extend(v[a], v[n]); break; \
		case 'C': T##_clip(v[a], n); break; \
		case 'R': T##_reset(v[a]); break; \
		case 'V': T##_reserve(v[a], n); d = T##_ptr(v[a]); for (size_t k = 0; k < n; k++) d[k] = mk_##t(k < nL ? L[k] : 0x77); T##_advance(v[a], nL); break; \
		case 'D': T##_detach(v[a], &d, &dn); list_##t(d, dn); ret = 1; free(d); break; \
		case 'K': T##_destroy(&v[a]); nul = v[a] == NULL; T##_destroy(&v[a]); v[a] = T##_init(hint); out("[%d]", nul); ret = 1; break; \
		case 'Z': T##_detach(v[a], &d, &dn); free(d); free(T##_data(v[a])); T##_reinit(n, v[a]); break; \
		default: ret = other_##t(v, a, n, o); \
		} \
		if (!ret) out("[]"); \
		out(",["); see_##t(v, nv); out("]]"); free(x); \
	} \
	for (int i = 0; i < nv; i++) T##_destroy(&v[i]); free(v); }
#define other_w(v, a, n, o) 0
#define other_q(v, a, n, o) 0
static int other_b(ubuf **v, int a, unsigned long n, char o) {
	char *s = malloc(nL + 1); for (size_t k = 0; k < nL; k++) s[k] = L[k]; s[nL] = 0; int ret = 0;
	switch (o) {
	case 's': ubuf_add_cstr(v[a], s); break;
	case 't': ubuf_cterm(v[a]); break;
	case 'c': { char *c = ubuf_cstr(v[a]); if ((uint8_t *) c != ubuf_data(v[a])) abort(); out("["); for (char *p = c; *p; p++) out(p > c ? ",%u" : "%u", (uint8_t) *p); out("]"); ret = 1; break; }
	case 'r': ubuf_rstrip(v[a], (char) n); break;
	case 'u': ubuf_destroy(&v[a]); v[a] = ubuf_dup_cstr(s); break;
	case 'l': if (nL == 3 && !memcmp(s, "lit", 3)) ubuf_append_cstr_lit(v[a], "lit"); else ubuf_append_cstr(v[a], s, nL); break;
	case 'f': { int x = nARG > 4 ? atoi(ARG[4]) : 0;
		switch (n) {
		case 0: ubuf_add_fmt(v[a], "%s", ""); break;
		case 1: ubuf_add_fmt(v[a], "%s", s); break;
		case 2: ubuf_add_fmt(v[a], "[%s]%d", s, x); break;
		case 3: ubuf_add_fmt(v[a], "%d", x); break;
		case 4: ubuf_add_fmt(v[a], "%s%s", s, s); break; }
		out("[%d]", x); ret = 1; break; }
	}
	free(s); return ret;
}
GEN(ubuf, b, uint8_t)
GEN(vw, w, struct rec)
GEN(vq, q, uint64_t)
static void request(void)
{
	alarm(60); jopen("ev", "[");
	switch (TOK[1][0]) {
	case 'b': run_b(atoi(TOK[2]), atoi(TOK[3])); break;
	case 'w': run_w(atoi(TOK[2]), atoi(TOK[3])); break;
	case 'q': run_q(atoi(TOK[2]), atoi(TOK[3])); break;
	}
	jclose("]"); alarm(0);
}
