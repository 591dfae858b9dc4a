/* Text codec driver: op [args]; byte strings in hex, "-" for empty. */
#include "drv.h"
#include <endian.h>
#include "libmy/b32_encode.h"
#include "libmy/b32_decode.h"
#include "libmy/b64_encode.h"
#include "libmy/b64_decode.h"
#include "libmy/my_format.h"
#include "libmy/hex_decode.h"
#include "libmy/getenv_int.h"
#define HAVE_ENDIAN_H 1
#include "libmy/ip_arith.h"
#include "libmy/string_replace.h"
#include "libmy/print_string.h"
static void chunks(int enc) {
	base64_encodestate e; base64_decodestate d; memset(&e, 0xa5, sizeof e); memset(&d, 0xa5, sizeof d);
	base64_init_encodestate(&e); base64_init_decodestate(&d);
	jopen("chunks", "[");
	for (int i = 1; i < NTOK; i++) {
		size_t n; char *in = (char *) unhex(TOK[i], &n); char *o = malloc(2 * n + 8); memset(o, 0xa5, 2 * n + 8);
		int r = enc ? base64_encode_block(in, n, o, &e) : base64_decode_block(in, n, o, &d);
		jopen(NULL, "["); jbytes(NULL, in, n); jbytes(NULL, o, r); jclose("]"); free(in); free(o);
	}
	jclose("]");
	if (enc) { char o[16]; int r = base64_encode_blockend(o, &e); jbytes("end", o, r); }
}
static void request(void)
{
	const char *op = TOK[0]; size_t n, m;
	if (!strcmp(op, "e32") || !strcmp(op, "d32")) {
		size_t size = atoi(TOK[1]); uint8_t *b = unhex(TOK[2], &n); char *o = malloc(size); memset(o, 0xa5, size);
		size_t r = *op == 'e' ? base32_encode(o, size, b, n) : base32_decode(o, size, (char *) b, n);
		jint("ret", (long long) r); jbytes("bs", o, r == (size_t) -1 || r > size ? 0 : r); free(o); free(b);
	} else if (!strcmp(op, "e64")) chunks(1);
	else if (!strcmp(op, "d64")) chunks(0);
	else if (!strcmp(op, "v64")) {
		jopen("dec", "["); for (int i = 0; i < 256; i++) jint(NULL, base64_decode_value((char) i)); jclose("]");
		jopen("enc", "["); for (int i = 0; i < 64; i++) jint(NULL, base64_encode_value(i)); jclose("]");
	} else if (!strcmp(op, "hex") || !strcmp(op, "h16")) {
		int up = atoi(TOK[1]); size_t size = atoi(TOK[2]); char *o = malloc(size); memset(o, 0x41, size); size_t r;
		if (op[1] == 'e') { uint8_t *b = unhex(TOK[3], &n); r = my_bytes_to_hex_str(b, n, up, o, size); free(b); }
		else r = my_uint16_to_hex_str(atoi(TOK[3]), up, o, size);
		jint("ret", r); jbytes("bs", o, size ? strnlen(o, size) : 0); if (size && strnlen(o, size) == size) jint("unterminated", 1); free(o);
	} else if (!strcmp(op, "dec")) {
		size_t size = atoi(TOK[1]); uint64_t v = strtoull(TOK[2], NULL, 16); char *o = malloc(size); memset(o, 0x41, size);
		const char *st = NULL; size_t r0 = my_uint64_to_str(v, o, size, NULL), r = my_uint64_to_str(v, o, size, &st);
		if (r0 != r) r = 9999;
		if (st < o || st > o + size) abort();
		jint("ret", r); jbytes("bs", st, strnlen(st, o + size - st)); free(o);
	} else if (!strcmp(op, "unhex")) {
		char *s = unhexs(TOK[1]); uint8_t *raw = NULL; size_t len = 0;
		bool ok = hex_decode(s, &raw, &len); jint("ok", ok); if (ok) { jbytes("bs", raw, len); free(raw); } free(s);
	} else if (!strcmp(op, "env")) {
		unsetenv("VERIF_INT"); uint64_t v = 0x5a5a;
		if (NTOK > 1) { char *s = unhexs(TOK[1]); setenv("VERIF_INT", s, 1); free(s); }
		bool ok = getenv_int("VERIF_INT", &v); jint("ok", ok); jlimbs("v", v);
	} else if (!strcmp(op, "ip")) {
		int al = atoi(TOK[1]); unsigned p = atoi(TOK[2]); uint8_t *b = unhex(TOK[3], &n);
		uint8_t *x[3];
		for (int k = 0; k < 3; k++) {
			uint8_t *base = malloc(n + 3); x[k] = base + al % 4; if (n + al % 4 > n + 3) abort();
			memcpy(x[k], b, n); const void *src = al >= 4 ? x[k] : b;
			switch (k) {
			case 0: if (n == 4) ip4_lower(src, p, x[k]); else ip6_lower(src, p, x[k]); break;
			case 1: if (n == 4) ip4_upper(src, p, x[k]); else ip6_upper(src, p, x[k]); break;
			case 2: if (n == 4) ip4_incr(x[k]); else ip6_incr(x[k]); break;
			}
			jbytes(k == 0 ? "lo" : k == 1 ? "hi" : "nx", x[k], n); free(base);
		}
		free(b);
	} else if (!strcmp(op, "rep")) {
		char *s = unhexs(TOK[1]), *o = unhexs(TOK[2]), *w = unhexs(TOK[3]);
		char *r = string_replace(s, o, w); jbytes("bs", r, strlen(r)); free(r); free(s); free(o); free(w);
	} else if (!strcmp(op, "prn")) {
		uint8_t *b = unhex(TOK[1], &n); char *o; FILE *f = open_memstream(&o, &m);
		print_string(b, n, f); fclose(f); jbytes("bs", o, m); free(o); free(b);
	}
}
