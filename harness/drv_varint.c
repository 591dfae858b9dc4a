#include "libmy/varint.h"
#include "drv.h"
/* the largest encoding is written into a buffer of exactly its size */
static void request(void) {
	if (!strcmp(TOK[0], "enc")) {
		uint64_t v = strtoull(TOK[1], NULL, 16), r; uint32_t r32;
		unsigned len = varint_length(v);
		jint("len", len);
		uint8_t *b = malloc(len);
		size_t n = varint_encode64(b, v);
		jbytes("b64", b, n > len ? len : n);
		jint("pk", varint_length_packed(b, n));
		r = ~v; jint("d64n", varint_decode64(b, &r)); jlimbs("d64", r);
		if (v <= UINT32_MAX) {
			uint8_t *c = malloc(len);
			size_t m = varint_encode32(c, v);
			jbytes("b32", c, m > len ? len : m);
			r32 = ~v; jint("d32n", varint_decode32(c, &r32)); jlimbs2("d32", r32);
			free(c);
		}
		free(b);
	} else { /* dec HEX flags */
		size_t n; uint8_t *b = unhex(TOK[1], &n);
		uint64_t r; uint32_t r32;
		jint("pkall", varint_length_packed(b, n));
		if (strchr(TOK[2], '3')) { jint("n32", varint_decode32(b, &r32)); jlimbs2("v32", r32); }
		if (strchr(TOK[2], '6')) { jint("n64", varint_decode64(b, &r)); jlimbs("v64", r); }
		free(b);
	}
}
