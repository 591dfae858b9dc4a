/* Checksum and hash driver: crc BYTES | hash BYTES PC PB (seeds in hex).  Every alignment, with different bytes around the key. */
#include "drv.h"
#include "libmy/crc32c.h"
#include "libmy/lookup3.h"
uint32_t my_crc32c_slicing(const uint8_t *, size_t);
#if __GNUC__ >= 3 && defined(__x86_64__)
bool my_crc32c_sse42_supported(void);
uint32_t my_crc32c_sse42(const uint8_t *, size_t);
#endif
#ifdef TIGHT /* nothing beyond the key may be read */
#define SLACK 0
#else
#define SLACK 16
#endif
static uint8_t *place(const uint8_t *b, size_t n, int al, int fill, uint8_t **base) {
	*base = malloc(n + 8 + al + SLACK); memset(*base, fill, n + 8 + al + SLACK);
	uint8_t *p = *base + 8 + al; memcpy(p, b, n); return p;
}
static void request(void)
{
	size_t n; uint8_t *b = unhex(TOK[1], &n), *base;
	static my_crc32c_fp first; static int seen;
	if (!seen) { first = my_crc32c; seen = 1; }
	if (!strcmp(TOK[0], "crc")) {
		jopen("crc", "[");
		for (int al = 0; al < 8; al++) {
			uint8_t *p = place(b, n, al, al * 37, &base);
			jlimbs2(NULL, my_crc32c_slicing(p, n));
#if __GNUC__ >= 3 && defined(__x86_64__)
			if (my_crc32c_sse42_supported()) jlimbs2(NULL, my_crc32c_sse42(p, n));
#endif
			jlimbs2(NULL, my_crc32c(p, n)); jlimbs2(NULL, first(p, n));
			free(base);
		}
		jclose("]");
	} else {
		uint32_t pc = strtoul(TOK[2], NULL, 16), pb = strtoul(TOK[3], NULL, 16);
		for (int f = 0; f < 3; f++) {
			jopen(f == 0 ? "l" : f == 1 ? "l2" : "b", "[");
			for (int al = 0; al < 4; al++) for (int fill = 0; fill < 2; fill++) {
				uint8_t *p = place(b, n, al, fill ? 0xff : 0x5a, &base);
				if (f == 0) jlimbs2(NULL, my_hashlittle(p, n, pc));
				else if (f == 1) { uint32_t c = pc, d = pb; my_hashlittle2(p, n, &c, &d); jopen(NULL, "["); jlimbs2(NULL, c); jlimbs2(NULL, d); jclose("]"); }
				else jlimbs2(NULL, my_hashbig(p, n, pc));
				free(base);
			}
			jclose("]");
		}
		jopen("w", "[");
		if (n % 4 == 0) {
			uint32_t *w = malloc(n); memcpy(w, b, n); uint32_t c = pc, d = pb;
			jlimbs2(NULL, my_hashword(w, n / 4, pc)); my_hashword2(w, n / 4, &c, &d); jlimbs2(NULL, c); jlimbs2(NULL, d); free(w);
		}
		jclose("]");
	}
	free(b);
}
