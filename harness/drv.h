/* Common part of the conformance drivers: one request per line on stdin,
 * one JSON object per request on stdout. */
#ifndef DRV_H
#define DRV_H
#include <ctype.h>
#include <errno.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <inttypes.h>
#include <stdarg.h>
#define MAXTOK 20000
static char *TOK[MAXTOK]; static int NTOK;
#ifndef DRV_TLS
#define DRV_TLS
#endif
static DRV_TLS char *OB; static DRV_TLS size_t OBn, OBcap;
static void out(const char *fmt, ...) {
	va_list ap; va_start(ap, fmt);
	for (;;) {
		va_list a2; va_copy(a2, ap);
		int n = vsnprintf(OB + OBn, OBcap - OBn, fmt, a2); va_end(a2);
		if (OBn + n + 1 < OBcap) { OBn += n; break; }
		OBcap = OBcap * 2 + n + 4096; OB = realloc(OB, OBcap);
	}
	va_end(ap);
}
static DRV_TLS int COMMA;
static void key(const char *k) { if (COMMA) out(","); COMMA = 1; if (k) out("\"%s\":", k); }
static void jint(const char *k, long long v) { key(k); out("%lld", v); }
static void jlimbs(const char *k, uint64_t v) {
	key(k); out("[%u,%u,%u,%u]", (unsigned)(v >> 48), (unsigned)(v >> 32) & 0xffff, (unsigned)(v >> 16) & 0xffff, (unsigned)v & 0xffff);
}
static void jlimbs2(const char *k, uint32_t v) { key(k); out("[%u,%u]", v >> 16, v & 0xffff); }
static void jbytes(const char *k, const void *p, size_t n) {
	const uint8_t *b = p; key(k); out("[");
	for (size_t i = 0; i < n; i++) out(i ? ",%u" : "%u", b[i]);
	out("]");
}
static void jopen(const char *k, const char *br) { key(k); out("%s", br); COMMA = 0; }
static void jclose(const char *br) { out("%s", br); COMMA = 1; }
/* exact-size heap copy, so that ASan sees any access past the end */
static uint8_t *unhex(const char *s, size_t *n) {
	if (!strcmp(s, "-")) { *n = 0; return malloc(0); }
	size_t l = strlen(s) / 2; uint8_t *p = malloc(l);
	for (size_t i = 0; i < l; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); p[i] = v; }
	*n = l; return p;
}
static char *unhexs(const char *s) { /* as a NUL-terminated exact-size string */
	size_t n; uint8_t *b = unhex(s, &n); char *r = malloc(n + 1); memcpy(r, b, n); r[n] = 0; free(b); return r;
}
static void request(void);
int main(int argc, char **argv) {
	char *line = NULL; size_t cap = 0; ssize_t n;
	FILE *in = fdopen(dup(0), "r"); /* requests; the code under test may read stdin */
	(void) argc; (void) argv;
	if (!freopen("/dev/null", "r", stdin)) return 2;
#ifdef DRV_INIT
	DRV_INIT(argc, argv);
#endif
	OBcap = 1 << 16; OB = malloc(OBcap);
	while ((n = getline(&line, &cap, in)) > 0) {
		if (line[n-1] == '\n') line[--n] = 0;
		NTOK = 0;
		for (char *p = strtok(line, " "); p && NTOK < MAXTOK; p = strtok(NULL, " ")) TOK[NTOK++] = p;
		if (NTOK == 0) continue;
		OBn = 0; COMMA = 0; out("{");
		alarm(20);
		request();
		alarm(0);
		out("}\n");
		fwrite(OB, 1, OBn, stdout); fflush(stdout);
	}
	return 0;
}
#endif
