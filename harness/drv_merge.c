/* Merging values and reading type indexes.
 *   merge KEY STEPS V0 V1 ...   STEPS: "0.1,4.2" merges operands 0 and 1 into operand n, then n and 2 ...
 *   idx KIND MAP                the listed types, and the types a record of KIND is said to have
 */
#define _GNU_SOURCE
#include "dns_obs.h"
#include "dnstable-private.h"
static uint8_t *V[4096]; static size_t L[4096];
static uint8_t *exact(const uint8_t *p, size_t n) { uint8_t *r = malloc(n); memcpy(r, p, n); return r; }
static void request(void)
{
	if (!strcmp(TOK[0], "merge")) {
		size_t kn; uint8_t *k = unhex(TOK[1], &kn); int n = 0, failed = 0;
		for (int i = 3; i < NTOK; i++) { V[n] = unhex(TOK[i], &L[n]); n++; }
		for (char *s = TOK[2]; *s && *s != '-'; ) {
			int a = strtol(s, &s, 10), b = strtol(s + 1, &s, 10); if (*s == ',') s++;
			uint8_t *m = NULL; size_t ml = 0;
			dnstable_merge_func(NULL, k, kn, V[a], L[a], V[b], L[b], &m, &ml);
			if (m == NULL) { failed = 1; break; }
			V[n] = exact(m, ml); L[n] = ml; free(m); n++;
		}
		jint("failed", failed);
		jbytes("val", V[n-1], failed ? 0 : L[n-1]);
		for (int i = 0; i < n; i++) free(V[i]);
		free(k);
	} else if (!strcmp(TOK[0], "idx")) {
		static rrtype_unpacked_set set; size_t n; uint8_t *m = unhex(TOK[2], &n);
		int c = rrtype_union_unpack(m, n, &set);
		jint("n", c + 1);
		jopen("list", "["); for (int i = 0; i < c; i++) jint(NULL, set.rrtypes[i]); jclose("]");
		jopen("has", "[");
		for (unsigned t = 0; t < 65536; t++) if (rrtype_test(atoi(TOK[1]), t, m, n)) jint(NULL, t);
		jclose("]");
		free(m);
	}
}
