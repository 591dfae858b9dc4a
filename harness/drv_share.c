/* share MODE SEED LIFE | LIFE | ...    LIFE: SETFILE op... as for "follow" (drv_dns.c), without limits
 * Each life is led alone first, then all of them at the same time: MODE t in a thread each, MODE i in
 * one thread, turn by turn, one entry at a time.  Answer: per life what it observed alone and together. */
#define DRV_TLS __thread
#include "drv.h"
#define request dns_request
#include "drv_dns.c"
#undef request
#include <pthread.h>
#define ML 8
struct life {
	char **tok; int n, pos, sub; char *setfile; long stamp;
	struct dnstable_reader *r; struct dnstable_query *q[16]; int nq; struct dnstable_iter *it[16];
	uint32_t tx[4000]; int ntx; dnstable_res res; int nobs;
	char *ob; size_t obn, obcap; int comma;
	struct dnstable_formatter *f[2];
};
static void load(struct life *l) { OB = l->ob; OBn = l->obn; OBcap = l->obcap; COMMA = l->comma; }
static void store(struct life *l) { l->ob = OB; l->obn = OBn; l->obcap = OBcap; l->comma = COMMA; }
static uint32_t hash(uint32_t h, const char *s) { for (; s && *s; s++) h = (h ^ (uint8_t) *s) * 16777619u; return h; }
static void begin(struct life *l, char **tok, int n) {
	memset(l, 0, sizeof *l); l->setfile = tok[0]; l->tok = calloc(n, sizeof *l->tok); l->n = n - 1; l->stamp = 1000000000;
	for (int i = 1; i < n; i++) l->tok[i - 1] = strdup(tok[i]);
	l->obcap = 1 << 16; l->ob = malloc(l->obcap);
	for (int i = 0; i < 2; i++) {
		l->f[i] = dnstable_formatter_init();
		dnstable_formatter_set_date_format(l->f[i], dnstable_date_format_rfc3339);
		dnstable_formatter_set_output_format(l->f[i], i ? dnstable_output_format_json : dnstable_output_format_text);
		dnstable_formatter_set_raw_rdata(l->f[i], true);
	}
}
/* one small step of a life; 0 at its end */
static int step(struct life *l) {
	if (l->pos == l->n) return 0;
	char *op = l->tok[l->pos], *a = strchr(op, '='); int s = 0, n = 0; size_t lo = a ? (size_t)(a - op) : strlen(op);
	if (a) { a++; sscanf(a, "%d.%d", &s, &n); }
#define IS(x) (lo == strlen(x) && !memcmp(op, x, lo))
	if (IS("get")) {
		if (l->sub == 0) { jopen(NULL, "{"); jopen("res", "["); l->ntx = 0; l->res = dnstable_res_success; }
		int lim = n < 0 ? RESMAX : n; struct dnstable_entry *e = NULL;
		if (l->it[s] && l->sub < lim && (l->res = dnstable_iter_next(l->it[s], &e)) == dnstable_res_success) {
			entry(e);
			uint32_t h = 2166136261u; char *t;
			t = dnstable_entry_to_text(e); h = hash(h, t); free(t);
			t = dnstable_entry_to_json(e); h = hash(h, t); free(t);
			for (int i = 0; i < 2; i++) { t = dnstable_entry_format(l->f[i], e); h = hash(h, t); free(t); }
			l->tx[l->ntx++] = h; l->sub++;
			dnstable_entry_destroy(&e);
			return 1;
		}
		jclose("]"); jint("null", l->it[s] == NULL); jint("end", l->it[s] == NULL || l->res != dnstable_res_success);
		jopen("tx", "["); for (int i = 0; i < l->ntx; i++) jint(NULL, l->tx[i] >> 1); jclose("]"); jclose("}");
		l->sub = 0;
	}
	else if (IS("list")) {
		char tmp[4096], *c = strdup(a), *sv; snprintf(tmp, sizeof tmp, "%s.new", l->setfile);
		FILE *f = fopen(tmp, "w"); if (!f) abort();
		for (char *p = strtok_r(c, ".", &sv); p; p = strtok_r(NULL, ".", &sv)) if (*p != '-') fprintf(f, "f%s.mtbl\n", p);
		fclose(f); free(c);
		struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = l->stamp += 100; ts[0].tv_nsec = ts[1].tv_nsec = 0;
		utimensat(AT_FDCWD, tmp, ts, 0); rename(tmp, l->setfile);
	}
	else if (IS("start")) l->r = dnstable_reader_init_setfile(l->setfile);
	else if (IS("reload")) dnstable_reader_reload_setfile(l->r);
	else if (IS("def")) l->q[l->nq++] = dnstable_query_init(s);
	else if (IS("scan")) l->it[s] = scan_iter(l->r, n);
	else if (IS("ask")) l->it[s] = dnstable_reader_query(l->r, l->q[n - 1]);
	else if (IS("close")) dnstable_iter_destroy(&l->it[s]);
	else { char o[16]; memcpy(o, op, lo); o[lo] = 0; if (!l->nq || !apply_set(l->q[l->nq - 1], o, a)) abort(); }
	l->pos++;
	return 1;
}
static void end(struct life *l) {
	for (int i = 0; i < 16; i++) dnstable_iter_destroy(&l->it[i]);
	for (int i = 0; i < l->nq; i++) dnstable_query_destroy(&l->q[i]);
	for (int i = 0; i < 2; i++) dnstable_formatter_destroy(&l->f[i]);
	dnstable_reader_destroy(&l->r);
	for (int i = 0; i < l->n; i++) free(l->tok[i]);
	free(l->tok);
}
static pthread_barrier_t GO;
static void *thread(void *x) {
	struct life *l = x; load(l); NRD = 100000;
	pthread_barrier_wait(&GO);
	while (step(l)) ;
	store(l);
	return NULL;
}
static void request(void) {
	static struct life alone[ML], tog[ML]; int start[ML], len[ML], n = 0;
	char *mob = OB; size_t mobn = OBn, mobcap = OBcap; int mc = COMMA;
	NADV = 0; NOW = 0; NRD = 100000; shim_merge_order = 0; TIMED = STATS = 0;
	uint32_t seed = atoi(TOK[2]);
	for (int i = 3; i < NTOK && n < ML; n++) {
		start[n] = i; while (i < NTOK && strcmp(TOK[i], "|")) i++;
		len[n] = i - start[n]; i++;
	}
	for (int i = 0; i < n; i++) { begin(&alone[i], TOK + start[i], len[i]); load(&alone[i]); while (step(&alone[i])) ; store(&alone[i]); end(&alone[i]); }
	for (int i = 0; i < n; i++) begin(&tog[i], TOK + start[i], len[i]);
	if (TOK[1][0] == 't') {
		pthread_t t[ML]; pthread_barrier_init(&GO, NULL, n);
		for (int i = 0; i < n; i++) pthread_create(&t[i], NULL, thread, &tog[i]);
		for (int i = 0; i < n; i++) pthread_join(t[i], NULL);
		pthread_barrier_destroy(&GO);
	} else {
		for (int left = n; left; ) {
			seed = seed * 1103515245u + 12345;
			struct life *l = &tog[(seed >> 16) % n];
			if (l->pos == l->n) { int done = 0; for (int i = 0; i < n; i++) done += tog[i].pos == tog[i].n; if (done == n) break; continue; }
			load(l); for (int k = (seed >> 8) % 3; k >= 0; k--) step(l); store(l);
		}
	}
	for (int i = 0; i < n; i++) end(&tog[i]);
	OB = mob; OBn = mobn; OBcap = mobcap; COMMA = mc;
	jopen("lives", "[");
	for (int i = 0; i < n; i++) {
		jopen(NULL, "{");
		jopen("alone", "["); out("%.*s", (int) alone[i].obn, alone[i].ob); jclose("]");
		jopen("ev", "["); out("%.*s", (int) tog[i].obn, tog[i].ob); jclose("]");
		jclose("}"); free(alone[i].ob); free(tog[i].ob);
	}
	jclose("]");
}
