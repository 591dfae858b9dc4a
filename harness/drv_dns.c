/* Query driver.  One request = one query object and what is done with it:
 *   q SRC KIND op...      SRC: f:<file> (one table) or s:<setfile>
 *   scan SRC WHICH        full scan
 *   names                 stage and category names
 * Time is simulated: every table-level next() advances the clock. */
#include "dns_obs.h"
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>

/* ---- simulated clock, in milliseconds ---- */
static DRV_TLS long NOW; static int SIM;
static long ADV[64]; static int NADV, IADV;
static long RD[100000], NX[100000]; static DRV_TLS int NRD, NNX;
static void set_ts(struct timespec *t) { t->tv_sec = 1000 + NOW / 1000; t->tv_nsec = NOW % 1000 * 1000000; }
int clock_gettime(clockid_t c, struct timespec *t) { (void) c; if (NRD < 100000) RD[NRD++] = NOW; set_ts(t); return 0; }
int gettimeofday(struct timeval *tv, void *z) { (void) z; if (NRD < 100000) RD[NRD++] = NOW; tv->tv_sec = 1000 + NOW / 1000; tv->tv_usec = NOW % 1000 * 1000; return 0; }
static void on_next(void) { if (NADV) { NOW += ADV[IADV % NADV]; IADV++; } if (NNX < 100000) NX[NNX++] = NOW; }

/* ---- sources, cached by name ---- */
static struct { char *spec; struct mtbl_reader *mr; struct dnstable_reader *r; } SRC[4000]; static int NSRC;
static struct dnstable_reader *source(const char *spec) {
	for (int i = 0; i < NSRC; i++) if (!strcmp(SRC[i].spec, spec)) return SRC[i].r;
	if (NSRC == 4000) abort();
	SRC[NSRC].spec = strdup(spec);
	if (spec[0] == 'f') {
		SRC[NSRC].mr = mtbl_reader_init(spec + 2, NULL);
		if (!SRC[NSRC].mr) { fprintf(stderr, "no file %s\n", spec); abort(); }
		SRC[NSRC].r = dnstable_reader_init(mtbl_reader_source(SRC[NSRC].mr));
	} else
		SRC[NSRC].r = dnstable_reader_init_setfile(spec + 2);
	return SRC[NSRC++].r;
}

static void entry(struct dnstable_entry *e) {
	const uint8_t *p; size_t n, num = 0; uint16_t t; uint64_t v; uint32_t v4; const char *s; dnstable_entry_type vt;
	jopen(NULL, "{");
	jint("ty", dnstable_entry_get_type(e));
	if (dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success || dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success) jbytes("n", p, n); else jbytes("n", "", 0);
	jint("t", dnstable_entry_get_rrtype(e, &t) == dnstable_res_success ? t : 65536);
	if (dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success) jbytes("b", p, n); else jbytes("b", "", 0);
	jopen("r", "[");
	if (dnstable_entry_get_num_rdata(e, &num) != dnstable_res_success) num = 0;
	for (size_t i = 0; i < num; i++) if (dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success) jbytes(NULL, p, n);
	jclose("]");
	if (dnstable_entry_get_time_first(e, &v) == dnstable_res_success) jlimbs("f", v); else jbytes("f", "", 0);
	if (dnstable_entry_get_time_last(e, &v) == dnstable_res_success) jlimbs("l", v); else jbytes("l", "", 0);
	if (dnstable_entry_get_count(e, &v) == dnstable_res_success) jlimbs("c", v); else jbytes("c", "", 0);
	jopen("x", "[");
	if (dnstable_entry_get_version(e, &v4) == dnstable_res_success && dnstable_entry_get_version_type(e, &vt) == dnstable_res_success) { jint(NULL, vt); jlimbs2(NULL, v4); }
	if (dnstable_entry_get_source_info(e, &s) == dnstable_res_success) jbytes(NULL, s, strlen(s));
	jclose("]");
	jclose("}");
}

static int TIMED, STATS;
#define CALLMAX (TIMED ? 60 : 100000)
static void snapshot(struct dnstable_iter *it) {
	jopen(NULL, "{");
	uint64_t c[2]; bool ex[2]; int same = 1; dnstable_res r[2];
	jopen("v", "[");
	for (int s = 0; s < 10; s++) {
		jopen(NULL, "[");
		for (int k = 0; k < 4; k++) {
			for (int z = 0; z < 2; z++) { c[z] = 999999; ex[z] = 0; r[z] = dnstable_iter_get_count(it, s, k, &ex[z], &c[z]); }
			if (r[0] != r[1] || ex[0] != ex[1] || c[0] != c[1]) same = 0;
			/* exists, and the count when it does */
			jopen(NULL, "["); jint(NULL, r[0] == dnstable_res_success && ex[0]);
			jint(NULL, r[0] == dnstable_res_success && ex[0] ? (long long)(c[0] > 1000000000 ? 1000000000 : c[0]) : 0); jclose("]");
		}
		jclose("]");
	}
	jclose("]");
	uint64_t z = 0; bool b;
	same &= dnstable_iter_get_count(it, 0, 4, &b, &z) == dnstable_res_failure;
	same &= dnstable_iter_get_count(it, 10, 0, &b, &z) == dnstable_res_failure;
	same &= dnstable_iter_get_count(it, 0, 0, &b, NULL) == dnstable_res_failure;
	jint("ok", same);
	jclose("}");
}

static struct dnstable_iter *OPEN;	/* the latest execution */
#define RESMAX 3000	/* far more than any store of ours holds */
static void run(struct dnstable_reader *r, struct dnstable_query *q, long max, int more) {
	struct dnstable_iter *it; struct dnstable_entry *e; long n = 0, calls = 0; char *ends = NULL; size_t elen;
	FILE *f = open_memstream(&ends, &elen);
	IADV = 0;
	if (!more) { dnstable_iter_destroy(&OPEN); OPEN = dnstable_reader_query(r, q); }
	it = OPEN;
	jopen(NULL, "{"); key("e"); out(more ? "\"more\"" : "\"run\"");
	jint("null", it == NULL);
	if (max < 0) max = RESMAX;
	jint("max", max);
	int nsnap = 0; char *sob; (void) sob;
	jopen("res", "[");
	/* timing and snapshots are collected on the side */
	struct call { char o; long start; int rd0, rd1, nx0, nx1; } *C = calloc(CALLMAX + 1, sizeof *C);
	NRD = NNX = 0;
	char *save = NULL; size_t saven = 0;
	/* snapshots are rendered into a second buffer */
	#define SNAP() do { if (STATS && it) { \
		size_t m = OBn; int c0 = COMMA; COMMA = 0; snapshot(it); \
		save = realloc(save, saven + (OBn - m) + 2); if (nsnap++) save[saven++] = ','; \
		memcpy(save + saven, OB + m, OBn - m); saven += OBn - m; OBn = m; COMMA = c0; } } while (0)
	SNAP();
	char last = 0;
	while (n < max) {
		if (calls == CALLMAX) break;
		struct call *c = &C[calls++];
		c->start = NOW; c->rd0 = NRD; c->nx0 = NNX;
		e = NULL;
		dnstable_res res = dnstable_iter_next(it, &e);
		c->rd1 = NRD; c->nx1 = NNX;
		if (res == dnstable_res_success) { c->o = 'E'; entry(e); dnstable_entry_destroy(&e); n++; if (n % 3 == 0) SNAP(); }
		else if (res == dnstable_res_timeout) c->o = 'T';
		else c->o = 'F';
		last = c->o;
		if (c->o == 'F') break;
	}
	SNAP();
	jclose("]");
	key("end"); out("\"%s\"", last == 'F' ? "F" : calls == CALLMAX ? "calls" : "max");
	fclose(f); free(ends);
	jopen("calls", "[");
	if (TIMED)
		for (long i = 0; i < calls; i++) {
			jopen(NULL, "{"); key("o"); out("\"%c\"", C[i].o); jint("s", C[i].start);
			jopen("rd", "["); for (int k = C[i].rd0; k < C[i].rd1; k++) jint(NULL, RD[k]); jclose("]");
			jopen("nx", "["); for (int k = C[i].nx0; k < C[i].nx1; k++) jint(NULL, NX[k]); jclose("]");
			jclose("}");
		}
	jclose("]");
	key("stats"); out("["); OBn += 0;
	if (saven) { out("%.*s", (int) saven, save); }
	out("]"); COMMA = 1;
	free(save); free(C);
	jclose("}");
}

static void set_event(struct dnstable_query *q, const char *op, dnstable_res r) {
	const char *err = dnstable_query_get_error(q);
	jopen(NULL, "{"); key("e"); out("\"set\""); key("op"); out("\"%s\"", op);
	jint("ok", r == dnstable_res_success);
	jint("err", err != NULL && *err && strcmp(err, "unknown error"));
	jclose("}");
}

/* a setting of the query object; false when op is none */
static int apply_set(struct dnstable_query *q, const char *op, char *a) {
	char *s; int isnull = !strcmp(a, "!");
	if (!strcmp(op, "data")) { s = isnull ? NULL : unhexs(a); set_event(q, op, dnstable_query_set_data(q, s)); free(s); }
	else if (!strcmp(op, "rr")) { s = isnull ? NULL : unhexs(a); set_event(q, op, dnstable_query_set_rrtype(q, s)); free(s); }
	else if (!strcmp(op, "bw")) { s = isnull ? NULL : unhexs(a); set_event(q, op, dnstable_query_set_bailiwick(q, s)); free(s); }
	else if (!strcmp(op, "case")) set_event(q, op, dnstable_query_set_case_sensitive(q, atoi(a)));
	else if (!strcmp(op, "agg")) set_event(q, op, dnstable_query_set_aggregated(q, atoi(a)));
	else if (!strcmp(op, "off")) set_event(q, op, dnstable_query_set_offset(q, strtoull(a, NULL, 10)));
	else if (!strcmp(op, "fp")) {	/* fp=<which>.<len>.<value|!> */
		int which, len, pos; sscanf(a, "%d.%d.%n", &which, &len, &pos);
		uint64_t v = 0; uint8_t *b = NULL;
		if (a[pos] != '!') { v = strtoull(a + pos, NULL, 10); b = malloc(len); memcpy(b, &v, len < 8 ? len : 8); }
		set_event(q, op, dnstable_query_set_filter_parameter(q, which, b, len)); free(b);
	}
	else if (!strcmp(op, "to") || !strcmp(op, "dl")) {	/* milliseconds; deadlines on the simulated clock */
		struct timespec ts; long ms = atol(a);
		ts.tv_sec = ms / 1000; ts.tv_nsec = ms % 1000 * 1000000; TIMED = 1;
		if (op[0] == 't') set_event(q, op, dnstable_query_set_timeout(q, isnull ? NULL : &ts));
		else { ts.tv_sec += 1000; set_event(q, op, dnstable_query_set_deadline(q, isnull ? NULL : &ts)); }
	}
	else return 0;
	return 1;
}

static void do_query(void) {
	struct dnstable_reader *r = source(TOK[1]);
	struct dnstable_query *q = dnstable_query_init(atoi(TOK[2]));
	TIMED = STATS = 0; NADV = 0; NOW = 0; shim_merge_order = 0;
	jopen("ev", "[");
	for (int i = 3; i < NTOK; i++) {
		char *op = TOK[i], *a = strchr(op, '='); *a++ = 0;
		if (apply_set(q, op, a)) ;
		else if (!strcmp(op, "adv")) { NADV = 0; for (char *p = strtok(a, ","); p; p = strtok(NULL, ",")) ADV[NADV++] = atol(p); }
		else if (!strcmp(op, "ord")) shim_merge_order = atoi(a);
		else if (!strcmp(op, "stats")) STATS = atoi(a);
		else if (!strcmp(op, "run")) run(r, q, atol(a), 0);
		else if (!strcmp(op, "more")) run(r, q, atol(a), 1);
		else if (!strcmp(op, "filt")) {	/* filt=<key>:<val> */
			char *v = strchr(a, ':'); *v++ = 0; size_t lk, lv; uint8_t *k = unhex(a, &lk), *vv = unhex(v, &lv); bool pass = false;
			struct dnstable_entry *e = dnstable_entry_decode(k, lk, vv, lv);
			dnstable_res res = e ? dnstable_query_filter(q, e, &pass) : dnstable_res_failure;
			jopen(NULL, "{"); key("e"); out("\"filt\""); jint("dec", e != NULL); jint("res", res == dnstable_res_success);
			jint("pass", res == dnstable_res_success && pass); jclose("}");
			dnstable_entry_destroy(&e); free(k); free(vv);
		}
	}
	jclose("]");
	dnstable_iter_destroy(&OPEN);
	dnstable_query_destroy(&q);
}

static struct dnstable_iter *scan_iter(struct dnstable_reader *r, int w) {
	switch (w) {
	case 0: return dnstable_reader_iter_rrset(r);
	case 1: return dnstable_reader_iter_rrset_names(r);
	case 2: return dnstable_reader_iter_rdata(r);
	case 3: return dnstable_reader_iter_rdata_names(r);
	case 253: return dnstable_reader_iter_source_info(r);
	case 254: return dnstable_reader_iter_time_range(r);
	case 255: return dnstable_reader_iter_version(r);
	default: return dnstable_reader_iter(r);
	}
}

/* follow SETFILE op...: the life of one reader of a set file
 *   list=<i.i..>     the set file is replaced by one naming files f<i>.mtbl (some may not exist)
 *   start            the reader is made
 *   reload           dnstable_reader_reload_setfile
 *   def=<kind>       a query object, numbered from 1; the settings after it are its own
 *   scan=<s>.<w>     slot s: a scan;  ask=<s>.<n> slot s: query n executed
 *   get=<s>.<n>      n more entries (-1: all) from slot s
 *   close=<s>                                                                */
static void do_follow(void) {
	static long stamp = 1000000000;
	struct dnstable_reader *r = NULL; struct dnstable_query *Q[16]; int nq = 0;
	struct dnstable_iter *it[16] = { 0 }; struct dnstable_entry *e;
	NADV = 0; NOW = 0; shim_merge_order = 0; TIMED = STATS = 0;
	jopen("ev", "[");
	for (int i = 2; i < NTOK; i++) {
		char *op = TOK[i], *a = strchr(op, '='); int s = 0, n = 0;
		if (a) { *a++ = 0; sscanf(a, "%d.%d", &s, &n); }
		if (!strcmp(op, "list")) {
			char tmp[4096]; snprintf(tmp, sizeof tmp, "%s.new", TOK[1]);
			FILE *f = fopen(tmp, "w"); if (!f) abort();
			for (char *p = strtok(a, "."); p; p = strtok(NULL, ".")) if (*p != '-') fprintf(f, "f%s.mtbl\n", p);
			fclose(f);
			struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = stamp += 100; ts[0].tv_nsec = ts[1].tv_nsec = 0;
			utimensat(AT_FDCWD, tmp, ts, 0); rename(tmp, TOK[1]);
		}
		else if (!strcmp(op, "start")) r = dnstable_reader_init_setfile(TOK[1]);
		else if (!strcmp(op, "reload")) dnstable_reader_reload_setfile(r);
		else if (!strcmp(op, "def")) Q[nq++] = dnstable_query_init(s);
		else if (!strcmp(op, "scan")) it[s] = scan_iter(r, n);
		else if (!strcmp(op, "ask")) it[s] = dnstable_reader_query(r, Q[n - 1]);
		else if (!strcmp(op, "close")) dnstable_iter_destroy(&it[s]);
		else if (!strcmp(op, "get")) {
			int k = 0; dnstable_res res = dnstable_res_success;
			jopen(NULL, "{"); jopen("res", "[");
			while (it[s] && k < (n < 0 ? RESMAX : n)) {
				res = dnstable_iter_next(it[s], &e);
				if (res != dnstable_res_success) break;
				entry(e); dnstable_entry_destroy(&e); k++;
			}
			jclose("]"); jint("null", it[s] == NULL); jint("end", it[s] == NULL || res != dnstable_res_success); jclose("}");
		}
		else { if (!nq || !apply_set(Q[nq - 1], op, a)) abort(); }
	}
	jclose("]");
	for (int i = 0; i < 16; i++) dnstable_iter_destroy(&it[i]);
	for (int i = 0; i < nq; i++) dnstable_query_destroy(&Q[i]);
	dnstable_reader_destroy(&r);
}

static void do_scan(void) {
	struct dnstable_reader *r = source(TOK[1]); struct dnstable_iter *it = NULL; struct dnstable_entry *e;
	int w = atoi(TOK[2]); shim_merge_order = NTOK > 3 ? atoi(TOK[3]) : 0;
	it = scan_iter(r, w);
	jopen("res", "[");
	while (dnstable_iter_next(it, &e) == dnstable_res_success) { entry(e); dnstable_entry_destroy(&e); }
	jclose("]");
	jint("again", dnstable_iter_next(it, &e) == dnstable_res_success);
	dnstable_iter_destroy(&it);
}

static void do_names(void) {
	jopen("stages", "[");
	for (int i = -1; i < 12; i++) {
		const char *s = dnstable_stat_stage_to_str(i); dnstable_stat_stage b = 99;
		dnstable_res r = s ? dnstable_stat_str_to_stage(s, &b) : dnstable_res_failure;
		jopen(NULL, "{"); jint("i", i); key("s"); out("\"%s\"", s ? s : "-"); jint("has", s != NULL); jint("back", r == dnstable_res_success ? (int) b : -1); jclose("}");
	}
	jclose("]");
	jopen("cats", "[");
	for (int i = -1; i < 6; i++) {
		const char *s = dnstable_stat_category_to_str(i); dnstable_stat_category b = 99;
		dnstable_res r = s ? dnstable_stat_str_to_category(s, &b) : dnstable_res_failure;
		jopen(NULL, "{"); jint("i", i); key("s"); out("\"%s\"", s ? s : "-"); jint("has", s != NULL); jint("back", r == dnstable_res_success ? (int) b : -1); jclose("}");
	}
	jclose("]");
	dnstable_stat_stage b; dnstable_stat_category c;
	jint("bad", dnstable_stat_str_to_stage("no such stage", &b) == dnstable_res_success || dnstable_stat_str_to_category("", &c) == dnstable_res_success);
}

static void request(void) {
	shim_on_upstream_next = on_next;
	if (!strcmp(TOK[0], "q")) do_query();
	else if (!strcmp(TOK[0], "scan")) do_scan();
	else if (!strcmp(TOK[0], "names")) do_names();
	else if (!strcmp(TOK[0], "follow")) do_follow();
}
