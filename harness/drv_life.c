/* life SRC op...: taking, using and giving back the library's objects.  One event per op, each
 * with the memory and the descriptors in use afterwards.
 *   SRC: f:<file> or s:<setfile>
 *   open shut                  the reader
 *   def=k.kind drop=k set=k    query k; set: the settings that follow (data=.. rr=.. ...) are its own
 *   ask=k.n scan=k.w close=k   iterator k
 *   next=k.n look=k free=k     entry k, from iterator n
 *   dec=k.key.val              entry k, decoded from bytes that are gone afterwards
 *   text=k.n.m textlook=k untext=k   text k, made from entry n in form m
 *   filt=k.n err=k stat=k reload list=i.i adv=.. ord=n  */
#include "drv.h"
#define request dns_request
#include "drv_dns.c"
#undef request
#include <dirent.h>
size_t __sanitizer_get_current_allocated_bytes(void);
static int fds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (d && readdir(d)) n++; if (d) closedir(d); return n; }
#define SL 16
static void life(void) {
	static long stamp = 1500000000;
	struct dnstable_reader *r = NULL; struct mtbl_reader *mr = NULL; struct dnstable_query *q[SL] = { 0 }; int cur = 0;
	struct dnstable_iter *it[SL] = { 0 }; struct dnstable_entry *e[SL] = { 0 }; char *tx[SL] = { 0 };
	if (OBcap < 1 << 23) { OBcap = 1 << 23; OB = realloc(OB, OBcap); }
	NADV = 0; NOW = 0; NRD = NNX = 0; shim_merge_order = 0; TIMED = STATS = 0;
	jopen("ev", "[");
	for (int i = 2; i < NTOK; i++) {
		char *op = strdup(TOK[i]), *a = strchr(op, '='); int k = 0, n = 0, m = 0, pos = 0;
		if (a) { *a++ = 0; sscanf(a, "%d.%d%n", &k, &n, &pos); if (pos && a[pos] == '.') m = atoi(a + pos + 1); }
		if (k < 0 || k >= SL) k = 0;
		jopen(NULL, "{");
		if (!strcmp(op, "open")) {
			if (TOK[1][0] == 'f') { mr = mtbl_reader_init(TOK[1] + 2, NULL); r = dnstable_reader_init(mtbl_reader_source(mr)); }
			else r = dnstable_reader_init_setfile(TOK[1] + 2);
			jint("none", r == NULL);
		}
		else if (!strcmp(op, "shut")) { jint("none", r == NULL); dnstable_reader_destroy(&r); mtbl_reader_destroy(&mr); }
		else if (!strcmp(op, "reload")) { if (r) dnstable_reader_reload_setfile(r); }
		else if (!strcmp(op, "list")) {
			if (TOK[1][0] == 's') {
				char tmp[4096]; snprintf(tmp, sizeof tmp, "%s.new", TOK[1] + 2);
				FILE *f = fopen(tmp, "w"); if (!f) abort();
				for (char *p = strtok(a, "."); p; p = strtok(NULL, ".")) if (*p != '-') fprintf(f, "f%s.mtbl\n", p);
				fclose(f);
				struct timespec ts[2]; ts[0].tv_sec = ts[1].tv_sec = stamp += 100; ts[0].tv_nsec = ts[1].tv_nsec = 0;
				utimensat(AT_FDCWD, tmp, ts, 0); rename(tmp, TOK[1] + 2);
			}
		}
		else if (!strcmp(op, "def")) q[k] = dnstable_query_init(n);
		else if (!strcmp(op, "drop")) { jint("none", q[k] == NULL); dnstable_query_destroy(&q[k]); }
		else if (!strcmp(op, "set")) cur = k;
		else if (!strcmp(op, "ask")) it[k] = dnstable_reader_query(r, q[n]);
		else if (!strcmp(op, "scan")) it[k] = scan_iter(r, n);
		else if (!strcmp(op, "close")) { jint("none", 0); dnstable_iter_destroy(&it[k]); }
		else if (!strcmp(op, "next")) {
			dnstable_res res = it[n] ? dnstable_iter_next(it[n], &e[k]) : dnstable_res_failure;
			jint("got", res == dnstable_res_success); key("c");
			if (res == dnstable_res_success) { COMMA = 0; entry(e[k]); } else { e[k] = NULL; out("0"); }
			COMMA = 1;
		}
		else if (!strcmp(op, "dec")) {
			char *x = strchr(a, '.') + 1, *y = strchr(x, '.'); *y++ = 0; size_t lk, lv; uint8_t *kb = unhex(x, &lk), *vb = unhex(y, &lv);
			e[k] = dnstable_entry_decode(kb, lk, vb, lv);
			memset(kb, 0xa5, lk); memset(vb, 0xa5, lv); free(kb); free(vb);
			jint("none", 0); jint("got", e[k] != NULL); key("c"); COMMA = 0; if (e[k]) entry(e[k]); else out("0"); COMMA = 1;
		}
		else if (!strcmp(op, "look")) { jint("none", e[k] == NULL); key("c"); COMMA = 0; if (e[k]) entry(e[k]); else out("0"); COMMA = 1; }
		else if (!strcmp(op, "free")) { jint("none", e[k] == NULL); dnstable_entry_destroy(&e[k]); }
		else if (!strcmp(op, "text")) {
			jint("none", e[n] == NULL);
			if (e[n]) {
				if (m == 0) tx[k] = dnstable_entry_to_text(e[n]);
				else if (m == 1) tx[k] = dnstable_entry_to_json(e[n]);
				else {
					struct dnstable_formatter *f = dnstable_formatter_init();
					dnstable_formatter_set_output_format(f, m & 1 ? dnstable_output_format_json : dnstable_output_format_text);
					dnstable_formatter_set_date_format(f, m & 4 ? dnstable_date_format_rfc3339 : dnstable_date_format_unix);
					dnstable_formatter_set_raw_rdata(f, (m & 8) != 0);
					tx[k] = dnstable_entry_format(f, e[n]);
					dnstable_formatter_destroy(&f);
				}
			}
			key("c"); COMMA = 0; if (tx[k] && e[n]) jbytes(NULL, tx[k], strlen(tx[k])); else out("0"); COMMA = 1;
		}
		else if (!strcmp(op, "textlook")) { jint("none", tx[k] == NULL); key("c"); COMMA = 0; if (tx[k]) jbytes(NULL, tx[k], strlen(tx[k])); else out("0"); COMMA = 1; }
		else if (!strcmp(op, "untext")) { jint("none", tx[k] == NULL); free(tx[k]); tx[k] = NULL; }
		else if (!strcmp(op, "filt")) { bool pass; if (q[k] && e[n]) (void) dnstable_query_filter(q[k], e[n], &pass); }
		else if (!strcmp(op, "err")) { const char *s = q[k] ? dnstable_query_get_error(q[k]) : NULL; jint("len", s ? (int) strlen(s) : -1); }
		else if (!strcmp(op, "stat")) { uint64_t c; bool ex; if (it[k]) (void) dnstable_iter_get_count(it[k], n, m, &ex, &c); }
		else if (!strcmp(op, "adv")) { NADV = 0; for (char *p = strtok(a, ","); p; p = strtok(NULL, ",")) ADV[NADV++] = atol(p); }
		else if (!strcmp(op, "ord")) shim_merge_order = k;
		else {
			size_t o = OBn; int c = COMMA;
			if (!q[cur] || !apply_set(q[cur], op, a)) abort();
			OBn = o; COMMA = c;
		}
		free(op);
		jint("mem", (long long) __sanitizer_get_current_allocated_bytes() - (long long) OBcap); jint("fds", fds());
		jclose("}");
	}
	jclose("]");
	for (int k = 0; k < SL; k++) { free(tx[k]); dnstable_entry_destroy(&e[k]); dnstable_iter_destroy(&it[k]); }
	for (int k = 0; k < SL; k++) dnstable_query_destroy(&q[k]);
	dnstable_reader_destroy(&r); mtbl_reader_destroy(&mr);
}
static void request(void) { shim_on_upstream_next = on_next; life(); }
