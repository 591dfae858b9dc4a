/* Decoding, rendering and merging of single records.
 *   dec KEY VAL                     -> {ok, e}
 *   fmt KEY VAL ZONE t|j                -> every rendering
 *   scan KEY VAL [KEY VAL]...       -> the entries a full scan of a reader yields
 */
#define _GNU_SOURCE
#include "dns_obs.h"
static void text(const char *k, char *s) { if (s) jbytes(k, s, strlen(s)); free(s); }
static void request(void)
{
	const char *c = TOK[0];
	if (!strcmp(c, "dec")) {
		size_t kn, vn; uint8_t *k = unhex(TOK[1], &kn), *v = unhex(TOK[2], &vn);
		struct dnstable_entry *e = dnstable_entry_decode(k, kn, v, vn);
		memset(k, 0xee, kn); memset(v, 0xee, vn); free(k); free(v);   /* entries own their data */
		jint("ok", e != NULL);
		if (e) {
			obs_entry("e", e);
			free(dnstable_entry_to_text(e)); free(dnstable_entry_to_json(e));
			dnstable_entry_destroy(&e);
		}
	} else if (!strcmp(c, "fmt")) {
		size_t kn, vn; uint8_t *k = unhex(TOK[1], &kn), *v = unhex(TOK[2], &vn);
		struct dnstable_entry *e = dnstable_entry_decode(k, kn, v, vn);
		jint("ok", e != NULL);
		if (!e) return;
		dnstable_entry_set_iszone(e, atoi(TOK[3]));
		/* the presentation of each rdata as libwdns gives it */
		{
			uint16_t t; const uint8_t *p; size_t n, num;
			jopen("rp", "[");
			if (dnstable_entry_get_num_rdata(e, &num) == dnstable_res_success && dnstable_entry_get_rrtype(e, &t) == dnstable_res_success)
				for (size_t i = 0; i < num; i++)
					if (dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success)
						text(NULL, wdns_rdata_to_str(p, n, t, WDNS_CLASS_IN));
			jclose("]");
		}
		bool js = TOK[4][0] == 'j';
		if (!js) text("text0", dnstable_entry_to_text(e)); else text("json0", dnstable_entry_to_json(e));
		struct dnstable_formatter *f = dnstable_formatter_init();
		if (js) text("fdef", dnstable_entry_format(f, e));
		int j = js;
		for (int d = 0; d < 2; d++) for (int a = 0; a < 2; a++) for (int r = 0; r < 2; r++) {
			char n[8]; snprintf(n, sizeof n, "%c%d%d%d", j ? 'j' : 't', d, a, r);
			dnstable_formatter_set_output_format(f, j ? dnstable_output_format_json : dnstable_output_format_text);
			dnstable_formatter_set_date_format(f, d ? dnstable_date_format_rfc3339 : dnstable_date_format_unix);
			dnstable_formatter_set_rdata_array(f, a); dnstable_formatter_set_raw_rdata(f, r);
			text(n, dnstable_entry_format(f, e));
		}
		dnstable_formatter_destroy(&f);
		dnstable_entry_destroy(&e);
		free(k); free(v);
	} else if (!strcmp(c, "scan")) {
		struct mtbl_reader *r = shim_reader_new();
		for (int i = 1; i + 1 < NTOK; i += 2) {
			size_t kn, vn; uint8_t *k = unhex(TOK[i], &kn), *v = unhex(TOK[i+1], &vn);
			if (shim_reader_add(r, k, kn, v, vn) != mtbl_res_success) { jint("badadd", i); return; }
			free(k); free(v);
		}
		struct dnstable_reader *d = dnstable_reader_init(mtbl_reader_source(r));
		struct dnstable_iter *it = dnstable_reader_iter(d); struct dnstable_entry *e; 
		jopen("ents", "[");
		while (dnstable_iter_next(it, &e) == dnstable_res_success) { obs_entry(NULL, e); dnstable_entry_destroy(&e); }
		jclose("]");
		jint("again", dnstable_iter_next(it, &e) == dnstable_res_success);
		dnstable_iter_destroy(&it); dnstable_reader_destroy(&d); mtbl_reader_destroy(&r);
	}
}
