/* What every accessor of an entry reports, as JSON (absent fields: []). */
#ifndef DNS_OBS_H
#define DNS_OBS_H
#include "drv.h"
#include <mtbl.h>
#include <wdns.h>
#include "dnstable.h"
static void obs_entry(const char *k, struct dnstable_entry *e)
{
	const uint8_t *p; size_t n, num; uint16_t t; uint64_t v; uint32_t v4; const char *s; dnstable_entry_type vt;
	jopen(k, "{");
	jint("ty", dnstable_entry_get_type(e));
	jopen("rrname", "["); if (dnstable_entry_get_rrname(e, &p, &n) == dnstable_res_success) jbytes(NULL, p, n); jclose("]");
	jopen("bw", "["); if (dnstable_entry_get_bailiwick(e, &p, &n) == dnstable_res_success) jbytes(NULL, p, n); jclose("]");
	jopen("rrtype", "["); if (dnstable_entry_get_rrtype(e, &t) == dnstable_res_success) jint(NULL, t); jclose("]");
	num = 0;
	jopen("num", "["); if (dnstable_entry_get_num_rdata(e, &num) == dnstable_res_success) jint(NULL, num); else num = 0; jclose("]");
	jopen("rds", "[");
	for (size_t i = 0; i < num; i++)
		if (dnstable_entry_get_rdata(e, i, &p, &n) == dnstable_res_success) jbytes(NULL, p, n);
	jclose("]");
	int past = dnstable_entry_get_rdata(e, num, &p, &n) == dnstable_res_success;
	past |= dnstable_entry_get_rdata(e, num + 1, &p, &n) == dnstable_res_success;
	past |= dnstable_entry_get_rdata(e, SIZE_MAX, &p, &n) == dnstable_res_success;
	jint("past", past);
	jopen("rdname", "["); if (dnstable_entry_get_rdata_name(e, &p, &n) == dnstable_res_success) jbytes(NULL, p, n); jclose("]");
	jopen("first", "["); if (dnstable_entry_get_time_first(e, &v) == dnstable_res_success) jlimbs(NULL, v); jclose("]");
	jopen("last", "["); if (dnstable_entry_get_time_last(e, &v) == dnstable_res_success) jlimbs(NULL, v); jclose("]");
	jopen("count", "["); if (dnstable_entry_get_count(e, &v) == dnstable_res_success) jlimbs(NULL, v); jclose("]");
	jopen("src", "["); if (dnstable_entry_get_source_info(e, &s) == dnstable_res_success) jbytes(NULL, s, strlen(s)); jclose("]");
	jopen("ver", "["); if (dnstable_entry_get_version(e, &v4) == dnstable_res_success) jlimbs2(NULL, v4); jclose("]");
	jopen("vty", "["); if (dnstable_entry_get_version_type(e, &vt) == dnstable_res_success) jint(NULL, vt); jclose("]");
	jclose("}");
}
#endif
