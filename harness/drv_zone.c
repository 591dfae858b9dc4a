/* Zone-file driver: zone PATH READS -> open, getters, and every read with the getters after it. */
#include "drv.h"
#include "libmy/zonefile.h"
static void getters(struct zonefile *z)
{
	const ldns_rdf *d = zonefile_get_domain(z);
	jint("count", zonefile_get_count(z));
	jbytes("domain", ldns_rdf_data(d), ldns_rdf_size(d));
	uint32_t s = zonefile_get_serial(z);
	uint8_t b[4] = { s >> 24, s >> 16, s >> 8, s };
	jbytes("serial", b, 4);
}
static void request(void)
{
	struct zonefile *z = zonefile_init_fname(unhexs(TOK[1]));
	jint("open", z != NULL);
	if (z == NULL) return;
	getters(z);
	jopen("ev", "[");
	for (int i = atoi(TOK[2]); i > 0; i--) {
		ldns_rr *rr = NULL;
		ldns_status s = zonefile_read(z, &rr);
		jopen(NULL, "{");
		key("st"); out(s != LDNS_STATUS_OK ? "\"err\"" : rr ? "\"rr\"" : "\"end\"");
		if (s == LDNS_STATUS_OK && rr) {
			jbytes("owner", ldns_rdf_data(ldns_rr_owner(rr)), ldns_rdf_size(ldns_rr_owner(rr)));
			jint("ttl", ldns_rr_ttl(rr)); jint("type", ldns_rr_get_type(rr));
			uint8_t w[4096]; size_t n = 0;
			for (size_t k = 0; k < ldns_rr_rd_count(rr); k++) {
				ldns_rdf *x = ldns_rr_rdf(rr, k);
				memcpy(w + n, ldns_rdf_data(x), ldns_rdf_size(x)); n += ldns_rdf_size(x);
			}
			jbytes("rd", w, n);
			ldns_rr_free(rr);
		}
		getters(z);
		jclose("}");
	}
	jclose("]");
	zonefile_destroy(&z);
	if (z != NULL) jint("left", 1);
}
