/* Stand-in for libwdns: the functions dnstable uses, over uncompressed names. */
#include <arpa/inet.h>
#include <ctype.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include "wdns.h"

static const struct { uint16_t t; const char *s; } types[] = {
	{1,"A"},{2,"NS"},{3,"MD"},{4,"MF"},{5,"CNAME"},{6,"SOA"},{7,"MB"},{8,"MG"},{9,"MR"},{10,"NULL"},
	{11,"WKS"},{12,"PTR"},{13,"HINFO"},{14,"MINFO"},{15,"MX"},{16,"TXT"},{17,"RP"},{18,"AFSDB"},
	{24,"SIG"},{25,"KEY"},{28,"AAAA"},{29,"LOC"},{30,"NXT"},{33,"SRV"},{35,"NAPTR"},{36,"KX"},
	{37,"CERT"},{39,"DNAME"},{41,"OPT"},{43,"DS"},{44,"SSHFP"},{46,"RRSIG"},{47,"NSEC"},{48,"DNSKEY"},
	{49,"DHCID"},{50,"NSEC3"},{51,"NSEC3PARAM"},{52,"TLSA"},{59,"CDS"},{60,"CDNSKEY"},
	{61,"OPENPGPKEY"},{64,"SVCB"},{65,"HTTPS"},{99,"SPF"},{255,"ANY"},{256,"URI"},{257,"CAA"},{32769,"DLV"}
};
#define NTYPES (sizeof types / sizeof types[0])

const char *wdns_rrtype_to_str(uint16_t t)
{
	for (size_t i = 0; i < NTYPES; i++) if (types[i].t == t) return types[i].s;
	return NULL;
}
uint16_t wdns_str_to_rrtype(const char *s)
{
	for (size_t i = 0; i < NTYPES; i++) if (strcasecmp(types[i].s, s) == 0) return types[i].t;
	if (strncasecmp(s, "TYPE", 4) == 0 && isdigit((unsigned char)s[4])) {
		char *e; long v = strtol(s + 4, &e, 10);
		if (*e == 0 && v >= 0 && v <= 65535) return v;
	}
	return 0;
}
const char *wdns_rrclass_to_str(uint16_t c) { return c == 1 ? "IN" : c == 255 ? "ANY" : NULL; }
uint16_t wdns_str_to_rrclass(const char *s) { return strcasecmp(s, "IN") == 0 ? 1 : strcasecmp(s, "ANY") == 0 ? 255 : 0; }
const char *wdns_res_to_str(wdns_res r) { return r == wdns_res_success ? "success" : "failure"; }

size_t wdns_domain_to_str(const uint8_t *p, size_t n, char *d)
{
	char *o = d; size_t i = 0;
	if (n == 0 || p[0] == 0) { strcpy(d, "."); return 2; }
	while (i < n && p[i]) {
		size_t l = p[i++];
		while (l-- && i < n) {
			uint8_t c = p[i++];
			if (c == '.' || c == '\\') { *o++ = '\\'; *o++ = c; }
			else if (c >= '!' && c <= '~') *o++ = c;
			else o += sprintf(o, "\\%03d", c);
		}
		*o++ = '.';
	}
	*o++ = 0;
	return o - d;
}

wdns_res wdns_str_to_name_case(const char *s, wdns_name_t *name)
{
	uint8_t buf[WDNS_MAXLEN_NAME]; size_t n = 0, lpos, llen = 0;
	name->data = NULL; name->len = 0;
	if (*s == 0) return wdns_res_parse_error;
	if (s[0] == '.' && s[1] == 0) { buf[n++] = 0; goto done; }
	lpos = n++;
	for (; *s; s++) {
		uint8_t c = *s;
		if (c == '.') {
			if (llen == 0) return wdns_res_parse_error;
			buf[lpos] = llen; llen = 0;
			if (n >= sizeof buf) return wdns_res_name_overflow;
			lpos = n++;
			continue;
		}
		if (c == '\\') {
			s++;
			if (isdigit((unsigned char)s[0])) {
				int v;
				if (!isdigit((unsigned char)s[1]) || !isdigit((unsigned char)s[2])) return wdns_res_parse_error;
				v = (s[0]-'0')*100 + (s[1]-'0')*10 + (s[2]-'0');
				if (v > 255) return wdns_res_parse_error;
				c = v; s += 2;
			} else if (*s == 0) return wdns_res_parse_error;
			else c = *s;
		}
		if (llen == 63 || n >= sizeof buf) return wdns_res_name_overflow;
		buf[n++] = c; llen++;
	}
	if (llen) {
		buf[lpos] = llen;
		if (n >= sizeof buf) return wdns_res_name_overflow;
		buf[n++] = 0;
	} else buf[lpos] = 0;
done:
	name->data = malloc(n);
	if (!name->data) abort();
	memcpy(name->data, buf, n); name->len = n;
	return wdns_res_success;
}
void wdns_downcase_name(wdns_name_t *name)
{
	for (size_t i = 0; i < name->len; i++)
		if (name->data[i] >= 'A' && name->data[i] <= 'Z') name->data[i] += 32;
}
wdns_res wdns_str_to_name(const char *s, wdns_name_t *name)
{
	wdns_res r = wdns_str_to_name_case(s, name);
	if (r == wdns_res_success) wdns_downcase_name(name);
	return r;
}
wdns_res wdns_reverse_name(const uint8_t *name, size_t n, uint8_t *rev)
{
	size_t i = 0, o;
	if (n == 0) return wdns_res_parse_error;
	memset(rev, 0, n);
	o = n - 1;
	while (i < n && name[i]) {
		size_t l = name[i] + 1;
		if (l > o) return wdns_res_parse_error;
		o -= l; memcpy(rev + o, name + i, l); i += l;
	}
	if (i >= n) return wdns_res_parse_error;
	return o == 0 ? wdns_res_success : wdns_res_parse_error;
}
wdns_res wdns_len_uname(const uint8_t *p, const uint8_t *eop, size_t *sz)
{
	const uint8_t *q = p;
	while (q < eop) {
		if (*q == 0) {
			*sz = q + 1 - p;
			return *sz <= WDNS_MAXLEN_NAME ? wdns_res_success : wdns_res_name_len;
		}
		if (*q > 63) return wdns_res_invalid_length_octet;
		q += *q + 1;
	}
	return wdns_res_out_of_bounds;
}
wdns_res wdns_count_labels(wdns_name_t *name, size_t *n)
{ size_t i = 0; *n = 0; while (i < name->len && name->data[i]) { i += name->data[i] + 1; (*n)++; } return wdns_res_success; }
wdns_res wdns_left_chop(wdns_name_t *name, wdns_name_t *chop)
{
	if (name->len <= 1) { chop->data = name->data; chop->len = name->len; return wdns_res_success; }
	chop->data = name->data + name->data[0] + 1; chop->len = name->len - name->data[0] - 1;
	return wdns_res_success;
}
wdns_res wdns_is_subdomain(wdns_name_t *a, wdns_name_t *b, bool *is)
{
	wdns_name_t n = *a; *is = false;
	for (;;) {
		if (n.len == b->len && !memcmp(n.data, b->data, n.len)) { *is = true; break; }
		if (n.len <= 1) break;
		wdns_left_chop(&n, &n);
	}
	return wdns_res_success;
}

struct sb { char *p; size_t n, cap; };
static void put(struct sb *b, const char *fmt, ...)
{
	char t[2048]; va_list ap; int l;
	va_start(ap, fmt); l = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
	while (b->n + l + 1 > b->cap) b->p = realloc(b->p, b->cap = b->cap ? 2 * b->cap : 256);
	memcpy(b->p + b->n, t, l + 1); b->n += l;
}
static bool put_name(struct sb *b, const uint8_t **p, const uint8_t *e)
{
	char n[WDNS_PRESLEN_NAME]; size_t l;
	if (wdns_len_uname(*p, e, &l) != wdns_res_success) return false;
	wdns_domain_to_str(*p, l, n); put(b, "%s", n); *p += l;
	return true;
}
static unsigned g16(const uint8_t *p) { return p[0] << 8 | p[1]; }
static uint32_t g32(const uint8_t *p) { return (uint32_t)g16(p) << 16 | g16(p + 2); }
char *wdns_rdata_to_str(const uint8_t *rd, uint16_t n, uint16_t t, uint16_t c)
{
	struct sb b = { 0 }; const uint8_t *p = rd, *e = rd + n; char a[64];
	put(&b, "%s", "");
	if (c == WDNS_CLASS_IN || c == WDNS_CLASS_ANY) switch (t) {
	case 1: if (n != 4) break; inet_ntop(AF_INET, rd, a, sizeof a); put(&b, "%s", a); return b.p;
	case 28: if (n != 16) break; inet_ntop(AF_INET6, rd, a, sizeof a); put(&b, "%s", a); return b.p;
	case 2: case 5: case 12: case 39:
		if (put_name(&b, &p, e) && p == e) return b.p;
		break;
	case 15:
		if (n < 3) break;
		put(&b, "%u ", g16(p)); p += 2;
		if (put_name(&b, &p, e) && p == e) return b.p;
		break;
	case 33:
		if (n < 7) break;
		put(&b, "%u %u %u ", g16(p), g16(p + 2), g16(p + 4)); p += 6;
		if (put_name(&b, &p, e) && p == e) return b.p;
		break;
	case 6:
		if (!put_name(&b, &p, e)) break;
		put(&b, " ");
		if (!put_name(&b, &p, e) || e - p != 20) break;
		for (int i = 0; i < 5; i++) put(&b, " %u", g32(p + 4 * i));
		return b.p;
	case 16: {
		bool ok = n > 0;
		while (p < e) {
			unsigned l = *p++;
			if (l > e - p) { ok = false; break; }
			put(&b, "%s\"", b.n ? " " : "");
			for (; l; l--, p++) {
				if (*p == '"' || *p == '\\') put(&b, "\\%c", *p);
				else if (*p >= ' ' && *p <= '~') put(&b, "%c", *p);
				else put(&b, "\\%03d", *p);
			}
			put(&b, "\"");
		}
		if (ok) return b.p;
		break;
	}
	default: break;
	}
	b.n = 0; b.p[0] = 0;
	put(&b, "\\# %u", n);
	if (n) put(&b, " ");
	for (p = rd; p < e; p++) put(&b, "%02X ", *p);
	while (b.n && b.p[b.n - 1] == ' ') b.p[--b.n] = 0;
	return b.p;
}
wdns_res wdns_str_to_rdata(const char *s, uint16_t t, uint16_t c, uint8_t **rd, size_t *n)
{ (void)s; (void)t; (void)c; (void)rd; (void)n; return wdns_res_parse_error; }
