/*
 * In-memory stand-in for libmtbl.  Semantics follow libmtbl 1.6's documented
 * interface: ordered iteration, inclusive get_range, seek to first key >= k,
 * reader sources returning NULL iterators when nothing can match, mergers that
 * fold duplicate keys with the merge function (or present all of them, ordered
 * by dupsort, when there is none), and filesets whose contents are fixed for
 * the life of an iterator.
 *
 * Keys and values are handed out in exactly-sized heap copies that are freed
 * on the next call on that iterator, so that reads past the end and stale
 * pointers are visible to AddressSanitizer.
 */
#include <assert.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include "mtbl.h"
#ifdef SHIM_ZLIB
#include <zlib.h>
#endif

void (*shim_on_upstream_next)(void);
unsigned shim_merge_order;

static void *xcalloc(size_t n, size_t s) { void *p = calloc(n ? n : 1, s ? s : 1); if (!p) abort(); return p; }
static void *xrealloc(void *p, size_t s) { p = realloc(p, s ? s : 1); if (!p) abort(); return p; }
static uint8_t *xdup(const uint8_t *p, size_t n)
{
	uint8_t *r = malloc(n ? n : 1);
	if (!r) abort();
	if (n) memcpy(r, p, n);
	return r;
}

static int
cmp_bytes(const uint8_t *a, size_t la, const uint8_t *b, size_t lb)
{
	size_t n = la < lb ? la : lb;
	int r = n ? memcmp(a, b, n) : 0;
	if (r) return r;
	return la < lb ? -1 : la > lb ? 1 : 0;
}

/* varint, fixed */
size_t mtbl_fixed_encode32(uint8_t *d, uint32_t v) { for (int i = 0; i < 4; i++) d[i] = v >> (8*i); return 4; }
size_t mtbl_fixed_encode64(uint8_t *d, uint64_t v) { for (int i = 0; i < 8; i++) d[i] = v >> (8*i); return 8; }
uint32_t mtbl_fixed_decode32(const uint8_t *p) { uint32_t v = 0; for (int i = 0; i < 4; i++) v |= (uint32_t)p[i] << (8*i); return v; }
uint64_t mtbl_fixed_decode64(const uint8_t *p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)p[i] << (8*i); return v; }
unsigned mtbl_varint_length(uint64_t v) { unsigned n = 1; while (v >= 128) { v >>= 7; n++; } return n; }
unsigned mtbl_varint_length_packed(const uint8_t *d, size_t n)
{
	unsigned i;
	for (i = 0; i < n && i < 10; i++) if (!(d[i] & 0x80)) return i + 1;
	return 0;
}
size_t mtbl_varint_encode64(uint8_t *p, uint64_t v)
{
	size_t n = 0;
	while (v >= 128) { p[n++] = (v & 0x7f) | 0x80; v >>= 7; }
	p[n++] = v;
	return n;
}
size_t mtbl_varint_encode32(uint8_t *p, uint32_t v) { return mtbl_varint_encode64(p, v); }
size_t mtbl_varint_decode64(const uint8_t *p, uint64_t *v)
{
	uint64_t r = 0; size_t n = 0;
	for (;;) {
		r |= (uint64_t)(p[n] & 0x7f) << (7 * n);
		if (!(p[n] & 0x80)) { *v = r; return n + 1; }
		if (++n == 10) { *v = 0; return 0; }
	}
}
size_t mtbl_varint_decode32(const uint8_t *p, uint32_t *v)
{
	uint32_t r = 0; size_t n = 0;
	for (;;) {
		r |= (uint32_t)(p[n] & 0x7f) << (7 * n);
		if (!(p[n] & 0x80)) { *v = r; return n + 1; }
		if (++n == 5) { *v = 0; return 0; }
	}
}

/* iter, source */
struct mtbl_iter { mtbl_iter_seek_func seek; mtbl_iter_next_func next; mtbl_iter_free_func free; void *clos; };
struct mtbl_iter *
mtbl_iter_init(mtbl_iter_seek_func s, mtbl_iter_next_func n, mtbl_iter_free_func f, void *c)
{
	struct mtbl_iter *it = xcalloc(1, sizeof *it);
	it->seek = s; it->next = n; it->free = f; it->clos = c;
	return it;
}
void mtbl_iter_destroy(struct mtbl_iter **it)
{
	if (*it) {
		if ((*it)->free) (*it)->free((*it)->clos);
		free(*it);
		*it = NULL;
	}
}
mtbl_res mtbl_iter_seek(struct mtbl_iter *it, const uint8_t *k, size_t n)
{
	if (it == NULL) return mtbl_res_failure;
	return it->seek(it->clos, k, n);
}
mtbl_res mtbl_iter_next(struct mtbl_iter *it, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	if (it == NULL) return mtbl_res_failure;
	return it->next(it->clos, k, lk, v, lv);
}
struct mtbl_source {
	mtbl_source_iter_func iter; mtbl_source_get_func get; mtbl_source_get_prefix_func get_prefix;
	mtbl_source_get_range_func get_range; mtbl_source_free_func free; void *clos;
};
struct mtbl_source *
mtbl_source_init(mtbl_source_iter_func i, mtbl_source_get_func g, mtbl_source_get_prefix_func p,
	mtbl_source_get_range_func r, mtbl_source_free_func f, void *c)
{
	struct mtbl_source *s = xcalloc(1, sizeof *s);
	s->iter = i; s->get = g; s->get_prefix = p; s->get_range = r; s->free = f; s->clos = c;
	return s;
}
void mtbl_source_destroy(struct mtbl_source **s)
{
	if (*s) {
		if ((*s)->free) (*s)->free((*s)->clos);
		free(*s);
		*s = NULL;
	}
}
struct mtbl_iter *mtbl_source_iter(const struct mtbl_source *s) { return s->iter(s->clos); }
struct mtbl_iter *mtbl_source_get(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->get(s->clos, k, n); }
struct mtbl_iter *mtbl_source_get_prefix(const struct mtbl_source *s, const uint8_t *k, size_t n) { return s->get_prefix(s->clos, k, n); }
struct mtbl_iter *mtbl_source_get_range(const struct mtbl_source *s, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2)
{ return s->get_range(s->clos, k, n, k2, n2); }
mtbl_res mtbl_source_write(const struct mtbl_source *s, struct mtbl_writer *w)
{
	const uint8_t *k, *v; size_t lk, lv; mtbl_res r = mtbl_res_success;
	struct mtbl_iter *it = mtbl_source_iter(s);
	if (it == NULL) return mtbl_res_failure;
	while (mtbl_iter_next(it, &k, &lk, &v, &lv) == mtbl_res_success)
		if (mtbl_writer_add(w, k, lk, v, lv) != mtbl_res_success) { r = mtbl_res_failure; break; }
	mtbl_iter_destroy(&it);
	return r;
}

/* reader */
struct ent { uint8_t *k, *v; size_t lk, lv; };
struct mtbl_metadata { uint64_t n; };
struct mtbl_reader { struct ent *e; size_t n, cap; unsigned ref; struct mtbl_source *src; struct mtbl_metadata md; };
enum how { ALL, GET, PREFIX, RANGE };
struct reader_iter { struct mtbl_reader *r; size_t pos; enum how how; uint8_t *k; size_t lk; uint8_t *ok, *ov; };

static size_t
lower_bound(struct mtbl_reader *r, const uint8_t *k, size_t lk)
{
	size_t lo = 0, hi = r->n;
	while (lo < hi) {
		size_t m = (lo + hi) / 2;
		if (cmp_bytes(r->e[m].k, r->e[m].lk, k, lk) < 0) lo = m + 1; else hi = m;
	}
	return lo;
}
static void ri_drop(struct reader_iter *it) { free(it->ok); free(it->ov); it->ok = it->ov = NULL; }
static mtbl_res ri_seek(void *c, const uint8_t *k, size_t lk)
{
	struct reader_iter *it = c;
	size_t pos = lower_bound(it->r, k, lk);
	ri_drop(it);
	it->pos = pos;
	return pos < it->r->n ? mtbl_res_success : mtbl_res_failure;
}
static mtbl_res ri_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	struct reader_iter *it = c;
	struct ent *e;
	ri_drop(it);
	if (shim_on_upstream_next) shim_on_upstream_next();
	if (it->pos >= it->r->n) return mtbl_res_failure;
	e = &it->r->e[it->pos];
	switch (it->how) {
	case ALL: break;
	case GET: if (cmp_bytes(e->k, e->lk, it->k, it->lk)) return mtbl_res_failure; break;
	case PREFIX: if (e->lk < it->lk || (it->lk && memcmp(e->k, it->k, it->lk))) return mtbl_res_failure; break;
	case RANGE: if (cmp_bytes(e->k, e->lk, it->k, it->lk) > 0) return mtbl_res_failure; break;
	}
	it->pos++;
	it->ok = xdup(e->k, e->lk); it->ov = xdup(e->v, e->lv);
	*k = it->ok; *lk = e->lk; *v = it->ov; *lv = e->lv;
	return mtbl_res_success;
}
static void reader_unref(struct mtbl_reader *r)
{
	if (--r->ref) return;
	for (size_t i = 0; i < r->n; i++) { free(r->e[i].k); free(r->e[i].v); }
	free(r->e);
	free(r->src);
	free(r);
}
static void ri_free(void *c) { struct reader_iter *it = c; ri_drop(it); free(it->k); reader_unref(it->r); free(it); }
static struct mtbl_iter *
ri_make(struct mtbl_reader *r, enum how how, const uint8_t *k, size_t lk, const uint8_t *k2, size_t lk2)
{
	size_t pos = how == ALL ? 0 : lower_bound(r, k, lk);
	if (pos >= r->n) return NULL;		/* as libmtbl: nothing at or after the key */
	struct reader_iter *it = xcalloc(1, sizeof *it);
	it->r = r; r->ref++;
	it->how = how; it->pos = pos;
	if (how == RANGE) { it->k = xdup(k2, lk2); it->lk = lk2; }
	else if (how != ALL) { it->k = xdup(k, lk); it->lk = lk; }
	return mtbl_iter_init(ri_seek, ri_next, ri_free, it);
}
static struct mtbl_iter *rs_iter(void *c) { return ri_make(c, ALL, NULL, 0, NULL, 0); }
static struct mtbl_iter *rs_get(void *c, const uint8_t *k, size_t n) { return ri_make(c, GET, k, n, NULL, 0); }
static struct mtbl_iter *rs_pfx(void *c, const uint8_t *k, size_t n) { return ri_make(c, PREFIX, k, n, NULL, 0); }
static struct mtbl_iter *rs_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { return ri_make(c, RANGE, k, n, k2, n2); }

struct mtbl_reader *shim_reader_new(void)
{
	struct mtbl_reader *r = xcalloc(1, sizeof *r);
	r->ref = 1;
	r->src = mtbl_source_init(rs_iter, rs_get, rs_pfx, rs_rng, NULL, r);
	return r;
}
/* keys may be added in any order; a repeated key is refused */
mtbl_res shim_reader_add(struct mtbl_reader *r, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv)
{
	size_t p = lower_bound(r, k, lk);
	if (p < r->n && cmp_bytes(r->e[p].k, r->e[p].lk, k, lk) == 0) return mtbl_res_failure;
	if (r->n == r->cap) { r->cap = r->cap ? 2 * r->cap : 16; r->e = xrealloc(r->e, r->cap * sizeof *r->e); }
	memmove(&r->e[p + 1], &r->e[p], (r->n - p) * sizeof *r->e);
	r->e[p].k = xdup(k, lk); r->e[p].lk = lk; r->e[p].v = xdup(v, lv); r->e[p].lv = lv;
	r->n++; r->md.n = r->n;
	return mtbl_res_success;
}

static const char SHIM_MAGIC[8] = { 'S','H','I','M','T','B','L','1' };
static uint8_t *slurp(const char *fn, size_t *n)
{
	FILE *f = fopen(fn, "rb"); uint8_t *b; size_t cap = 65536, len = 0, got; struct stat st;
	if (!f) return NULL;
	if (fstat(fileno(f), &st) || !S_ISREG(st.st_mode)) { fclose(f); return NULL; }
	b = xcalloc(1, cap);
	while ((got = fread(b + len, 1, cap - len, f)) > 0) { len += got; if (len == cap) b = xrealloc(b, cap *= 2); }
	fclose(f);
	*n = len;
	return b;
}
#ifdef SHIM_ZLIB
static uint8_t *mtbl_block(const uint8_t *p, size_t *n, int compression, size_t *used)
{
	uint64_t len; size_t l = mtbl_varint_decode64(p, &len);
	const uint8_t *d = p + l + 4; uint8_t *o; z_stream z; size_t cap = 1 << 20;
	*used = l + 4 + len;
	if (compression == MTBL_COMPRESSION_NONE) { *n = len; return xdup(d, len); }
	o = xcalloc(1, cap); memset(&z, 0, sizeof z);
	if (inflateInit(&z) != Z_OK) abort();
	z.next_in = (uint8_t *)d; z.avail_in = len; z.next_out = o; z.avail_out = cap;
	if (inflate(&z, Z_FINISH) != Z_STREAM_END) { fprintf(stderr, "shim: inflate failed\n"); abort(); }
	*n = z.total_out; inflateEnd(&z);
	return o;
}
static void mtbl_block_entries(struct mtbl_reader *r, const uint8_t *b, size_t n)
{
	uint32_t nr = mtbl_fixed_decode32(b + n - 4), sh, un, vl; size_t end = n - 4 - 4 * nr, p = 0, klen = 0;
	uint8_t key[70000];
	while (p < end) {
		p += mtbl_varint_decode32(b + p, &sh); p += mtbl_varint_decode32(b + p, &un); p += mtbl_varint_decode32(b + p, &vl);
		memcpy(key + sh, b + p, un); klen = sh + un; p += un;
		shim_reader_add(r, key, klen, b + p, vl); p += vl;
	}
}
static struct mtbl_reader *load_mtbl(const uint8_t *b, size_t n)
{
	const uint8_t *t = b + n - 512; struct mtbl_reader *r;
	uint64_t index = mtbl_fixed_decode64(t), comp = mtbl_fixed_decode64(t + 16), off = 0;
	if (mtbl_fixed_decode32(b + n - 4) != 0x4D54424C) return NULL;
	r = shim_reader_new();
	while (off < index) {
		size_t bn, used; uint8_t *blk = mtbl_block(b + off, &bn, comp, &used);
		mtbl_block_entries(r, blk, bn); free(blk); off += used;
	}
	return r;
}
#endif
struct mtbl_reader_options { int dummy; };
struct mtbl_reader *mtbl_reader_init(const char *fn, const struct mtbl_reader_options *o)
{
	size_t n = 0, p = 8; uint8_t *b = slurp(fn, &n); struct mtbl_reader *r = NULL;
	(void)o;
	if (!b) return NULL;
	if (n >= 8 && memcmp(b, SHIM_MAGIC, 8) == 0) {
		r = shim_reader_new();
		while (p + 8 <= n) {
			uint32_t lk = mtbl_fixed_decode32(b + p), lv = mtbl_fixed_decode32(b + p + 4);
			p += 8;
			if (p + lk + lv > n) break;
			shim_reader_add(r, b + p, lk, b + p + lk, lv);
			p += (size_t)lk + lv;
		}
	}
#ifdef SHIM_ZLIB
	else if (n > 512) r = load_mtbl(b, n);
#endif
	free(b);
	return r;
}
struct mtbl_reader *mtbl_reader_init_fd(int fd, const struct mtbl_reader_options *o)
{ char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd); return mtbl_reader_init(p, o); }
void mtbl_reader_destroy(struct mtbl_reader **r) { if (*r) { reader_unref(*r); *r = NULL; } }
const struct mtbl_source *mtbl_reader_source(struct mtbl_reader *r) { return r->src; }
const struct mtbl_metadata *mtbl_reader_metadata(struct mtbl_reader *r) { return &r->md; }
uint64_t mtbl_metadata_count_entries(const struct mtbl_metadata *m) { return m->n; }
struct mtbl_reader_options *mtbl_reader_options_init(void) { return xcalloc(1, sizeof(struct mtbl_reader_options)); }
void mtbl_reader_options_destroy(struct mtbl_reader_options **o) { free(*o); *o = NULL; }
void mtbl_reader_options_set_verify_checksums(struct mtbl_reader_options *o, bool b) { (void)o; (void)b; }
void mtbl_reader_options_set_madvise_random(struct mtbl_reader_options *o, bool b) { (void)o; (void)b; }

/* writer */
struct mtbl_writer { FILE *f; uint8_t *last; size_t llast; bool any; };
struct mtbl_writer_options { int dummy; };
struct mtbl_writer *mtbl_writer_init(const char *fn, const struct mtbl_writer_options *o)
{
	FILE *f = fopen(fn, "wbx"); struct mtbl_writer *w;
	(void)o;
	if (!f) return NULL;
	w = xcalloc(1, sizeof *w); w->f = f; fwrite(SHIM_MAGIC, 1, 8, f);
	return w;
}
void mtbl_writer_destroy(struct mtbl_writer **w) { if (*w) { fclose((*w)->f); free((*w)->last); free(*w); *w = NULL; } }
mtbl_res mtbl_writer_add(struct mtbl_writer *w, const uint8_t *k, size_t lk, const uint8_t *v, size_t lv)
{
	uint8_t h[8];
	if (w->any && cmp_bytes(k, lk, w->last, w->llast) <= 0) return mtbl_res_failure;
	free(w->last); w->last = xdup(k, lk); w->llast = lk; w->any = true;
	mtbl_fixed_encode32(h, lk); mtbl_fixed_encode32(h + 4, lv);
	fwrite(h, 1, 8, w->f); fwrite(k, 1, lk, w->f); fwrite(v, 1, lv, w->f);
	return mtbl_res_success;
}
struct mtbl_writer_options *mtbl_writer_options_init(void) { return xcalloc(1, sizeof(struct mtbl_writer_options)); }
void mtbl_writer_options_destroy(struct mtbl_writer_options **o) { free(*o); *o = NULL; }
void mtbl_writer_options_set_compression(struct mtbl_writer_options *o, mtbl_compression_type t) { (void)o; (void)t; }

/* merger */
struct mtbl_merger_options { mtbl_merge_func mf; void *mc; mtbl_dupsort_func df; void *dc; };
struct mtbl_merger { struct mtbl_merger_options o; const struct mtbl_source **s; size_t n; struct mtbl_source *src; };
struct mentry { struct mtbl_iter *it; bool ok; const uint8_t *k, *v; size_t lk, lv; };
struct miter { struct mtbl_merger_options o; struct mentry *e; size_t n; bool started; uint8_t *ok, *ov; size_t lok, lov; };

static void me_fill(struct mentry *e)
{ e->ok = mtbl_iter_next(e->it, &e->k, &e->lk, &e->v, &e->lv) == mtbl_res_success; }
static void mi_drop(struct miter *m) { free(m->ok); free(m->ov); m->ok = m->ov = NULL; }
static void mi_start(struct miter *m)
{
	if (m->started) return;
	m->started = true;
	for (size_t i = 0; i < m->n; i++) me_fill(&m->e[i]);
}
static mtbl_res mi_seek(void *c, const uint8_t *k, size_t lk)
{
	struct miter *m = c; bool any = false;
	mi_drop(m);
	m->started = true;
	for (size_t i = 0; i < m->n; i++) {
		struct mentry *e = &m->e[i];
		e->ok = false;
		if (mtbl_iter_seek(e->it, k, lk) == mtbl_res_success) me_fill(e);
		any = any || e->ok;
	}
	return any ? mtbl_res_success : mtbl_res_failure;
}
static mtbl_res mi_next(void *c, const uint8_t **k, size_t *lk, const uint8_t **v, size_t *lv)
{
	struct miter *m = c; struct mentry *best = NULL; size_t i, base;
	mi_drop(m);
	mi_start(m);
	base = m->n ? shim_merge_order % m->n : 0;
	for (i = 0; i < m->n; i++) {
		struct mentry *e = &m->e[(base + i) % m->n]; int r;
		if (!e->ok) continue;
		if (!best) { best = e; continue; }
		r = cmp_bytes(e->k, e->lk, best->k, best->lk);
		if (r == 0 && m->o.df) {	/* either argument first */
			if (shim_merge_order & 1) {
				r = m->o.df(m->o.dc, e->k, e->lk, best->v, best->lv, e->v, e->lv);
				r = r > 0 ? -1 : r < 0;
			} else
				r = m->o.df(m->o.dc, e->k, e->lk, e->v, e->lv, best->v, best->lv);
		}
		if (r < 0) best = e;
	}
	if (!best) return mtbl_res_failure;
	m->ok = xdup(best->k, best->lk); m->lok = best->lk;
	m->ov = xdup(best->v, best->lv); m->lov = best->lv;
	me_fill(best);
	if (m->o.mf) {
		/* fold every other entry under this key, in a rotating order and with
		 * either argument first, as libmtbl promises no particular order */
		for (i = 0; i < m->n; i++) {
			struct mentry *e = &m->e[(base + i) % m->n];
			while (e->ok && cmp_bytes(e->k, e->lk, m->ok, m->lok) == 0) {
				uint8_t *mv = NULL; size_t lmv = 0;
				if ((shim_merge_order >> 4) & 1)
					m->o.mf(m->o.mc, m->ok, m->lok, e->v, e->lv, m->ov, m->lov, &mv, &lmv);
				else
					m->o.mf(m->o.mc, m->ok, m->lok, m->ov, m->lov, e->v, e->lv, &mv, &lmv);
				if (mv == NULL) return mtbl_res_failure;
				free(m->ov);
				m->ov = xdup(mv, lmv); m->lov = lmv; free(mv);
				me_fill(e);
			}
		}
	}
	*k = m->ok; *lk = m->lok; *v = m->ov; *lv = m->lov;
	return mtbl_res_success;
}
static void mi_free(void *c)
{
	struct miter *m = c;
	for (size_t i = 0; i < m->n; i++) mtbl_iter_destroy(&m->e[i].it);
	mi_drop(m); free(m->e); free(m);
}
static struct mtbl_iter *
mi_make(struct mtbl_merger_options *o, const struct mtbl_source **s, size_t n, enum how how,
	const uint8_t *k, size_t lk, const uint8_t *k2, size_t lk2)
{
	struct miter *m = xcalloc(1, sizeof *m);
	m->o = *o; m->e = xcalloc(n, sizeof *m->e);
	for (size_t i = 0; i < n; i++) {
		struct mtbl_iter *it = NULL;
		switch (how) {
		case ALL: it = mtbl_source_iter(s[i]); break;
		case GET: it = mtbl_source_get(s[i], k, lk); break;
		case PREFIX: it = mtbl_source_get_prefix(s[i], k, lk); break;
		case RANGE: it = mtbl_source_get_range(s[i], k, lk, k2, lk2); break;
		}
		if (it) m->e[m->n++].it = it;
	}
	return mtbl_iter_init(mi_seek, mi_next, mi_free, m);
}
static struct mtbl_iter *ms_iter(void *c) { struct mtbl_merger *m = c; return mi_make(&m->o, m->s, m->n, ALL, NULL, 0, NULL, 0); }
static struct mtbl_iter *ms_get(void *c, const uint8_t *k, size_t n) { struct mtbl_merger *m = c; return mi_make(&m->o, m->s, m->n, GET, k, n, NULL, 0); }
static struct mtbl_iter *ms_pfx(void *c, const uint8_t *k, size_t n) { struct mtbl_merger *m = c; return mi_make(&m->o, m->s, m->n, PREFIX, k, n, NULL, 0); }
static struct mtbl_iter *ms_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { struct mtbl_merger *m = c; return mi_make(&m->o, m->s, m->n, RANGE, k, n, k2, n2); }
struct mtbl_merger *mtbl_merger_init(const struct mtbl_merger_options *o)
{
	struct mtbl_merger *m = xcalloc(1, sizeof *m);
	if (o) m->o = *o;
	m->src = mtbl_source_init(ms_iter, ms_get, ms_pfx, ms_rng, NULL, m);
	return m;
}
void mtbl_merger_destroy(struct mtbl_merger **m) { if (*m) { mtbl_source_destroy(&(*m)->src); free((*m)->s); free(*m); *m = NULL; } }
void mtbl_merger_add_source(struct mtbl_merger *m, const struct mtbl_source *s)
{ m->s = xrealloc(m->s, (m->n + 1) * sizeof *m->s); m->s[m->n++] = s; }
const struct mtbl_source *mtbl_merger_source(struct mtbl_merger *m) { return m->src; }
struct mtbl_merger_options *mtbl_merger_options_init(void) { return xcalloc(1, sizeof(struct mtbl_merger_options)); }
void mtbl_merger_options_destroy(struct mtbl_merger_options **o) { free(*o); *o = NULL; }
void mtbl_merger_options_set_merge_func(struct mtbl_merger_options *o, mtbl_merge_func f, void *c) { o->mf = f; o->mc = c; }
void mtbl_merger_options_set_dupsort_func(struct mtbl_merger_options *o, mtbl_dupsort_func f, void *c) { o->df = f; o->dc = c; }

/* fileset: the loaded files are shared between duplicates */
struct fsfile { char *name; struct mtbl_reader *r; };
struct fsshared { unsigned ref, gen; char *setfile; struct fsfile *f; size_t n; struct mtbl_reader **grave; size_t ngrave; };
struct mtbl_fileset_options { struct mtbl_merger_options m; mtbl_reader_filter_func rf; void *rc; mtbl_filename_filter_func ff; void *fc; uint32_t interval; };
struct mtbl_fileset { struct mtbl_fileset_options o; struct fsshared *sh; struct mtbl_source *src; const struct mtbl_source **s; size_t n; unsigned gen; bool pinned; };

static void fs_load(struct fsshared *sh)
{
	FILE *f = fopen(sh->setfile, "r"); char line[4096]; struct fsfile *nf = NULL; size_t n = 0;
	char *dir = strdup(sh->setfile), *sl = strrchr(dir, '/');
	if (sl) *sl = 0;
	sh->gen++;
	while (f && fgets(line, sizeof line, f)) {
		char path[8192]; struct mtbl_reader *r = NULL; size_t l = strlen(line);
		while (l && (line[l-1] == '\n' || line[l-1] == '\r')) line[--l] = 0;
		if (!l) continue;
		if (line[0] == '/' || !sl) snprintf(path, sizeof path, "%s", line);
		else snprintf(path, sizeof path, "%s/%s", dir, line);
		for (size_t i = 0; i < sh->n; i++)
			if (sh->f[i].r && !strcmp(sh->f[i].name, path)) { r = sh->f[i].r; sh->f[i].r = NULL; }
		if (!r) r = mtbl_reader_init(path, NULL);
		if (!r) continue;
		nf = xrealloc(nf, (n + 1) * sizeof *nf);
		nf[n].name = strdup(path); nf[n++].r = r;
	}
	if (f) fclose(f);
	for (size_t i = 0; i < sh->n; i++) {
		if (sh->f[i].r) {	/* dropped files stay open until the fileset is gone: iterators may use them */
			sh->grave = xrealloc(sh->grave, (sh->ngrave + 1) * sizeof *sh->grave);
			sh->grave[sh->ngrave++] = sh->f[i].r;
		}
		free(sh->f[i].name);
	}
	free(sh->f); sh->f = nf; sh->n = n; free(dir);
}
static void fs_init_readers(struct mtbl_fileset *fs)
{
	if (fs->pinned || fs->gen == fs->sh->gen) return;	/* a duplicate keeps the files it started with */
	fs->gen = fs->sh->gen;
	free(fs->s); fs->s = NULL; fs->n = 0;
	for (size_t i = 0; i < fs->sh->n; i++) {
		struct fsfile *f = &fs->sh->f[i];
		if (fs->o.ff && !fs->o.ff(f->name, fs->o.fc)) continue;
		if (fs->o.rf && !fs->o.rf(f->r, fs->o.rc)) continue;
		fs->s = xrealloc(fs->s, (fs->n + 1) * sizeof *fs->s);
		fs->s[fs->n++] = mtbl_reader_source(f->r);
	}
}
static struct mtbl_iter *fs_make(struct mtbl_fileset *f, enum how how, const uint8_t *k, size_t lk, const uint8_t *k2, size_t lk2)
{ fs_init_readers(f); return mi_make(&f->o.m, f->s, f->n, how, k, lk, k2, lk2); }
static struct mtbl_iter *fss_iter(void *c) { return fs_make(c, ALL, NULL, 0, NULL, 0); }
static struct mtbl_iter *fss_get(void *c, const uint8_t *k, size_t n) { return fs_make(c, GET, k, n, NULL, 0); }
static struct mtbl_iter *fss_pfx(void *c, const uint8_t *k, size_t n) { return fs_make(c, PREFIX, k, n, NULL, 0); }
static struct mtbl_iter *fss_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { return fs_make(c, RANGE, k, n, k2, n2); }
static struct mtbl_fileset *fs_new(struct fsshared *sh, const struct mtbl_fileset_options *o)
{
	struct mtbl_fileset *f = xcalloc(1, sizeof *f);
	if (o) f->o = *o;
	f->sh = sh;
	f->src = mtbl_source_init(fss_iter, fss_get, fss_pfx, fss_rng, NULL, f);
	fs_init_readers(f);
	return f;
}
struct mtbl_fileset *mtbl_fileset_init(const char *fn, const struct mtbl_fileset_options *o)
{
	struct fsshared *sh = xcalloc(1, sizeof *sh);
	sh->ref = 1; sh->setfile = strdup(fn);
	fs_load(sh);
	return fs_new(sh, o);
}
struct mtbl_fileset *mtbl_fileset_dup(struct mtbl_fileset *f, const struct mtbl_fileset_options *o) { f->sh->ref++; f = fs_new(f->sh, o); f->pinned = true; return f; }
void mtbl_fileset_destroy(struct mtbl_fileset **pf)
{
	struct mtbl_fileset *f = *pf;
	if (!f) return;
	if (--f->sh->ref == 0) {
		for (size_t i = 0; i < f->sh->n; i++) { free(f->sh->f[i].name); reader_unref(f->sh->f[i].r); }
		for (size_t i = 0; i < f->sh->ngrave; i++) reader_unref(f->sh->grave[i]);
		free(f->sh->grave); free(f->sh->f); free(f->sh->setfile); free(f->sh);
	}
	mtbl_source_destroy(&f->src); free(f->s); free(f); *pf = NULL;
}
void mtbl_fileset_reload(struct mtbl_fileset *f) { (void)f; }
void mtbl_fileset_reload_now(struct mtbl_fileset *f) { fs_load(f->sh); }
const struct mtbl_source *mtbl_fileset_source(struct mtbl_fileset *f) { return f->src; }
struct mtbl_fileset_options *mtbl_fileset_options_init(void) { return xcalloc(1, sizeof(struct mtbl_fileset_options)); }
void mtbl_fileset_options_destroy(struct mtbl_fileset_options **o) { free(*o); *o = NULL; }
void mtbl_fileset_options_set_merge_func(struct mtbl_fileset_options *o, mtbl_merge_func f, void *c) { o->m.mf = f; o->m.mc = c; }
void mtbl_fileset_options_set_dupsort_func(struct mtbl_fileset_options *o, mtbl_dupsort_func f, void *c) { o->m.df = f; o->m.dc = c; }
void mtbl_fileset_options_set_filename_filter_func(struct mtbl_fileset_options *o, mtbl_filename_filter_func f, void *c) { o->ff = f; o->fc = c; }
void mtbl_fileset_options_set_reader_filter_func(struct mtbl_fileset_options *o, mtbl_reader_filter_func f, void *c) { o->rf = f; o->rc = c; }
void mtbl_fileset_options_set_reload_interval(struct mtbl_fileset_options *o, uint32_t i) { o->interval = i; }
void mtbl_fileset_options_set_reader_options(struct mtbl_fileset_options *o, struct mtbl_reader_options *r) { (void)o; (void)r; }
