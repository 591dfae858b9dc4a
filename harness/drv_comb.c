/* Combinator driver.
 *   comb TREE... op H [A [B]] m MOVE...     MOVE: n | s:<hexkey>
 * TREE in prefix form: T k=v,k=v... | F k:d[:to],... TREE | R n TREE(upstream) TREE... | J TREE(left) TREE(right) */
#include "drv.h"
#include <mtbl.h>
#include <wdns.h>
#include "dnstable-private.h"
struct mtbl_reader *shim_reader_new(void);
mtbl_res shim_reader_add(struct mtbl_reader *, const uint8_t *, size_t, const uint8_t *, size_t);

static long SEEN_RIGHT, SEEN_ALL; static int COUNTING;   /* successful seeks on the outermost combinator's side tables */
/* a source that counts what it is asked */
struct cs { const struct mtbl_source *s; };
static mtbl_res ci_seek(void *i, const uint8_t *k, size_t n) { mtbl_res r = mtbl_iter_seek(i, k, n); if (r == mtbl_res_success) { SEEN_ALL++; if (COUNTING) SEEN_RIGHT++; } return r; }
static mtbl_res ci_next(void *i, const uint8_t **k, size_t *kn, const uint8_t **v, size_t *vn) { return mtbl_iter_next(i, k, kn, v, vn); }
static void ci_free(void *i) { struct mtbl_iter *it = i; mtbl_iter_destroy(&it); }
static struct mtbl_iter *wrap(struct mtbl_iter *it) { return it ? mtbl_iter_init(ci_seek, ci_next, ci_free, it) : NULL; }
static struct mtbl_iter *c_iter(void *c) { return wrap(mtbl_source_iter(((struct cs *)c)->s)); }
static struct mtbl_iter *c_get(void *c, const uint8_t *k, size_t n) { return wrap(mtbl_source_get(((struct cs *)c)->s, k, n)); }
static struct mtbl_iter *c_pfx(void *c, const uint8_t *k, size_t n) { return wrap(mtbl_source_get_prefix(((struct cs *)c)->s, k, n)); }
static struct mtbl_iter *c_rng(void *c, const uint8_t *k, size_t n, const uint8_t *k2, size_t n2) { return wrap(mtbl_source_get_range(((struct cs *)c)->s, k, n, k2, n2)); }

struct rule { uint8_t *k, *to; size_t kn, ton; int d; };
struct filt { struct rule r[200]; int n; };
struct node { char kind; struct mtbl_reader *mr; struct filter_mtbl *f; struct remove_mtbl *rm; struct ljoin_mtbl *lj; struct filt *fl; const struct mtbl_source *src; };
static struct node N[200]; static int NN;

static mtbl_res ffn(void *u, struct mtbl_iter *si, const uint8_t *k, size_t kn, const uint8_t *v, size_t vn, bool *match)
{
	struct filt *f = u;
	for (int i = 0; i < f->n; i++) if (!bytes_compare(f->r[i].k, f->r[i].kn, k, kn)) {
		if (f->r[i].d == 2) return mtbl_res_failure;
		*match = false;
		if (f->r[i].d == 3) mtbl_iter_seek(si, f->r[i].to, f->r[i].ton);
		return mtbl_res_success;
	}
	*match = true;
	return mtbl_res_success;
}
static void mfn(void *c, const uint8_t *k, size_t kn, const uint8_t *a, size_t an, const uint8_t *b, size_t bn, uint8_t **m, size_t *mn)
{
	if (bn == 1 && b[0] == 78) { *m = NULL; *mn = 0; return; }
	*mn = an + 1 + bn; *m = malloc(*mn); memcpy(*m, a, an); (*m)[an] = 255; memcpy(*m + an + 1, b, bn);
}
static char *cut(char **p, const char *seps, char *sep) { char *s = *p; size_t n = strcspn(s, seps); *sep = s[n]; s[n] = 0; *p = s + n + (*sep ? 1 : 0); return s; }
static int tp;
static struct mtbl_source *counted(const struct mtbl_source *s) { struct cs *c = calloc(1, sizeof *c); c->s = s; return mtbl_source_init(c_iter, c_get, c_pfx, c_rng, free, c); }
static struct mtbl_source *CS[200]; static int NCS;
static int tree(void)
{
	int me = NN++; struct node *n = &N[me]; memset(n, 0, sizeof *n); n->kind = TOK[tp++][0]; char sep;
	if (n->kind == 'T') {
		n->mr = shim_reader_new();
		char *p = TOK[tp++];
		if (strcmp(p, "-")) while (*p) {
			size_t kn, vn; uint8_t *k = unhex(cut(&p, "=", &sep), &kn), *v = unhex(cut(&p, ",", &sep), &vn);
			shim_reader_add(n->mr, k, kn, v, vn); free(k); free(v);
		}
		n->src = mtbl_reader_source(n->mr);
	} else if (n->kind == 'F') {
		struct filt *f = n->fl = calloc(1, sizeof *f); char *p = TOK[tp++];
		if (strcmp(p, "-")) while (*p) {
			struct rule *r = &f->r[f->n++]; r->k = unhex(cut(&p, ":", &sep), &r->kn); r->d = atoi(cut(&p, ":", &sep)); r->to = unhex(cut(&p, ",", &sep), &r->ton);
		}
		int u = tree();
		n->f = filter_mtbl_init(N[u].src, ffn, f); n->src = filter_mtbl_source(n->f);
	} else if (n->kind == 'R') {
		int k = atoi(TOK[tp++]), late = k & 1; int u = tree();
		n->rm = remove_mtbl_init();
		if (!late) remove_mtbl_set_upstream(n->rm, N[u].src);
		for (int i = 0; i < k; i++) { int x = tree(); const struct mtbl_source *s = N[x].src; if (me == 0) s = CS[NCS++] = counted(s); remove_mtbl_add_source(n->rm, s); }
		if (late) remove_mtbl_set_upstream(n->rm, N[u].src);
		n->src = remove_mtbl_source(n->rm);
	} else {
		int l = tree(), r = tree(); const struct mtbl_source *s = N[r].src; if (me == 0) s = CS[NCS++] = counted(s);
		n->lj = ljoin_mtbl_init(N[l].src, s, mfn, NULL); n->src = ljoin_mtbl_source(n->lj);
	}
	return me;
}
static long counter(dnstable_stat_category c)
{
	uint64_t u = 12345; bool ex = false; struct node *n = &N[0]; dnstable_res r;
	if (n->f) r = filter_mtbl_get_counter(n->f, c, &ex, &u); else if (n->rm) r = remove_mtbl_get_counter(n->rm, c, &ex, &u); else r = ljoin_mtbl_get_counter(n->lj, c, &ex, &u);
	if (!ex) return -1;
	return r == dnstable_res_success ? (long) u : -2;
}
static void request(void)
{
	NN = 0; NCS = 0; tp = 1; SEEN_RIGHT = SEEN_ALL = 0; COUNTING = 0;
	tree(); tp++;
	char *h = TOK[tp++]; size_t an = 0, bn = 0; uint8_t *a = NULL, *b = NULL;
	if (strcmp(h, "iter")) a = unhex(TOK[tp++], &an);
	if (!strcmp(h, "range")) b = unhex(TOK[tp++], &bn);
	const struct mtbl_source *s = N[0].src;
	struct mtbl_iter *it = !strcmp(h, "iter") ? mtbl_source_iter(s) : !strcmp(h, "get") ? mtbl_source_get(s, a, an) :
		!strcmp(h, "prefix") ? mtbl_source_get_prefix(s, a, an) : mtbl_source_get_range(s, a, an, b, bn);
	free(a); free(b);     /* the caller's bounds are gone */
	tp++;
	jopen("ev", "[");
	for (; tp < NTOK; tp++) {
		jopen(NULL, "{");
		const uint8_t *k, *v; size_t kn, vn;
		if (TOK[tp][0] == 's') {
			uint8_t *x = unhex(TOK[tp] + 2, &kn);
			COUNTING = N[0].kind == 'R';
			mtbl_iter_seek(it, x, kn); COUNTING = 0;
			key("e"); out("\"s\""); jbytes("k", x, kn); free(x);
		} else {
			COUNTING = 1;
			mtbl_res r = mtbl_iter_next(it, &k, &kn, &v, &vn); COUNTING = 0;
			key("e"); out("\"n\"");
			jopen("out", "[");
			if (r == mtbl_res_success) { jopen(NULL, "{"); jbytes("k", k, kn); jbytes("v", v, vn); jclose("}"); }
			jclose("]");
		}
		jint("saw", SEEN_RIGHT);
		jopen("c", "{");
		jint("filtered", counter(DNSTABLE_STAT_CATEGORY_FILTERED)); jint("merged", counter(DNSTABLE_STAT_CATEGORY_MERGED));
		jint("seek", counter(DNSTABLE_STAT_CATEGORY_SEEK)); jint("files", counter(DNSTABLE_STAT_CATEGORY_FILES));
		jclose("}"); jclose("}");
	}
	jclose("]");
	mtbl_iter_destroy(&it);
	for (int i = 0; i < NN; i++) {
		filter_mtbl_destroy(&N[i].f); remove_mtbl_destroy(&N[i].rm); ljoin_mtbl_destroy(&N[i].lj);
		if (N[i].mr) mtbl_reader_destroy(&N[i].mr);
		if (N[i].fl) { for (int j = 0; j < N[i].fl->n; j++) { free(N[i].fl->r[j].k); free(N[i].fl->r[j].to); } free(N[i].fl); }
	}
	for (int i = 0; i < NCS; i++) mtbl_source_destroy(&CS[i]);
}
