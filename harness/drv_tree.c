/* Tree driver: rb|splay K op... ;  explore rb|splay K MAXSTATES
 * ops (keys 1..K): iK insert, rK remove, fK find, gK first at or after, nK next, pK previous, m least, M greatest, S traverse (splay) */
#include "drv.h"
#include "libmy/tree.h"
#ifndef __unused
#define __unused __attribute__((unused))
#endif
struct rn { int key, in; RB_ENTRY(rn) e; };
struct sn { int key, in; SPLAY_ENTRY(sn) e; };
static int rcmp(struct rn *a, struct rn *b) { return a->key < b->key ? -7 : a->key > b->key ? 1000 : 0; }
static int scmp(struct sn *a, struct sn *b) { return a->key < b->key ? -7 : a->key > b->key ? 1000 : 0; }
RB_HEAD(rt, rn); SPLAY_HEAD(spt, sn);
RB_PROTOTYPE_STATIC(rt, rn, e, rcmp)
RB_GENERATE_STATIC(rt, rn, e, rcmp)
SPLAY_PROTOTYPE(spt, sn, e, scmp)
SPLAY_GENERATE(spt, sn, e, scmp)
#define KM 2000
static struct rn *RN[KM], *RX; static struct sn *SNn[KM], *SX; static struct rt RT; static struct spt ST; static int K, RB;
static struct rn *fresh(int k) { struct rn *x = malloc(sizeof *x); memset(x, 0xa5, sizeof *x); x->key = k; return x; }
static struct sn *sfresh(int k) { struct sn *x = malloc(sizeof *x); memset(x, 0xa5, sizeof *x); x->key = k; return x; }
/* the element itself, or something that only looks like it */
static int id(struct rn *x) { return !x ? 0 : x == RN[x->key] ? x->key : 5000 + x->key; }
static int sid(struct sn *x) { return !x ? 0 : x == SNn[x->key] ? x->key : 5000 + x->key; }
static int doop(char o, int k)
{
	int r = 0;
	if (RB) {
		struct rn *x = fresh(k), *y;
		switch (o) {
		case 'i': y = RB_INSERT(rt, &RT, x); r = id(y); if (!y) { RN[k] = x; x = NULL; } break;
		case 'r': if (RN[k]) { y = RB_REMOVE(rt, &RT, RN[k]); r = id(y); free(RN[k]); RN[k] = NULL; } break;
		case 'f': r = id(RB_FIND(rt, &RT, x)); break;
		case 'g': r = id(RB_NFIND(rt, &RT, x)); break;
		case 'n': if (RN[k]) r = id(RB_NEXT(rt, &RT, RN[k])); break;
		case 'p': if (RN[k]) r = id(RB_PREV(rt, &RT, RN[k])); break;
		case 'm': r = id(RB_MIN(rt, &RT)); break;
		case 'M': r = id(RB_MAX(rt, &RT)); break;
		}
		free(x);
	} else {
		struct sn *x = sfresh(k), *y;
		switch (o) {
		case 'i': y = SPLAY_INSERT(spt, &ST, x); r = sid(y); if (!y) { SNn[k] = x; x = NULL; } break;
		case 'r': if (SNn[k]) { y = SPLAY_REMOVE(spt, &ST, SNn[k]); r = sid(y); free(SNn[k]); SNn[k] = NULL; } else r = SPLAY_REMOVE(spt, &ST, x) != NULL; break;
		case 'f': r = sid(SPLAY_FIND(spt, &ST, x)); break;
		case 'n': if (SNn[k]) r = sid(SPLAY_NEXT(spt, &ST, SNn[k])); break;
		case 'm': r = sid(SPLAY_MIN(spt, &ST)); break;
		case 'M': r = sid(SPLAY_MAX(spt, &ST)); break;
		}
		free(x);
	}
	return r;
}
static int NB; static char SIG[KM * 24];
static void rwalk(struct rn *x) { if (!x) return; rwalk(RB_LEFT(x, e)); out(NB++ ? ",[%d,%d,%d,%d,%d]" : "[%d,%d,%d,%d,%d]", id(x), id(RB_LEFT(x, e)), id(RB_RIGHT(x, e)), id(RB_PARENT(x, e)), RB_COLOR(x, e)); rwalk(RB_RIGHT(x, e)); }
static void swalk(struct sn *x) { if (!x) return; swalk(SPLAY_LEFT(x, e)); out(NB++ ? ",[%d,%d,%d,0,0]" : "[%d,%d,%d,0,0]", sid(x), sid(SPLAY_LEFT(x, e)), sid(SPLAY_RIGHT(x, e))); swalk(SPLAY_RIGHT(x, e)); }
static void snap(const char *o, int k, int r, int all)
{
	key(NULL); out("[\"%s\",%d,%d,%d,[", o, k, r, RB ? id(RB_ROOT(&RT)) : sid(SPLAY_ROOT(&ST)));
	NB = 0; if (RB) rwalk(RB_ROOT(&RT)); else swalk(SPLAY_ROOT(&ST));
	out("],["); NB = 0;
	if (RB) { struct rn *x; RB_FOREACH(x, rt, &RT) { out(NB++ ? ",%d" : "%d", id(x)); if (NB > KM) break; } }
	else if (all) { struct sn *x; SPLAY_FOREACH(x, spt, &ST) { out(NB++ ? ",%d" : "%d", sid(x)); if (NB > KM) break; } }
	out("],["); NB = 0;
	if (RB) { struct rn *x; RB_FOREACH_REVERSE(x, rt, &RT) { out(NB++ ? ",%d" : "%d", id(x)); if (NB > KM) break; } }
	out("],%d]", all);
}
static char *rsig(char *p, struct rn *x) { if (!x) { *p++ = '.'; return p; } p += sprintf(p, "%d%c", x->key, RB_COLOR(x, e) ? 'r' : 'b'); p = rsig(p, RB_LEFT(x, e)); return rsig(p, RB_RIGHT(x, e)); }
static char *ssig(char *p, struct sn *x) { if (!x) { *p++ = '.'; return p; } p += sprintf(p, "%d,", x->key); p = ssig(p, SPLAY_LEFT(x, e)); return ssig(p, SPLAY_RIGHT(x, e)); }
static char *sig(void) { *(RB ? rsig(SIG, RB_ROOT(&RT)) : ssig(SIG, SPLAY_ROOT(&ST))) = 0; return SIG; }
static void clear(void) { for (int i = 0; i < KM; i++) { free(RN[i]); RN[i] = NULL; free(SNn[i]); SNn[i] = NULL; } RB_INIT(&RT); SPLAY_INIT(&ST); }
struct state { char *sig; short *path; int n; };
static void request(void)
{
	alarm(120);
	int ex = !strcmp(TOK[0], "explore"); RB = !strcmp(TOK[ex], "rb"); K = atoi(TOK[ex + 1]);
	clear();
	if (!ex) {
		jint("empty", RB ? RB_EMPTY(&RT) : SPLAY_EMPTY(&ST));
		jopen("ev", "[");
		for (int i = 2; i < NTOK; i++) { char o[2] = { TOK[i][0], 0 }; int k = atoi(TOK[i] + 1), r = doop(*o, k); snap(o, k, r, *o == 'S'); }
		jclose("]"); clear(); return;
	}
	/* breadth first over the shapes the operations reach */
	int max = atoi(TOK[3]), ns = 1; struct state *S = calloc(max + 1, sizeof *S);
	S[0].sig = strdup(sig()); S[0].path = NULL;
	jopen("hs", "[");
	const char *ops = RB ? "irfgnpmM" : "irfnmM";
	for (int s = 0; s < ns; s++) {
		for (const char *o = ops; *o; o++) for (int k = 1; k <= K; k++) {
			if ((*o == 'm' || *o == 'M') && k > 1) continue;
			clear(); for (int i = 0; i < S[s].n; i++) doop(S[s].path[i] >> 8, S[s].path[i] & 255);
			if (strcmp(sig(), S[s].sig)) abort();
			if (strchr("np", *o) && !(RB ? (void *) RN[k] : (void *) SNn[k])) continue;
			if (*o == 'i' && k == 1) { jopen(NULL, "["); }
			if (*o == 'i' && k == 1) { snap("=", 0, 0, 0); }
			char os[2] = { *o, 0 }; int r = doop(*o, k); snap(os, k, r, 0);
			/* each later operation starts again from the shape S[s] */
			char *g = sig(); int q; for (q = 0; q < ns; q++) if (!strcmp(S[q].sig, g)) break;
			if (q == ns && ns < max) { S[ns].sig = strdup(g); S[ns].n = S[s].n + 1; S[ns].path = malloc(sizeof(short) * S[ns].n); memcpy(S[ns].path, S[s].path, sizeof(short) * S[s].n); S[ns].path[S[s].n] = *o << 8 | k; ns++; }
		}
		jclose("]");
	}
	jclose("]");
	jint("states", ns);
	for (int s = 0; s < ns; s++) { free(S[s].sig); free(S[s].path); } free(S);
	clear(); alarm(0);
}
