/* List driver: run NLISTS NELEMS op:arg:arg...
 * P:l:e prepend  A:l:e append  B:l:x:e e before x  F:l:x:e e after x  U:l:e unlink  T:l:e unlink (typed)
 * I:l:e init and append  J:l:e init and prepend  E:l:e enqueue  D:l:e dequeue  C:l:m append list m to l */
#include "drv.h"
#include "libmy/list.h"
struct el { char pad[3]; int id; ISC_LINK(struct el) lk; };
typedef ISC_LIST(struct el) L;
static void request(void)
{
	int nl = atoi(TOK[1]), ne = atoi(TOK[2]); alarm(60);
	L *l = malloc(nl * sizeof *l); struct el **e = malloc((ne + 1) * sizeof *e);
	for (int i = 0; i < nl; i++) ISC_LIST_INIT(l[i]);
	for (int i = 1; i <= ne; i++) { e[i] = malloc(sizeof **e); memset(e[i], 0xa5, sizeof **e); e[i]->id = i; if (i & 1) ISC_LINK_INIT(e[i], lk); else ISC_LINK_INIT_TYPE(e[i], lk, struct el); }
	jopen("ev", "[");
	for (int i = 3; i < NTOK; i++) {
		int a[4] = { 0 }, n = 0; char o[2] = { TOK[i][0], 0 };
		for (char *p = strchr(TOK[i], ':'); p; p = strchr(p + 1, ':')) a[n++] = atoi(p + 1);
		L *x = &l[a[0]];
		switch (*o) {
		case 'P': ISC_LIST_PREPEND(*x, e[a[1]], lk); break;
		case 'A': ISC_LIST_APPEND(*x, e[a[1]], lk); break;
		case 'B': ISC_LIST_INSERTBEFORE(*x, e[a[1]], e[a[2]], lk); break;
		case 'F': ISC_LIST_INSERTAFTER(*x, e[a[1]], e[a[2]], lk); break;
		case 'U': ISC_LIST_UNLINK(*x, e[a[1]], lk); break;
		case 'T': ISC_LIST_UNLINK_TYPE(*x, e[a[1]], lk, struct el); break;
		case 'I': ISC_LIST_INITANDAPPEND(*x, e[a[1]], lk); break;
		case 'J': ISC_LIST_INITANDPREPEND(*x, e[a[1]], lk); break;
		case 'E': ISC_LIST_ENQUEUE(*x, e[a[1]], lk); break;
		case 'D': ISC_LIST_DEQUEUE(*x, e[a[1]], lk); break;
		case 'C': ISC_LIST_APPENDLIST(l[a[0]], l[a[1]], lk); break;
		}
		key(NULL); out("[\"%s\",%d,%d,%d,[", o, a[0], a[1], a[2]);
		for (int k = 0; k < nl; k++) {
			struct el *p; int c = 0;
			out(k ? ",[%d,%d,%d,[" : "[%d,%d,%d,[", ISC_LIST_EMPTY(l[k]), ISC_LIST_HEAD(l[k]) ? ISC_LIST_HEAD(l[k])->id : 0, ISC_LIST_TAIL(l[k]) ? ISC_LIST_TAIL(l[k])->id : 0);
			for (p = ISC_LIST_HEAD(l[k]); p && c < 200; p = ISC_LIST_NEXT(p, lk)) out(c++ ? ",%d" : "%d", p->id);
			out("],["); c = 0;
			for (p = ISC_LIST_TAIL(l[k]); p && c < 200; p = ISC_LIST_PREV(p, lk)) out(c++ ? ",%d" : "%d", p->id);
			out("]]");
		}
		out("],["); for (int k = 1; k <= ne; k++) out(k > 1 ? ",%d" : "%d", ISC_LINK_LINKED(e[k], lk) ? 1 : 0);
		out("]]");
	}
	jclose("]");
	for (int i = 1; i <= ne; i++) free(e[i]); free(e); free(l); alarm(0);
}
