/* Heap driver: run CMP KEY,KEY,... op...
 * items are numbered from 1 and have the given keys; CMP: 0 by key, 1 reversed, 2 by key with large results.
 * ops: aN add, pN push, o pop, rN replace, mKEY give the least element another key and replace it by itself, k peek, h heapify, x reset, cN clip */
#include <limits.h>
#include "drv.h"
#include "libmy/heap.h"
struct item { int id, key; };
static int MODE;
static int cmp(const void *a, const void *b)
{
	const struct item *x = a, *y = b; int c = x->key < y->key ? -1 : x->key > y->key;
	if (MODE == 1) return -c;
	if (MODE == 2) return c < 0 ? INT_MIN : c > 0 ? INT_MAX : 0;
	return c;
}
static int idof(void *p) { return p ? ((struct item *) p)->id : 0; }
static void request(void)
{
	struct item *it[20000]; int n = 0; alarm(60);
	MODE = atoi(TOK[1]);
	for (char *p = strtok(TOK[2], ","); p; p = strtok(NULL, ",")) { it[n] = malloc(sizeof **it); it[n]->id = n + 1; it[n]->key = atoi(p); n++; }
	struct heap *h = heap_init(cmp);
	jopen("ev", "[");
	for (int i = 3; i < NTOK; i++) {
		int a = atoi(TOK[i] + 1), r = 0; char o[2] = { TOK[i][0], 0 };
		switch (*o) {
		case 'a': heap_add(h, it[a - 1]); break;
		case 'p': heap_push(h, it[a - 1]); break;
		case 'o': r = idof(heap_pop(h)); break;
		case 'r': r = idof(heap_replace(h, it[a - 1])); break;
		case 'm': { struct item *top = heap_peek(h); if (top) { top->key = a; r = idof(heap_replace(h, top)); } break; }
		case 'k': r = idof(heap_peek(h)); break;
		case 'h': heap_heapify(h); break;
		case 'x': heap_reset(h); break;
		case 'c': heap_clip(h, a); break;
		}
		size_t sz = heap_size(h);
		key(NULL); out("[\"%s\",%d,%d,%zu,[", o, a, r, sz);
		for (size_t k = 0; k < sz; k++) out(k ? ",%d" : "%d", idof(heap_get(h, k)));
		out("],%d]", idof(heap_get(h, sz)) + idof(heap_get(h, sz + 1)) + idof(heap_get(h, (size_t) -1)));
	}
	jclose("]");
	heap_destroy(&h); jint("gone", h == NULL); heap_destroy(&h);
	for (int i = 0; i < n; i++) free(it[i]);
	alarm(0);
}
