/* Queue driver.  The queue sources are compiled with -fsanitize=thread but linked
 * with the functions below instead of its run-time library, so that every
 * access to memory is a point at which the other thread may run.
 *   init IMPL N SZ
 *   seq IMPL N SZ op...               op: i<hex> insert, r remove; 0 = without asking for space/count
 *   explore IMPL N SZ PRE P C BOUND   all schedules with at most BOUND switches
 *   random IMPL N SZ PRE P C SEED RUNS
 * PRE elements are inserted and removed beforehand, and half a queue left in it when PRE is odd. */
#include <ucontext.h>
#include "drv.h"
#include "my_queue.h"
extern const struct my_queue_ops my_queue_mb_ops, my_queue_mutex_ops, my_queue_default_ops;
static const struct my_queue_ops *impl(const char *s) { return !strcmp(s, "mb") ? &my_queue_mb_ops : !strcmp(s, "mutex") ? &my_queue_mutex_ops : &my_queue_default_ops; }

/* ---- scheduler ---- */
static ucontext_t MAIN, CO[2]; static char STK[2][1 << 16]; static int CUR, RUNNING, DONE[2], BLOCKED[2];
static long STEP, NSW, SW[64], LASTSW, SINCE; static unsigned long RND; static int RANDOM, ABORTED;
static long SPIN;        /* steps since this thread last changed anything */
static void sw(void) { int me = CUR; CUR = !CUR; swapcontext(&CO[me], &CO[CUR]); }
static void let_other(void) { if (RUNNING && !DONE[!CUR] && !BLOCKED[!CUR]) { SPIN = SINCE = 0; sw(); } }
void yield_point(void)
{
	if (!RUNNING) return;
	STEP++; SINCE++;
	if (STEP > 200000) { fprintf(stderr, "no progress\n"); abort(); }
	if (DONE[!CUR] || BLOCKED[!CUR]) return;
	if (RANDOM) { RND = RND * 6364136223846793005UL + 1442695040888963407UL; if ((RND >> 40) % RANDOM == 0) sw(); return; }
	if (NSW < 64 && SW[NSW] == STEP) { NSW++; LASTSW = STEP; SINCE = 0; sw(); return; }
	if (SINCE > 500) { SINCE = 0; sw(); return; }
	if (++SPIN > 60) let_other();                   /* waiting for the other one */
}
#define Y(n) void n(void *a) { (void) a; if (strstr(#n, "write")) SPIN = 0; yield_point(); }
Y(__tsan_read1) Y(__tsan_read2) Y(__tsan_read4) Y(__tsan_read8) Y(__tsan_read16) Y(__tsan_write1) Y(__tsan_write2) Y(__tsan_write4) Y(__tsan_write8) Y(__tsan_write16)
Y(__tsan_unaligned_read2) Y(__tsan_unaligned_read4) Y(__tsan_unaligned_read8) Y(__tsan_unaligned_write2) Y(__tsan_unaligned_write4) Y(__tsan_unaligned_write8)
Y(__tsan_volatile_read1) Y(__tsan_volatile_read2) Y(__tsan_volatile_read4) Y(__tsan_volatile_read8) Y(__tsan_volatile_write1) Y(__tsan_volatile_write2) Y(__tsan_volatile_write4) Y(__tsan_volatile_write8)
Y(__tsan_func_entry)
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_read_range(void *a, unsigned long n) { yield_point(); }
void __tsan_write_range(void *a, unsigned long n) { SPIN = 0; yield_point(); }
void __tsan_atomic_thread_fence(int m) { yield_point(); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int m) { }
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *a, int m) { yield_point(); return *a; } \
 void __tsan_atomic##B##_store(volatile T *a, T v, int m) { SPIN = 0; yield_point(); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { yield_point(); T o = *a; if (o != v) SPIN = 0; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { yield_point(); T o = *a; *a += v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { yield_point(); T o = *a; *a -= v; return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { yield_point(); if (*a == *c) { SPIN = 0; *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { yield_point(); if (*a == *c) { SPIN = 0; *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { yield_point(); T o = *a; if (o == c) { SPIN = 0; *a = v; } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void *q_memcpy(void *d, const void *s, size_t n)
{
	uint8_t *a = d; const uint8_t *b = s;
	SPIN = 0; yield_point();
	for (size_t i = 0; i < n; i++) { a[i] = b[i]; if (i % 3 == 0) yield_point(); }
	yield_point();
	return d;
}
/* locks: whoever cannot go on lets the other thread run */
static struct { void *m; int owner; } HELD[8];
static int held(void *m) { for (int i = 0; i < 8; i++) if (HELD[i].m == m) return i; return -1; }
static void hold(void *m) { int i = held(NULL); if (i < 0) abort(); HELD[i].m = m; HELD[i].owner = CUR; SPIN = 0; }
int q_mutex_init(void *m, void *a) { return 0; }
int q_mutex_destroy(void *m) { return 0; }
int q_mutex_lock(void *m)
{
	int i;
	yield_point();
	while ((i = held(m)) >= 0) {
		if (!RUNNING || HELD[i].owner == CUR || DONE[!CUR] || BLOCKED[!CUR]) { fprintf(stderr, "deadlock\n"); abort(); }
		BLOCKED[CUR] = 1; sw(); BLOCKED[CUR] = 0;
	}
	hold(m);
	return 0;
}
int q_mutex_trylock(void *m) { yield_point(); if (held(m) >= 0) { let_other(); return EBUSY; } hold(m); return 0; }
int q_mutex_unlock(void *m) { int i = held(m); if (i >= 0) HELD[i].m = NULL; SPIN = 0; BLOCKED[0] = BLOCKED[1] = 0; yield_point(); return 0; }
int q_spin_init(volatile void *m, int shared) { return 0; }
int q_spin_destroy(volatile void *m) { return 0; }
int q_spin_lock(volatile void *m) { return q_mutex_lock((void *) m); }
int q_spin_trylock(volatile void *m) { return q_mutex_trylock((void *) m); }
int q_spin_unlock(volatile void *m) { return q_mutex_unlock((void *) m); }
int q_yield(void) { let_other(); return 0; }
int q_usleep(unsigned u) { let_other(); return 0; }
int q_nanosleep(const void *a, void *b) { let_other(); return 0; }

/* ---- one history ---- */
static const struct my_queue_ops *OPS; static struct my_queue *Q; static unsigned SZ; static int P, C, PRE, SEQ; static long VAL;
static char H[1 << 16]; static size_t Hn;
static void ev(const char *f, ...) { va_list a; SPIN = 0; va_start(a, f); if (Hn) H[Hn++] = ','; Hn += vsnprintf(H + Hn, sizeof H - Hn, f, a); va_end(a); if (Hn > sizeof H - 4096) abort(); }
static void pattern(uint8_t *b, long v) { for (unsigned i = 0; i < SZ; i++) b[i] = i == 0 ? v : v * 7 + i * 13; }
static long value(const uint8_t *b) { uint8_t w[4096]; pattern(w, b[0]); return memcmp(b, w, SZ) ? 999 : b[0]; }
static void ins(int ask)
{
	uint8_t *b = malloc(SZ); unsigned sp = 77777; long v = VAL; VAL = (VAL + 1) % 250; pattern(b, v);
	ev("[\"pc\",%ld,0]", v);
	yield_point();
	bool r = OPS->insert(Q, b, ask ? &sp : NULL);
	memset(b, 0xee, SZ);
	ev("[\"pr\",%d,%u]", r, ask ? sp : 99999);
	free(b);
	yield_point();
}
static void rem(int ask)
{
	uint8_t *b = malloc(SZ); unsigned n = 77777; memset(b, 0xdd, SZ);
	ev("[\"cc\",0,0]");
	yield_point();
	bool r = OPS->remove(Q, b, ask ? &n : NULL);
	ev("[\"cr\",%ld,%u]", r ? value(b) : -1, ask ? n : 99999);
	free(b);
	yield_point();
}
static void finish(void) { DONE[CUR] = 1; if (!DONE[!CUR]) { CUR = !CUR; setcontext(&CO[CUR]); } setcontext(&MAIN); }
static void prod(void) { for (int i = 0; i < P; i++) ins(1); finish(); }
static void cons(void) { for (int i = 0; i < C; i++) rem(1); finish(); }
static void once(unsigned n, int first)
{
	Hn = 0; VAL = 1; RUNNING = 0; STEP = NSW = SINCE = SPIN = 0; memset(HELD, 0, sizeof HELD);
	Q = OPS->init(n, SZ);
	for (int i = 0; i < PRE; i++) { ins(1); if (i || !(PRE & 1)) rem(1); }
	DONE[0] = DONE[1] = BLOCKED[0] = BLOCKED[1] = 0;
	for (int t = 0; t < 2; t++) {
		getcontext(&CO[t]); CO[t].uc_stack.ss_sp = STK[t]; CO[t].uc_stack.ss_size = sizeof STK[t]; CO[t].uc_link = &MAIN;
		makecontext(&CO[t], t ? cons : prod, 0);
	}
	CUR = first; RUNNING = 1; swapcontext(&MAIN, &CO[first]); RUNNING = 0;
	for (unsigned i = 0; i < n + 1; i++) rem(1);       /* drain */
	OPS->destroy(&Q);
	if (Q) abort();
}
#define HMAX 200003
static uint64_t HT[HMAX]; static long DISTINCT, RUNS;
static void keep(void)
{
	uint64_t h = 1469598103934665603UL; for (size_t i = 0; i < Hn; i++) h = (h ^ (uint8_t) H[i]) * 1099511628211UL;
	RUNS++;
	for (size_t i = h % HMAX; ; i = (i + 1) % HMAX) { if (HT[i] == h) return; if (HT[i] == 0) { HT[i] = h; break; } }
	DISTINCT++;
	if (DISTINCT > 1500) return;
	key(NULL); H[Hn] = 0; out("[%s]", H);
}
static void dfs(unsigned n, int first, int depth, int bound)
{
	for (int i = depth; i < 64; i++) SW[i] = 0;
	once(n, first); keep();
	if (depth == bound) return;
	long total = STEP, from = depth ? SW[depth - 1] : 0;
	for (long s = from + 1; s <= total; s++) { SW[depth] = s; dfs(n, first, depth + 1, bound); }
	SW[depth] = 0;
}
static void request(void)
{
	OPS = impl(TOK[1]); unsigned n = strtoul(TOK[2], 0, 0); SZ = strtoul(TOK[3], 0, 0);
	alarm(200);
	if (!strcmp(TOK[0], "init")) {
		struct my_queue *q = OPS->init(n, SZ); jint("made", q != NULL); key("type"); out("\"%s\"", OPS->impl_type()); OPS->destroy(&q); jint("gone", q == NULL);
		return;
	}
	jopen("hs", "[");
	if (!strcmp(TOK[0], "seq")) {
		Hn = 0; VAL = 1; RUNNING = 0; Q = OPS->init(n, SZ);
		for (int i = 4; i < NTOK; i++) { int ask = !strchr(TOK[i], '0'); if (TOK[i][0] == 'i') ins(ask); else rem(ask); }
		OPS->destroy(&Q); H[Hn] = 0; key(NULL); out("[%s]", H);
	} else {
		memset(HT, 0, sizeof HT); DISTINCT = RUNS = 0;
		PRE = atoi(TOK[4]); P = atoi(TOK[5]); C = atoi(TOK[6]);
		if (!strcmp(TOK[0], "explore")) { RANDOM = 0; for (int f = 0; f < 2; f++) dfs(n, f, 0, atoi(TOK[7])); }
		else for (int i = 0; i < atoi(TOK[8]); i++) { RND = atol(TOK[7]) * 7919 + i; for (int k = 0; k < 3; k++) RND = RND * 6364136223846793005UL + 1; RANDOM = 1 + i % 17; once(n, i & 1); keep(); }
		RANDOM = 0;
	}
	jclose("]");
	jint("runs", RUNS); jint("distinct", DISTINCT);
}
