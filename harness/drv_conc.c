/* Shared small objects.  Threads are real, but only the one that holds the baton runs, and it may hand it over
 * at every access to memory of the code under test (built with -fsanitize=thread, linked with the hooks below).
 *   seq KIND V op:arg...                        one thread; KIND a32 or a64, V and results as limbs
 *   explore KIND V BOUND thread thread...       every schedule with at most BOUND switches; thread = op:arg,op:arg...
 *   random KIND V SEED RUNS thread thread...
 *   rb NEED FD-SCRIPT...                        read_bytes: d<n> bytes, z end, e interrupted, x error */
#include <pthread.h>
#include <semaphore.h>
#include "drv.h"
#define MAXT 4
static int NT, CUR, RUNNING, DONE[MAXT], BLOCKED[MAXT]; static sem_t SEM[MAXT], MAINSEM;
static long STEP, NSW, SW[64], SWT[64], SINCE; static unsigned long RND; static int RANDOM;
static __thread int ME;
static int runnable(int t) { return !DONE[t] && !BLOCKED[t]; }
static void to(int t) { int me = ME; CUR = t; sem_post(&SEM[t]); while (sem_wait(&SEM[me])) ; }
static int other(int k) { for (int i = 1; i <= NT; i++) { int t = (ME + i) % NT; if (t != ME && runnable(t) && k-- <= 0) return t; } return -1; }
static long SPIN;        /* steps since the thread at work last changed anything */
static void let_other(void) { int t; if (RUNNING && (t = other(0)) >= 0) { SPIN = SINCE = 0; to(t); } }
static int nother(void) { int n = 0; for (int t = 0; t < NT; t++) n += t != ME && runnable(t); return n; }
void yield_point(void)
{
	if (!RUNNING) return;
	STEP++; SINCE++;
	if (STEP > 100000) { fprintf(stderr, "no progress\n"); abort(); }
	int n = nother(); if (!n) return;
	if (RANDOM) { RND = RND * 6364136223846793005UL + 1442695040888963407UL; if ((RND >> 40) % RANDOM == 0) to(other((RND >> 33) % n)); return; }
	if (NSW < 64 && SW[NSW] == STEP) { int t = other(SWT[NSW] % n); NSW++; SINCE = 0; to(t); return; }
	if (SINCE > 500) { SINCE = 0; to(other(0)); return; }
	if (++SPIN > 60) let_other();                   /* waiting for another one */
}
#define Y(n) void n(void *a) { (void) a; if (strstr(#n, "write")) SPIN = 0; yield_point(); }
Y(__tsan_read1) Y(__tsan_read2) Y(__tsan_read4) Y(__tsan_read8) Y(__tsan_read16) Y(__tsan_write1) Y(__tsan_write2) Y(__tsan_write4) Y(__tsan_write8) Y(__tsan_write16)
Y(__tsan_unaligned_read2) Y(__tsan_unaligned_read4) Y(__tsan_unaligned_read8) Y(__tsan_unaligned_write2) Y(__tsan_unaligned_write4) Y(__tsan_unaligned_write8)
Y(__tsan_volatile_read1) Y(__tsan_volatile_read2) Y(__tsan_volatile_read4) Y(__tsan_volatile_read8) Y(__tsan_volatile_write1) Y(__tsan_volatile_write2) Y(__tsan_volatile_write4) Y(__tsan_volatile_write8)
Y(__tsan_func_entry)
void __tsan_func_exit(void) { }
void __tsan_init(void) { }
void __tsan_read_range(void *a, unsigned long n) { yield_point(); }
void __tsan_write_range(void *a, unsigned long n) { SPIN = 0; yield_point(); }
void __tsan_atomic_thread_fence(int m) { yield_point(); __sync_synchronize(); }
void __tsan_atomic_signal_fence(int m) { }
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *a, int m) { yield_point(); return *a; } \
 void __tsan_atomic##B##_store(volatile T *a, T v, int m) { SPIN = 0; yield_point(); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int m) { yield_point(); T o = *a; if (o != v) SPIN = 0; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int m) { yield_point(); T o = *a; *a += v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int m) { yield_point(); T o = *a; *a -= v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int m) { yield_point(); T o = *a; *a &= v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int m) { yield_point(); T o = *a; *a |= v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int m) { yield_point(); T o = *a; *a ^= v; return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { yield_point(); if (*a == *c) { SPIN = 0; *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { yield_point(); if (*a == *c) { SPIN = 0; *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { yield_point(); T o = *a; if (o == c) { SPIN = 0; *a = v; } return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
/* locks: whoever cannot go on lets another thread run */
static struct { void *m; int owner; } HELD[8];
static int held(void *m) { for (int i = 0; i < 8; i++) if (HELD[i].m == m) return i; return -1; }
static void hold(void *m) { int i = held(NULL); if (i < 0) abort(); HELD[i].m = m; HELD[i].owner = ME; SPIN = 0; }
int q_mutex_init(void *m, void *a) { return 0; }
int q_mutex_destroy(void *m) { return 0; }
int q_mutex_lock(void *m)
{
	int i;
	yield_point();
	while ((i = held(m)) >= 0) {
		int t = RUNNING ? (BLOCKED[ME] = 1, other(0)) : -1;
		if (t < 0 || HELD[i].owner == ME) { fprintf(stderr, "deadlock\n"); abort(); }
		to(t); BLOCKED[ME] = 0;
	}
	hold(m);
	return 0;
}
int q_mutex_trylock(void *m) { yield_point(); if (held(m) >= 0) { let_other(); return EBUSY; } hold(m); return 0; }
int q_mutex_unlock(void *m) { int i = held(m); if (i >= 0) HELD[i].m = NULL; SPIN = 0; memset(BLOCKED, 0, sizeof BLOCKED); yield_point(); return 0; }
int q_spin_init(volatile void *m, int shared) { return 0; }
int q_spin_destroy(volatile void *m) { return 0; }
int q_spin_lock(volatile void *m) { return q_mutex_lock((void *) m); }
int q_spin_trylock(volatile void *m) { return q_mutex_trylock((void *) m); }
int q_spin_unlock(volatile void *m) { return q_mutex_unlock((void *) m); }
int q_once(pthread_once_t *o, void (*f)(void)) { while (1) { yield_point(); if (*o == 2) return 0; if (*o == 0) { *o = 1; f(); *o = 2; return 0; } let_other(); } }
int q_yield(void) { let_other(); return 0; }
int q_usleep(unsigned u) { let_other(); return 0; }
int q_nanosleep(const void *a, void *b) { let_other(); return 0; }

int64_t do32(const char *, int), do64(const char *, int), dop(const char *, int), dot(const char *, int), get32(void), get64(void);
void set32(int), set64(int64_t), setp(int);
static int64_t (*DO)(const char *, int); static long V0; static const char *KIND;
static struct { char op[8]; int arg; } OPS[MAXT][64]; static int NOPS[MAXT];
static char H[1 << 16]; static size_t Hn;
static void ev(const char *f, ...) { va_list a; va_start(a, f); if (Hn) H[Hn++] = ','; Hn += vsnprintf(H + Hn, sizeof H - Hn, f, a); va_end(a); if (Hn > sizeof H - 4096) abort(); }
static void *worker(void *p)
{
	ME = (int) (intptr_t) p; while (sem_wait(&SEM[ME])) ;
	int64_t mine = -1;
	for (int i = 0; i < NOPS[ME]; i++) {
		ev("[\"c\",%d,\"%s\",%d]", ME + 1, OPS[ME][i].op, OPS[ME][i].arg);
		yield_point();
		int64_t r = DO(OPS[ME][i].op, OPS[ME][i].arg);
		ev("[\"r\",%d,\"\",%lld]", ME + 1, (long long) r); mine = r;
		yield_point();
	}
	if (DO == dot && NOPS[ME]) ev("[\"m\",%d,\"\",%d]", ME + 1, mine == dot("mine", 0));
	DONE[ME] = 1;
	int t = other(0); if (t >= 0) { CUR = t; sem_post(&SEM[t]); } else sem_post(&MAINSEM);
	return NULL;
}
static int BASE;
static void *base(void *p) { ME = 0; BASE = dot("reg", 0) + 1; return NULL; }
static void once(int first)
{
	pthread_t th[MAXT];
	Hn = 0; RUNNING = 0; STEP = NSW = SINCE = SPIN = 0; memset(HELD, 0, sizeof HELD);
	set32(V0); set64(V0); setp(V0); BASE = V0;
	if (DO == dot) { pthread_create(&th[0], NULL, base, NULL); pthread_join(th[0], NULL); }
	for (int t = 0; t < NT; t++) { DONE[t] = BLOCKED[t] = 0; sem_init(&SEM[t], 0, 0); }
	sem_init(&MAINSEM, 0, 0);
	for (int t = 0; t < NT; t++) pthread_create(&th[t], NULL, worker, (void *) (intptr_t) t);
	RUNNING = 1; CUR = first; sem_post(&SEM[first]);
	while (sem_wait(&MAINSEM)) ;
	RUNNING = 0;
	for (int t = 0; t < NT; t++) pthread_join(th[t], NULL);
	if (DO != dot) { ev("[\"c\",1,\"read\",0]"); ev("[\"r\",1,\"\",%lld]", (long long) DO("read", 0)); }
}
#define HMAX 200003
static uint64_t HT[HMAX]; static long DISTINCT, RUNS;
static void keep(void)
{
	uint64_t h = 1469598103934665603UL;
	/* thread numbers grow with every run: histories are the same when they agree relative to the base */
	if (DO == dot) { char *p = H; char z[1 << 16]; size_t n = 0; H[Hn] = 0; while (*p) { if (!strncmp(p, "[\"r\",", 5)) { int t; long v; sscanf(p, "[\"r\",%d,\"\",%ld", &t, &v); n += sprintf(z + n, "[\"r\",%d,\"\",%ld]", t, v - BASE); p = strchr(p, ']') + 1; } else z[n++] = *p++; } z[n] = 0; memcpy(H, z, n + 1); Hn = n; }
	for (size_t i = 0; i < Hn; i++) h = (h ^ (uint8_t) H[i]) * 1099511628211UL;
	RUNS++;
	for (size_t i = h % HMAX; ; i = (i + 1) % HMAX) { if (HT[i] == h) return; if (HT[i] == 0) { HT[i] = h; break; } }
	if (++DISTINCT > 1500) return;
	key(NULL); H[Hn] = 0; out("[%s]", H);
}
static void dfs(int first, int depth, int bound)
{
	for (int i = depth; i < 64; i++) SW[i] = 0;
	once(first); keep();
	if (depth == bound) return;
	long total = STEP, from = depth ? SW[depth - 1] : 0;
	for (long s = from + 1; s <= total; s++) for (int k = 0; k < NT - 1; k++) { SW[depth] = s; SWT[depth] = k; dfs(first, depth + 1, bound); }
	SW[depth] = 0;
}
static long STREAM; static int SP; static int EXCESS;
static ssize_t sim_read(int fd, void *buf, size_t n)
{
	if (n == 0) return 0;
	while (SP < NTOK) {
		char *t = TOK[SP++];
		if (*t == 'z') return 0;
		if (*t == 'e') { errno = EINTR; return -1; }
		if (*t == 'x') { errno = EIO; return -1; }
		size_t k = atol(t + 1); if (k > n) k = n;
		for (size_t i = 0; i < k; i++) ((uint8_t *) buf)[i] = (STREAM++ * 7 + 3) & 255;
		errno = EINTR; /* stale, as after an earlier call */
		return k;
	}
	return 0;
}
#define read sim_read
#include "libmy/read_bytes.h"
#undef read
static void request(void)
{
	alarm(200);
	if (!strcmp(TOK[0], "rb")) {
		size_t need = atol(TOK[1]); uint8_t *b = malloc(need); memset(b, 0xa5, need);
		STREAM = 0; SP = 2; bool ok = read_bytes(0, b, need);
		jint("ok", ok); jint("taken", STREAM); jbytes("bs", b, ok ? need : 0); free(b); return;
	}
	KIND = TOK[1]; DO = !strcmp(KIND, "a32") ? do32 : !strcmp(KIND, "a64") ? do64 : !strcmp(KIND, "ptr") ? dop : dot;
	if (!strcmp(TOK[0], "seq")) {
		if (DO == do32) set32(strtoll(TOK[2], NULL, 0)); else set64(strtoll(TOK[2], NULL, 0));
		jopen("ev", "[");
		for (int i = 3; i < NTOK; i++) {
			char op[8]; int a; char *c = strchr(TOK[i], ':'); *c = 0; strcpy(op, TOK[i]); a = atoi(c + 1);
			int64_t r = DO(op, a);
			jopen(NULL, "["); key(NULL); out("\"%s\"", op); jlimbs(NULL, (uint64_t) (int64_t) a); jlimbs(NULL, r); jlimbs(NULL, DO == do32 ? get32() : get64()); jclose("]");
		}
		jclose("]"); return;
	}
	V0 = atol(TOK[2]);
	int rnd = !strcmp(TOK[0], "random"), at = rnd ? 5 : 4; NT = 0;
	for (int i = at; i < NTOK; i++) {
		int k = 0; char *save, *dup = strdup(TOK[i]);
		for (char *p = strtok_r(dup, ",", &save); p; p = strtok_r(NULL, ",", &save)) { char *c = strchr(p, ':'); *c = 0; strcpy(OPS[NT][k].op, p); OPS[NT][k++].arg = atoi(c + 1); }
		NOPS[NT++] = k; free(dup);
	}
	memset(HT, 0, sizeof HT); DISTINCT = RUNS = 0;
	jopen("hs", "[");
	if (!rnd) { RANDOM = 0; for (int f = 0; f < NT; f++) dfs(f, 0, atoi(TOK[3])); }
	else for (int i = 0; i < atoi(TOK[4]); i++) { RND = atol(TOK[3]) * 7919 + i; for (int k = 0; k < 3; k++) RND = RND * 6364136223846793005UL + 1; RANDOM = 1 + i % 9; once(i % NT); keep(); }
	RANDOM = 0;
	jclose("]"); jint("runs", RUNS);
}
