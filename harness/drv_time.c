/* Time driver on a simulated clock: ari A B | dbl A | frac M K A | slp A [iNS...] [lNS] | now A;  A is SEC:NSEC */
#include <sys/time.h>
#include <time.h>
#include "drv.h"
static struct timespec NOW; static long INTR[64]; static int NI; static long LATE;
static void add(struct timespec *t, long s, long ns) { t->tv_sec += s; t->tv_nsec += ns; while (t->tv_nsec >= 1000000000) { t->tv_sec++; t->tv_nsec -= 1000000000; } }
static int before(struct timespec a, struct timespec b) { return a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec); }
static int sim_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = NOW.tv_sec; tv->tv_usec = NOW.tv_nsec / 1000; return 0; }
static int sim_clock_gettime(clockid_t c, struct timespec *t) { *t = NOW; return 0; }
static int until(struct timespec tgt, struct timespec *rem) {
	struct timespec w = NOW; int intr = 0;
	if (NI > 0) { add(&w, 0, INTR[0]); if (before(w, tgt)) { intr = 1; NI--; memmove(INTR, INTR + 1, sizeof INTR - sizeof *INTR); } }
	if (!intr) { w = tgt; if (before(w, NOW)) w = NOW; add(&w, 0, LATE); LATE = 0; }
	NOW = w;
	if (intr && rem) { rem->tv_sec = tgt.tv_sec - NOW.tv_sec; rem->tv_nsec = tgt.tv_nsec - NOW.tv_nsec; if (rem->tv_nsec < 0) { rem->tv_sec--; rem->tv_nsec += 1000000000; } }
	errno = intr ? EINTR : 0;
	return intr;
}
static int sim_nanosleep(const struct timespec *r, struct timespec *rem) {
	if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999) { errno = EINVAL; return -1; }
	struct timespec t = NOW; add(&t, r->tv_sec, r->tv_nsec);
	return until(t, rem) ? -1 : 0;
}
static int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem) {
	if (r->tv_nsec < 0 || r->tv_nsec > 999999999) return EINVAL;
	struct timespec t = *r; if (!(flags & TIMER_ABSTIME)) { t = NOW; add(&t, r->tv_sec, r->tv_nsec); }
	return until(t, flags & TIMER_ABSTIME ? NULL : rem) ? EINTR : 0;
}
static int sim_usleep(unsigned us) { struct timespec t = NOW; add(&t, us / 1000000, us % 1000000 * 1000L); return until(t, NULL) ? -1 : 0; }
#define gettimeofday sim_gettimeofday
#define clock_gettime sim_clock_gettime
#define nanosleep sim_nanosleep
#define clock_nanosleep sim_clock_nanosleep
#define usleep sim_usleep
#include "libmy/my_time.h"
static struct timespec ts(const char *s) { struct timespec t; char *e; t.tv_sec = strtoll(s, &e, 10); t.tv_nsec = atol(e + 1); return t; }
static void jts(const char *k, struct timespec t) { jopen(k, "["); jlimbs(NULL, (uint64_t) t.tv_sec); jint(NULL, t.tv_nsec); jclose("]"); }
static void request(void)
{
	const char *op = TOK[0]; struct timespec a = ts(TOK[1]), t;
	if (!strcmp(op, "ari")) {
		struct timespec b = ts(TOK[2]);
		t = b; my_timespec_add(&a, &t); jts("add", t);
		t = b; my_timespec_sub(&a, &t); jts("sub", t);
		jint("cmp", my_timespec_cmp(&a, &b));
		jopen("self", "["); t = a; my_timespec_add(&t, &t); jts(NULL, t); t = a; my_timespec_sub(&a, &t); jts(NULL, t); jclose("]");
	} else if (!strcmp(op, "dbl")) {
		memset(&t, 0xa5, sizeof t); my_timespec_from_double(my_timespec_to_double(&a), &t); jts("back", t);
	} else if (!strcmp(op, "frac")) { /* a is what M / 2^K seconds should be */
		memset(&t, 0xa5, sizeof t); my_timespec_from_double(strtod(TOK[2], NULL) / (1 << atoi(TOK[3])), &t); jts("t", t);
	} else if (!strcmp(op, "slp")) {
		NI = 0; LATE = 0; NOW.tv_sec = 1000; NOW.tv_nsec = 123456789;
		for (int i = 2; i < NTOK; i++) if (TOK[i][0] == 'i') INTR[NI++] = atol(TOK[i] + 1); else LATE = atol(TOK[i] + 1);
		jts("from", NOW); errno = 0; my_nanosleep(&a); jts("to", NOW);
	} else if (!strcmp(op, "now")) {
		NOW = a; memset(&t, 0xa5, sizeof t); my_gettime(0, &t); jts("t", t);
	}
}
