/* Rate limiter driver: the sources see a clock that moves only when they sleep or work is done between calls.
 *   run RATE FREQ SEC NS CALL...     CALL = WORK_S:WORK_NS[:i<ns>...][:l<ns>]
 * i: the sleep of this call is interrupted after so many ns;  l: it wakes late by so many ns */
#include <sys/time.h>
#include <time.h>
#include "drv.h"
#include "libmy/my_rate.h"
static struct timespec NOW; static long INTR[8]; static int NI; static long LATE; static char EV[1 << 14]; static size_t EVn; static int GETS;
#ifndef GRAIN
#define GRAIN 1
#endif
static void add(struct timespec *t, long s, long ns) { t->tv_sec += s; t->tv_nsec += ns; while (t->tv_nsec >= 1000000000) { t->tv_sec++; t->tv_nsec -= 1000000000; } }
static int before(struct timespec a, struct timespec b) { return a.tv_sec < b.tv_sec || (a.tv_sec == b.tv_sec && a.tv_nsec < b.tv_nsec); }
static void grain(void) { if (NOW.tv_nsec % GRAIN) add(&NOW, 0, GRAIN - NOW.tv_nsec % GRAIN); }
int sim_gettimeofday(struct timeval *tv, void *z) { GETS++; tv->tv_sec = NOW.tv_sec; tv->tv_usec = NOW.tv_nsec / 1000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *t) { GETS++; *t = NOW; return 0; }
static int until(struct timespec tgt, struct timespec *rem)
{
	struct timespec w = NOW; int intr = 0;
	if (NI > 0) { add(&w, 0, INTR[0]); if (before(w, tgt)) { intr = 1; NI--; memmove(INTR, INTR + 1, sizeof INTR - sizeof *INTR); } }
	if (!intr) { w = tgt; if (before(w, NOW)) w = NOW; add(&w, 0, LATE); LATE = 0; }
	NOW = w; if (!intr) grain();
	if (EVn) EV[EVn++] = ',';
	EVn += sprintf(EV + EVn, "[%ld,%ld,%ld,%ld]", (long) tgt.tv_sec, tgt.tv_nsec, (long) NOW.tv_sec, NOW.tv_nsec);
	if (EVn > sizeof EV - 200) abort();
	if (intr && rem) { rem->tv_sec = tgt.tv_sec - NOW.tv_sec; rem->tv_nsec = tgt.tv_nsec - NOW.tv_nsec; if (rem->tv_nsec < 0) { rem->tv_sec--; rem->tv_nsec += 1000000000; } }
	return intr;
}
int sim_nanosleep(const struct timespec *r, struct timespec *rem)
{
	if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec > 999999999) { errno = EINVAL; return -1; }
	struct timespec t = NOW; add(&t, r->tv_sec, r->tv_nsec);
	if (until(t, rem)) { errno = EINTR; return -1; }
	return 0;
}
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec *r, struct timespec *rem)
{
	if (r->tv_nsec < 0 || r->tv_nsec > 999999999) return EINVAL;
	struct timespec t = *r; if (!(flags & TIMER_ABSTIME)) { t = NOW; add(&t, r->tv_sec, r->tv_nsec); }
	return until(t, flags & TIMER_ABSTIME ? NULL : rem) ? EINTR : 0;
}
int sim_usleep(unsigned us) { struct timespec t = NOW; add(&t, us / 1000000, us % 1000000 * 1000L); if (until(t, NULL)) { errno = EINTR; return -1; } return 0; }
static void request(void)
{
	alarm(60);
	NOW.tv_sec = strtol(TOK[3], 0, 0); NOW.tv_nsec = strtol(TOK[4], 0, 0);
	struct my_rate *r = my_rate_init(strtoul(TOK[1], 0, 0), strtoul(TOK[2], 0, 0));
	my_rate_sleep(NULL);
	jopen("ev", "[");
	for (int i = 5; i < NTOK; i++) {
		char *p = strtok(TOK[i], ":"); long s = atol(p), ns = atol(strtok(NULL, ":")); NI = 0; LATE = 0;
		while ((p = strtok(NULL, ":")) != NULL) { if (*p == 'i') INTR[NI++] = atol(p + 1); else LATE = atol(p + 1); }
		add(&NOW, s, ns); grain();
		struct timespec at = NOW; EVn = 0;
		my_rate_sleep(r);
		EV[EVn] = 0;
		key(NULL); out("[[%ld,%ld],[%s],[%ld,%ld]]", (long) at.tv_sec, at.tv_nsec, EV, (long) NOW.tv_sec, NOW.tv_nsec);
	}
	jclose("]");
	my_rate_destroy(&r); jint("gone", r == NULL);
	alarm(0);
}
