/* Command-line tool driver: each request is one run of a tool's main() in a child.
 *   tool FNAME SETFILE NOW ADV ARG...    FNAME, SETFILE: "-" unset, else the variable's value
 *   rp TYPE RDATA...                     the presentation of rdata as libwdns gives it
 * Wall-clock time stands still at NOW; the monotonic clock advances by ADV[i]
 * microseconds at every table-level next(), and by one microsecond per reading. */
#include "drv.h"
#include <mtbl.h>
#include <wdns.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
int tool_main(int argc, char **argv);
#define NXMAX 20000
static struct { long now; int nnx; long nx[NXMAX]; } *S;
static long WALL, ADV[64]; static int NADV, IADV;
int clock_gettime(clockid_t c, struct timespec *t)
{
	if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || !S) { t->tv_sec = WALL; t->tv_nsec = 0; return 0; }
	S->now++;
	t->tv_sec = 1000 + S->now / 1000000; t->tv_nsec = S->now % 1000000 * 1000;
	return 0;
}
static void on_next(void)
{
	if (NADV) { S->now += ADV[IADV % NADV]; IADV++; }
	if (S->nnx < NXMAX) S->nx[S->nnx++] = S->now;
}
static void slurp(const char *k, int fd)
{
	off_t n = lseek(fd, 0, SEEK_END); char *b = malloc(n + 1);
	if (pread(fd, b, n, 0) != n) abort();
	jbytes(k, b, n); free(b); close(fd);
}
static void request(void)
{
	if (!strcmp(TOK[0], "rp")) {
		jopen("s", "[");
		for (int i = 2; i < NTOK; i++) {
			size_t n; uint8_t *d = unhex(TOK[i], &n); char *s = wdns_rdata_to_str(d, n, atoi(TOK[1]), WDNS_CLASS_IN);
			jbytes(NULL, s ? s : "", s ? strlen(s) : 0); free(s); free(d);
		}
		jclose("]");
		return;
	}
	if (!S) S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(S, 0, sizeof S->now + sizeof S->nnx); S->now = 0; S->nnx = 0;
	WALL = atol(TOK[3]); NADV = IADV = 0;
	if (strcmp(TOK[4], "-")) { char *a = strdup(TOK[4]); for (char *p = strtok(a, ","); p; p = strtok(NULL, ",")) ADV[NADV++] = atol(p); free(a); }
	int argc = NTOK - 5 + 1; char **av = calloc(argc + 1, sizeof *av);
	av[0] = strdup("tool"); for (int i = 1; i < argc; i++) av[i] = unhexs(TOK[4 + i]);
	int o = memfd_create("o", 0), e = memfd_create("e", 0);
	pid_t p = fork();
	if (p == 0) {
		signal(SIGALRM, SIG_DFL); alarm(10);
		dup2(o, 1); dup2(e, 2);
		if (strcmp(TOK[1], "-")) setenv("DNSTABLE_FNAME", TOK[1], 1); else unsetenv("DNSTABLE_FNAME");
		if (strcmp(TOK[2], "-")) setenv("DNSTABLE_SETFILE", TOK[2], 1); else unsetenv("DNSTABLE_SETFILE");
		shim_on_upstream_next = on_next;
		exit(tool_main(argc, av));
	}
	int st = 0; waitpid(p, &st, 0);
	jint("ret", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
	slurp("out", o); slurp("err", e);
	jopen("nx", "["); for (int i = 0; i < S->nnx; i++) jint(NULL, S->nx[i]); jclose("]");
	for (int i = 0; i < argc; i++) free(av[i]);
	free(av);
}
