/* Spool directory driver: callers are coroutines, the real files live in a scratch directory,
 * and after every step what changed in the two directories is recorded.
 *   run DIR CALLERS NCALLS SETUP ENV MODE...
 *     CALLERS e.g. 0,0,1: handle of each caller;  SETUP/ENV comma lists of items
 *     SETUP item: i|a TYPE NAME   (incoming / active)
 *     ENV item:   +TYPE NAME (add to incoming), -NAME (remove from it), A TYPE NAME / D NAME (active)
 *     MODE: random SEED P RUNS | dfs BOUND */
#include <ucontext.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include "drv.h"
#include "libmy/spooldir.h"
#define NCO 6
static ucontext_t MAIN, CO[NCO]; static char STK[NCO][1 << 18]; static int CUR, RUNNING, NUM, DONE[NCO]; static void *WAIT[NCO];
static long STEP, NSW, SWS[8], SWT[8]; static unsigned long RND; static int RANDOM;
static char BASE[256]; static int INC, ACT;
static char H[1 << 18]; static size_t Hn;
static void ev(const char *k, int c, const char *name, long id, const char *t) { if (Hn) H[Hn++] = ','; Hn += snprintf(H + Hn, 400, "[\"%s\",%d,\"%s\",%ld,\"%s\"]", k, c, name, id, t); if (Hn > sizeof H - 4096) abort(); }
/* every object ever created: kept open so that its inode number stays its own */
static struct obj { ino_t ino; int fd; char t[2]; } O[400]; static int NO;
static struct ent { char name[32]; int id; } S[2][64], T[2][64]; static int SN[2], TN[2];
static int idof(ino_t i) { for (int k = 0; k < NO; k++) if (O[k].ino == i) return k + 1; return 999; }
static int cmp(const void *a, const void *b) { return strcmp(((struct ent *) a)->name, ((struct ent *) b)->name); }
static void look(struct ent (*X)[64], int *N)
{
	for (int w = 0; w < 2; w++) {
		int fd = openat(w ? ACT : INC, ".", O_RDONLY | O_DIRECTORY); DIR *d = fdopendir(fd); struct dirent *e; N[w] = 0;
		while ((e = readdir(d)) != NULL) {
			if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
			struct stat sb; if (fstatat(fd, e->d_name, &sb, AT_SYMLINK_NOFOLLOW)) continue;
			snprintf(X[w][N[w]].name, 32, "%s", e->d_name); X[w][N[w]++].id = idof(sb.st_ino);
		}
		closedir(d); qsort(X[w], N[w], sizeof X[w][0], cmp);
	}
}
static int find(struct ent *x, int n, const char *name) { for (int i = 0; i < n; i++) if (!strcmp(x[i].name, name)) return x[i].id; return 0; }
/* what the running caller did since the last look */
static void diff(void)
{
	look(T, TN);
	int c = RUNNING ? CUR : 0;
	for (int i = 0; i < SN[0]; i++) {
		int now = find(T[0], TN[0], S[0][i].name);
		if (now == S[0][i].id) continue;
		if (now == 0 && find(T[1], TN[1], S[0][i].name) == S[0][i].id && find(S[1], SN[1], S[0][i].name) != S[0][i].id)
			ev("mv", c, S[0][i].name, S[0][i].id, "");
		else ev("lost", c, S[0][i].name, S[0][i].id, "");
	}
	for (int i = 0; i < TN[0]; i++) if (!find(S[0], SN[0], T[0][i].name)) ev("new", c, T[0][i].name, T[0][i].id, "");
	for (int i = 0; i < TN[1]; i++) {
		int was = find(S[1], SN[1], T[1][i].name);
		if (was != T[1][i].id && find(S[0], SN[0], T[1][i].name) != T[1][i].id) ev("anew", c, T[1][i].name, T[1][i].id, "");
	}
	for (int i = 0; i < SN[1]; i++) if (!find(T[1], TN[1], S[1][i].name)) ev("alost", c, S[1][i].name, S[1][i].id, "");
	memcpy(S, T, sizeof S); memcpy(SN, TN, sizeof SN);
}
static int runnable(int k) { return k < NUM && !DONE[k] && !WAIT[k]; }
static void to(int k) { int me = CUR; if (k == me) return; CUR = k; swapcontext(&CO[me], &CO[k]); }
static int any(int from) { for (int i = 1; i <= NUM; i++) { int k = (from + i) % NUM; if (runnable(k)) return k; } return -1; }
static unsigned rnd(unsigned n) { RND = RND * 6364136223846793005UL + 1442695040888963407UL; return (RND >> 33) % n; }
static void point(void)
{
	if (!RUNNING) return;
	diff();
	if (++STEP > 20000) { fprintf(stderr, "no progress\n"); abort(); }
	if (RANDOM) { if (rnd(RANDOM) == 0) { int k = any(rnd(NUM)); if (k >= 0) to(k); } return; }
	if (NSW < 8 && SWS[NSW] == STEP) { int k = SWT[NSW++]; if (runnable(k)) to(k); }
}
static void block(void *m) { WAIT[CUR] = m; int k = any(CUR); if (k < 0) { fprintf(stderr, "deadlock\n"); abort(); } to(k); }
/* stand-ins the spool code is compiled against */
static void *HELD[8]; static int NHELD;
static int held(void *m) { for (int i = 0; i < NHELD; i++) if (HELD[i] == m) return 1; return 0; }
int sp_lock(pthread_mutex_t *m) { point(); while (held(m)) { if (!RUNNING) abort(); block(m); } HELD[NHELD++] = m; return 0; }
int sp_trylock(pthread_mutex_t *m) { point(); if (held(m)) return EBUSY; HELD[NHELD++] = m; return 0; }
int sp_unlock(pthread_mutex_t *m) { for (int i = 0; i < NHELD; i++) if (HELD[i] == m) { HELD[i] = HELD[--NHELD]; break; } for (int k = 0; k < NCO; k++) if (WAIT[k] == m) WAIT[k] = NULL; point(); return 0; }
struct dirent *sp_readdir(DIR *d) { point(); return readdir(d); }
int sp_fstatat(int d, const char *p, struct stat *s, int f) { point(); int r = fstatat(d, p, s, f); int e = errno; point(); errno = e; return r; }
int sp_stat(const char *p, struct stat *s) { point(); int r = stat(p, s); int e = errno; point(); errno = e; return r; }
int sp_lstat(const char *p, struct stat *s) { point(); int r = lstat(p, s); int e = errno; point(); errno = e; return r; }
int sp_unlink(const char *p) { point(); int r = unlink(p); int e = errno; point(); errno = e; return r; }
int sp_rename(const char *a, const char *b) { point(); int r = rename(a, b); int e = errno; point(); errno = e; return r; }
int sp_renameat(int x, const char *a, int y, const char *b) { point(); int r = renameat(x, a, y, b); int e = errno; point(); errno = e; return r; }
int sp_link(const char *a, const char *b) { point(); int r = link(a, b); int e = errno; point(); errno = e; return r; }
int sp_usleep(unsigned us) { point(); return 0; }

static void make(int dir, char t, const char *name)
{
	char tgt[300];
	if (unlinkat(dir, name, 0)) unlinkat(dir, name, AT_REMOVEDIR);
	switch (t) {
	case 'f': { int f = openat(dir, name, O_CREAT | O_EXCL | O_WRONLY, 0644); if (write(f, name, strlen(name)) < 0) abort(); close(f); break; }
	case 'd': mkdirat(dir, name, 0755); break;
	case 'l': snprintf(tgt, sizeof tgt, "%s/target", BASE); if (symlinkat(tgt, dir, name)) abort(); break;
	case 'L': if (symlinkat("/nonexistent/x", dir, name)) abort(); break;
	case 'p': mkfifoat(dir, name, 0600); break;
	}
	int fd = openat(dir, name, O_PATH | O_NOFOLLOW); struct stat sb; if (fd < 0 || fstat(fd, &sb)) abort();
	O[NO].ino = sb.st_ino; O[NO].fd = fd; O[NO].t[0] = t; O[NO].t[1] = 0; NO++;
}
static void drop(int dir, const char *name) { if (unlinkat(dir, name, 0)) unlinkat(dir, name, AT_REMOVEDIR); }
static struct spooldir *HD[4]; static int NH, CALLER[NCO], NCALLER, NCALLS; static char *ENV[64]; static int NENV;
static void one(int c, struct spooldir *h)
{
	char pre[300]; int n = snprintf(pre, sizeof pre, "%s/active/", BASE);
	ev("call", c, "", 0, "");
	point();
	char *p = spooldir_next(h);
	diff();
	if (!p) ev("ret", c, "", 0, "");
	else { ev("ret", c, strncmp(p, pre, n) ? "?" : p + n, find(S[1], SN[1], p + n), ""); free(p); }
	point();
}
static void finish(void) { DONE[CUR] = 1; int k = any(CUR); if (k >= 0) { CUR = k; setcontext(&CO[k]); } setcontext(&MAIN); }
static void caller(void) { int c = CUR; for (int i = 0; i < NCALLS; i++) one(c, HD[CALLER[c]]); finish(); }
static void env_do(const char *e)
{
	diff();
	if (*e == '+') { make(INC, e[1], e + 2); char t[2] = { e[1], 0 }; ev("add", 9, e + 2, NO, t); }
	else if (*e == '-') { drop(INC, e + 1); ev("del", 9, e + 1, 0, ""); }
	else if (*e == 'A') { make(ACT, e[1], e + 2); char t[2] = { e[1], 0 }; ev("aadd", 9, e + 2, NO, t); }
	else if (*e == 'D') { drop(ACT, e + 1); ev("adel", 9, e + 1, 0, ""); }
	look(S, SN);
}
static void envthread(void) { for (int i = 0; i < NENV; i++) { point(); env_do(ENV[i]); } point(); finish(); }
static char SETUP[4096], *INI[64]; static int NINI;
static int split(char *s, char **v) { int n = 0; if (!strcmp(s, "-")) return 0; for (char *p = strtok(s, ","); p; p = strtok(NULL, ",")) v[n++] = p; return n; }
static void wipe(int dir) { struct ent X[2][64]; int N[2]; look(X, N); int w = dir == ACT; for (int i = 0; i < N[w]; i++) drop(dir, X[w][i].name); }
static void once(void)
{
	Hn = 0; STEP = NSW = 0; NO = 0; NHELD = 0; RUNNING = 0;
	for (int i = 0; i < NINI; i++) { make(INI[i][0] == 'i' ? INC : ACT, INI[i][1], INI[i] + 2); char t[2] = { INI[i][1], 0 }; ev(INI[i][0] == 'i' ? "add" : "aadd", 9, INI[i] + 2, NO, t); }
	look(S, SN);
	for (int h = 0; h < NH; h++) { HD[h] = spooldir_init(BASE); ev("open", h, "", 0, ""); }
	diff();
	NUM = NCALLER + (NENV > 0);
	for (int t = 0; t < NUM; t++) {
		DONE[t] = 0; WAIT[t] = NULL;
		getcontext(&CO[t]); CO[t].uc_stack.ss_sp = STK[t]; CO[t].uc_stack.ss_size = sizeof STK[t]; CO[t].uc_link = &MAIN;
		makecontext(&CO[t], t < NCALLER ? caller : envthread, 0);
	}
	CUR = 0; RUNNING = 1; swapcontext(&MAIN, &CO[0]); RUNNING = 0;
	int left; look(T, TN); left = TN[0] + 1;
	CUR = 0;
	for (int i = 0; i < 3 * left + 2; i++) one(0, HD[CALLER[0]]);
	ev("end", 0, "", 0, "");
	for (int h = 0; h < NH; h++) spooldir_destroy(&HD[h]);
	wipe(INC); wipe(ACT);
	for (int k = 0; k < NO; k++) close(O[k].fd);
}
#define HMAX 200003
static uint64_t HT[HMAX]; static long DISTINCT, RUNS;
static void keep(void)
{
	uint64_t h = 1469598103934665603UL; for (size_t i = 0; i < Hn; i++) h = (h ^ (uint8_t) H[i]) * 1099511628211UL;
	RUNS++;
	for (size_t i = h % HMAX; ; i = (i + 1) % HMAX) { if (HT[i] == h) return; if (HT[i] == 0) { HT[i] = h; break; } }
	DISTINCT++;
	if (DISTINCT > 1200) return;
	key(NULL); H[Hn] = 0; out("[%s]", H);
}
static void dfs(int depth, int bound)
{
	for (int i = depth; i < 8; i++) SWS[i] = 0;
	once(); keep();
	if (depth == bound) return;
	long total = STEP, from = depth ? SWS[depth - 1] : 0;
	for (long s = from + 1; s <= total; s++) for (int k = 0; k < NUM; k++) { SWS[depth] = s; SWT[depth] = k; dfs(depth + 1, bound); }
	SWS[depth] = 0;
}
static void request(void)
{
	char *v[16];
	alarm(200);
	snprintf(BASE, sizeof BASE, "%s/spool%d", TOK[1], (int) getpid());
	mkdir(BASE, 0755);
	char p[400]; snprintf(p, sizeof p, "%s/target", BASE); close(open(p, O_CREAT | O_WRONLY, 0644));
	struct spooldir *s0 = spooldir_init(BASE); spooldir_destroy(&s0);
	jint("gone", s0 == NULL);
	snprintf(p, sizeof p, "%s/incoming", BASE); INC = open(p, O_RDONLY | O_DIRECTORY);
	snprintf(p, sizeof p, "%s/active", BASE); ACT = open(p, O_RDONLY | O_DIRECTORY);
	NCALLER = split(TOK[2], v); NH = 0; for (int i = 0; i < NCALLER; i++) { CALLER[i] = atoi(v[i]); if (CALLER[i] >= NH) NH = CALLER[i] + 1; }
	NCALLS = atoi(TOK[3]); NINI = split(TOK[4], INI); NENV = split(TOK[5], ENV);
	memset(HT, 0, sizeof HT); DISTINCT = RUNS = 0;
	jopen("hs", "[");
	if (!strcmp(TOK[6], "dfs")) { RANDOM = 0; dfs(0, atoi(TOK[7])); }
	else { RANDOM = atoi(TOK[8]); RND = strtoul(TOK[7], 0, 0) * 2654435761UL + 1; for (int i = 0; i < atoi(TOK[9]); i++) { once(); keep(); } }
	jclose("]");
	jint("runs", RUNS); jint("distinct", DISTINCT);
	close(INC); close(ACT);
	snprintf(p, sizeof p, "%s/incoming", BASE); rmdir(p); snprintf(p, sizeof p, "%s/active", BASE); rmdir(p);
	snprintf(p, sizeof p, "%s/target", BASE); unlink(p); rmdir(BASE);
	alarm(0);
}
