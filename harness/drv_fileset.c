/* File set driver.  fs DIR op...   (names in hex, relative to DIR)
 *   W:style:mtime:line,line...[!]   write the list (style i in place, n new file renamed over it; ! no newline at the end)
 *   U unlink the list   C:name create   D:name delete   R reload   G get all   X destroy
 * DIR is a scratch directory made by the check; the list is DIR/list. */
#include "drv.h"
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include "my_fileset.h"
static char DIRN[512]; static char LOG[1 << 16]; static size_t LN; static long NEXT; static struct my_fileset *FS; static int USER;
static void lg(const char *k, const char *n, long v, int ok) {
	LN += sprintf(LOG + LN, "%s{\"k\":\"%s\",\"n\":[", LN ? "," : "", k);
	size_t l = strlen(DIRN); ok = ok && !strncmp(n, DIRN, l) && n[l] == '/'; n = ok ? n + l + 1 : n;
	for (const char *p = n; *p; p++) LN += sprintf(LOG + LN, "%s%u", p == n ? "" : ",", (uint8_t) *p);
	LN += sprintf(LOG + LN, "],\"v\":%ld,\"ok\":%d}", v, ok);
}
/* every load returns a new value; the seventh and so on none at all */
static void *load(struct my_fileset *fs, const char *n) { long v = ++NEXT; if (v % 7 == 0) v = 0; lg("load", n, v, fs == FS && my_fileset_user(fs) == &USER); return (void *) v; }
static void unload(struct my_fileset *fs, const char *n, void *p) { lg("unload", n, (long) p, fs == FS); }
static char *path(const char *hex) { static char b[4][4096]; static int k; size_t n; uint8_t *u = unhex(hex, &n); k = (k + 1) % 4; snprintf(b[k], 4096, "%s/%.*s", DIRN, (int) n, u); free(u); return b[k]; }
static void lines(const char *f, char *ls, int nonl, const char *mode) {
	FILE *o = fopen(f, mode); if (!o) abort();
	int n = 0;
	if (strcmp(ls, "_")) for (char *p = strtok(ls, ","); p; p = strtok(NULL, ",")) { size_t k; uint8_t *u = unhex(p, &k); if (n++) fputc('\n', o); fwrite(u, 1, k, o); free(u); }
	if (n && !nonl) fputc('\n', o);
	fclose(o);
}
static void request(void)
{
	snprintf(DIRN, sizeof DIRN, "%s", TOK[1]); mkdir(DIRN, 0700); char s[600], t[600]; snprintf(s, sizeof s, "%s/list", DIRN); snprintf(t, sizeof t, "%s/list.new", DIRN);
	{ char x[600]; snprintf(x, sizeof x, "%s/d1", DIRN); mkdir(x, 0700); snprintf(x, sizeof x, "%s/d1/d2", DIRN); mkdir(x, 0700); }
	FS = NULL; NEXT = 0; LN = 0;
	char *tok[4000]; int n = NTOK; for (int i = 2; i < n; i++) tok[i] = strdup(TOK[i]);
	jopen("ev", "[");
	for (int i = 2; i < n; i++) {
		char *o = tok[i]; size_t len = strlen(o); int nonl = o[len - 1] == '!'; if (nonl) o[len - 1] = 0;
		jopen(NULL, "{"); key("e"); out("\"%c\"", o[0]);
		LN = 0;
		if (o[0] == 'W') {
			long mt = atol(o + 4); char *c = strchr(o + 4, ':') + 1; struct timeval tv[2] = { { mt, 0 }, { mt, 500000 } };
			if (o[2] == 'i') lines(s, c, nonl, "w"); else { lines(t, c, nonl, "w"); if (rename(t, s)) abort(); }
			utimes(s, tv);
		} else if (o[0] == 'U') unlink(s);
		else if (o[0] == 'C') { int fd = open(path(o + 2), O_CREAT | O_WRONLY, 0600); close(fd); }
		else if (o[0] == 'D') unlink(path(o + 2));
		else if (o[0] == 'R') { if (!FS) FS = my_fileset_init(s, load, unload, &USER); my_fileset_reload(FS); }
		else if (o[0] == 'X' && FS) { my_fileset_destroy(&FS); if (FS) abort(); }
		struct stat sb; int ok = stat(s, &sb) == 0; key("id"); out("\"%lu.%ld\"", ok ? sb.st_ino : 0, ok ? sb.st_mtime : 0); jint("there", ok);
		key("log"); LOG[LN] = 0; out("[%s]", LOG);
		jopen("get", "[");
		if (FS) for (size_t k = 0; ; k++) {
			const char *f = "?"; void *p = NULL; size_t l = strlen(DIRN);
			if (!my_fileset_get(FS, k, &f, &p)) { if (my_fileset_get(FS, k + 1000, &f, &p)) abort(); break; }
			jopen(NULL, "{"); if (!strncmp(f, DIRN, l)) f += l + 1; jbytes("n", f, strlen(f)); jint("v", (long) p); jclose("}");
		}
		jclose("]"); jclose("}");
		free(tok[i]);
	}
	jclose("]");
}
