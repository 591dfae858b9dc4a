/* Stand-in for libmtbl's mtbl_merge command (not installed here): same
 * command line and environment, same way of finding the merge function, but
 * reading and writing the shim's tables.  What it was asked to do is logged. */
#include <dlfcn.h>
#include <errno.h>
#include <getopt.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mtbl.h"
static FILE *lg;
static int done(int rc) { if (lg) { fprintf(lg, "exit %d\n", rc); fclose(lg); } return rc; }
int main(int argc, char **argv)
{
	const char *l = getenv("MERGE_LOG"), *dso = getenv("MTBL_MERGE_DSO"), *pfx = getenv("MTBL_MERGE_FUNC_PREFIX"), *rc = getenv("MERGE_RC");
	char nm[512]; void *h, *clos = NULL, *(*init)(void); void (*fin)(void *); mtbl_merge_func f; int c, i;
	if ((lg = fopen(l, "a")) == NULL) return 97;
	fprintf(lg, "run");
	for (i = 1; i < argc; i++) { fputc(' ', lg); if (!*argv[i]) fputc('-', lg); for (const char *p = argv[i]; *p; p++) fprintf(lg, "%02x", (unsigned char)*p); }
	fputc('\n', lg);
	if (rc) return done(atoi(rc));
	while ((c = getopt(argc, argv, "b:c:l:t:")) != -1)
		if (c == '?') return done(1);
	if (argc - optind < 2) return done(1);
	if (!dso || !pfx) { fprintf(lg, "noenv\n"); return done(1); }
	if ((h = dlopen(dso, RTLD_NOW)) == NULL) { fprintf(lg, "dlopen %s\n", dlerror()); return done(1); }
	snprintf(nm, sizeof nm, "%s_init_func", pfx); init = (void *(*)(void))dlsym(h, nm);
	snprintf(nm, sizeof nm, "%s_free_func", pfx); fin = (void (*)(void *))dlsym(h, nm);
	snprintf(nm, sizeof nm, "%s_func", pfx);
	if ((f = (mtbl_merge_func)dlsym(h, nm)) == NULL) { fprintf(lg, "dlsym %s\n", nm); return done(1); }
	if (init) clos = init();
	struct mtbl_merger_options *mo = mtbl_merger_options_init();
	mtbl_merger_options_set_merge_func(mo, f, clos);
	struct mtbl_merger *m = mtbl_merger_init(mo);
	struct mtbl_reader *rs[64]; int n = 0;
	for (i = optind; i < argc - 1 && n < 64; i++) {
		if ((rs[n] = mtbl_reader_init(argv[i], NULL)) == NULL) return done(1);
		mtbl_merger_add_source(m, mtbl_reader_source(rs[n++]));
	}
	struct mtbl_writer *w = mtbl_writer_init(argv[argc - 1], NULL);
	if (!w) return done(1);
	if (mtbl_source_write(mtbl_merger_source(m), w) != mtbl_res_success) return done(1);
	mtbl_writer_destroy(&w);
	if (fin) fin(clos);
	return done(0);
}
