/* Command-line driver:
 * argv CLOSE TOGGLE MULTI ENV ENVTEXT STDIN QUIET NENT {SH LO ROLE TYPE ARR MUST DEF}... ARG...
 * CLOSE -1: leave the settings as the process's environment made them. */
#include "drv.h"
#include "libmy/argv.h"
static const char *TY[] = { "none", "bool", "boolneg", "boolarg", "char", "string", "short", "ushort", "int", "uint", "long", "ulong",
	"float", "double", "bin", "oct", "hex", "incr", "size", "usize", "boolint", "boolintneg", "boolintarg" };
static const int SZ[] = { 1, 1, 1, 1, 1, sizeof(char *), 2, 2, 4, 4, 8, 8, 4, 8, 4, 4, 4, 4, 8, 8, 4, 4, 4 };
static void put(void *v, int ty, const char *def)
{
	uint64_t n = ty == 5 ? 0 : strtoull(def, NULL, 16);
	switch (ty) {
	case 5: { char *s = unhexs(def); memcpy(v, &s, sizeof s); break; }
	case 12: { float f = (int64_t) n / 1000.0; memcpy(v, &f, 4); break; }
	case 13: { double f = (int64_t) n / 1000.0; memcpy(v, &f, 8); break; }
	default: memcpy(v, &n, SZ[ty]);
	}
}
static void show(const void *v, int ty)
{
	int64_t n;
	switch (ty) {
	case 5: { char *s; memcpy(&s, v, sizeof s); jbytes(NULL, s, strlen(s)); return; }
	case 6: n = *(short *) v; break;
	case 7: n = *(unsigned short *) v; break;
	case 9: n = *(unsigned *) v; break;
	case 10: case 11: case 18: case 19: n = *(int64_t *) v; break;
	case 12: { double d = *(float *) v * 1000.0; n = d < 0 ? d - .5 : d + .5; break; }
	case 13: { double d = *(double *) v * 1000.0; n = d < 0 ? d - .5 : d + .5; break; }
	default: if (SZ[ty] == 1) n = *(unsigned char *) v; else n = *(int *) v;
	}
	jlimbs(NULL, n);
}
static void request(void)
{
	int i = 1, n;
	if (!strcmp(TOK[i], "-1")) i += 5;
	else {
		argv_close_enable_b = atoi(TOK[i++]); argv_last_toggle_b = atoi(TOK[i++]); argv_multi_accept_b = atoi(TOK[i++]);
		argv_process_env_b = strcmp(TOK[i], "none") != 0; argv_env_after_b = !strcmp(TOK[i], "after"); i++;
		if (!strcmp(TOK[i], "-")) unsetenv("ARGV_DRV9"); else setenv("ARGV_DRV9", unhexs(TOK[i]), 1);
		i++;
	}
	if (!freopen(strcmp(TOK[i], "-") ? unhexs(TOK[i]) : "/dev/null", "r", stdin)) abort();
	i++;
	argv_interactive = 0;
	static FILE *null; if (!null) null = fopen("/dev/null", "w");
	argv_error_stream = atoi(TOK[i++]) ? NULL : null;
	n = atoi(TOK[i++]);
	argv_t *t = malloc(sizeof(argv_t) * (n + 1)); int ty[n + 1];
	for (int e = 0; e < n; e++) {
		const char *role = TOK[i + 2];
		t[e].ar_short_arg = !strcmp(role, "opt") ? (char) atoi(TOK[i]) : !strcmp(role, "mand") ? ARGV_MAND : !strcmp(role, "maybe") ? ARGV_MAYBE
			: !strcmp(role, "or") ? ARGV_OR : ARGV_XOR;
		t[e].ar_long_arg = strcmp(TOK[i + 1], "-") ? unhexs(TOK[i + 1]) : NULL;
		for (ty[e] = 0; strcmp(TY[ty[e]], TOK[i + 3]); ty[e]++) ;
		t[e].ar_type = ty[e] | (atoi(TOK[i + 4]) ? ARGV_FLAG_ARRAY : 0) | (atoi(TOK[i + 5]) ? ARGV_FLAG_MAND : 0);
		t[e].ar_variable = NULL;
		if (ty[e] == 0) ;
		else if (atoi(TOK[i + 4])) t[e].ar_variable = calloc(1, sizeof(argv_array_t));
		else { t[e].ar_variable = malloc(SZ[ty[e]]); put(t[e].ar_variable, ty[e], TOK[i + 6]); }
		t[e].ar_var_label = e % 2 ? "label" : NULL; t[e].ar_comment = e % 3 ? "comment" : NULL;
		i += 7;
	}
	memset(&t[n], 0, sizeof t[n]); t[n].ar_short_arg = ARGV_LAST;
	int argc = NTOK - i + 1; char **av = malloc(sizeof(char *) * (argc + 1));
	av[0] = strdup("/some/where/drv9");
	for (int k = 1; k < argc; k++) av[k] = unhexs(TOK[i++]);
	av[argc] = NULL;
	int r = argv_process(t, argc, av);
	jint("ret", r);
	jopen("vals", "[");
	for (int e = 0; e < n; e++) {
		jopen(NULL, "[");
		if (r != 0 || ty[e] == 0) ;
		else if (t[e].ar_type & ARGV_FLAG_ARRAY) {
			argv_array_t *a = t[e].ar_variable;
			for (int k = 0; k < a->aa_entry_n; k++) show((char *) a->aa_entries + k * SZ[ty[e]], ty[e]);
		} else show(t[e].ar_variable, ty[e]);
		jclose("]");
	}
	jclose("]");
	jopen("used", "[");
	for (int e = 0; e < n; e++) {
		jopen(NULL, "[");
		if (r == 0) {
			jint(NULL, argv_entry_was_used(&t[e]));
			if (ty[e] && t[e].ar_short_arg > 0) jint(NULL, argv_was_used(t, t[e].ar_short_arg));
			if (ty[e] && t[e].ar_long_arg) { char *c = strdup(t[e].ar_long_arg); jint(NULL, argv_long_was_used(t, c)); free(c); }
		}
		jclose("]");
	}
	jclose("]");
	if (r == 0) argv_cleanup(t);
}
