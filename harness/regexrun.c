/* Compiles patterns and feeds inputs.  regexrun FILE FIRST [faults]
   H id
   P flags n c c c ...           the pattern
   R mode npieces                a run; mode 1 uses the checking feeder, 2: the match object is new
   S n c c c ...                 a piece
   E
   faults: the k-th memory request of the compilation fails, for every k */
#include "sljitLir.h"
#include "regexJIT.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static int plan, live, requests;
void *vf_malloc(size_t n, void *d)
{
	void *p;
	requests++;
	if (plan && !--plan) return NULL;
	live++;
	p = malloc(n);
	memset(p, 0xa5, n);
	return p;
}
void vf_free(void *p, void *d) { if (p) { live--; free(p); } }

static regex_char_t pat[4096]; static int patn, flags;
static regex_char_t *copy_of(const regex_char_t *s, int n)
{
	/* an exact copy: reading beyond it is found */
	regex_char_t *r = malloc(n ? n : 1);
	memcpy(r, s, n);
	return r;
}
static int rd(FILE *f, regex_char_t *b)
{
	int n, i, c;
	if (fscanf(f, "%d", &n) != 1) exit(3);
	for (i = 0; i < n; i++) { if (fscanf(f, "%d", &c) != 1) exit(3); b[i] = (regex_char_t)c; }
	return n;
}
static char out[1 << 20]; static int on;
static void codes(const regex_char_t *s, int n)
{
	on += sprintf(out + on, "[");
	for (int i = 0; i < n; i++) on += sprintf(out + on, "%s%d", i ? "," : "", (unsigned char)s[i]);
	on += sprintf(out + on, "]");
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	int first = atoi(argv[2]), num = 0, faults = argc > 3 && !strcmp(argv[3], "faults");
	char w[64], id[128];
	static regex_char_t piece[8192];
	if (!f) return 3;
	setvbuf(stdout, NULL, _IONBF, 0);
	while (fscanf(f, "%63s", w) == 1) {
		struct regex_machine *m; struct regex_match *t = NULL; int err = -1, nr = 0, skip = 0; regex_char_t *p;
		if (w[0] != 'H') return 3;
		if (fscanf(f, "%127s", id) != 1) return 3;
		skip = num++ < first;
		if (fscanf(f, "%63s %d", w, &flags) != 2) return 3;
		patn = rd(f, pat);
		on = 0; live = 0; m = NULL;
		if (!skip) {
			p = copy_of(pat, patn);
			requests = 0; plan = 0;
			m = regex_compile(p, patn, flags, &err);
			on += sprintf(out + on, "\"pat\":");
			codes(pat, patn);
			on += sprintf(out + on, ",\"flags\":%d,\"err\":%d,\"runs\":[", flags, !m == !err ? 99 : err);
			if (faults) {
				int k, n = requests, base = live;
				for (k = 1; k <= n; k++) {
					struct regex_machine *q; int e2 = -1;
					plan = k;
					q = regex_compile(p, patn, flags, &e2);
					plan = 0;
					/* an invalid pattern may be found before or after the failure */
					if (q ? e2 != 0 : e2 != REGEX_MEMORY_ERROR && !(err == REGEX_INVALID_REGEX && e2 == err)) live += 1000;
					if (q) regex_free_machine(q);
					if (live != base) break;
				}
				if (live != base) { live = base + 500 + k; }
			}
			free(p);
		}
		for (;;) {
			int mode, np, i, n;
			if (fscanf(f, "%63s", w) != 1) return 3;
			if (w[0] == 'E') break;
			if (fscanf(f, "%d %d", &mode, &np) != 2) return 3;
			if (m) {
				if (mode & 2 && t) { regex_free_match(t); t = NULL; }
				if (!t) t = regex_begin_match(m);
				else regex_reset_match(t);
				on += sprintf(out + on, "%s{\"pieces\":[", nr++ ? "," : "");
			}
			{
				char res[1 << 16]; int rn = 0;
				for (i = 0; i < np; i++) {
					if (fscanf(f, "%63s", w) != 1) return 3;
					n = rd(f, piece);
					if (m) {
						int b, e = -7, ix = -7;
						p = copy_of(piece, n);
						if (mode & 1) regex_continue_match_debug(t, p, n);
						else regex_continue_match(t, p, n);
						free(p);
						if (i) on += sprintf(out + on, ",");
						codes(piece, n);
						b = regex_get_result(t, &e, &ix);
						rn += sprintf(res + rn, "%s[%d,%d,%d,%d]", i ? "," : "", b, e, ix, !!regex_is_match_finished(t));
					}
				}
				if (m) on += sprintf(out + on, "],\"res\":[%.*s]}", rn, res);
			}
		}
		if (skip) continue;
		if (t) regex_free_match(t);
		if (m) regex_free_machine(m);
		printf("%s\t%s],\"leak\":%d\n", id, out, live);
	}
	return 0;
}
