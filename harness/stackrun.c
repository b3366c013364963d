/* Plays histories of the stack utility.  stackrun FILE FIRST
   H id / op ... / E
   n s start max [f k]   allocate; the k-th request for memory fails
   r s off               resize to min_start + off
   w s off val / g s off write / read a byte of the usable part (skipped outside)
   t s off               set top
   d s                   free
*/
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>

static char out[1 << 20]; static int outn, first;
#define EV(...) (outn += sprintf(out + outn, outn ? "," : ""), outn += sprintf(out + outn, __VA_ARGS__))
/* pieces of memory obtained or given back by the current call */
static struct { void *p; size_t n; int id, kind; } piece[256];
static int np, nextid, plan, failed, wrongdata, ngot, got[64], ngiven, active;
static char given[4096]; static int givenn;
static int token;

static int failing(void) { if (!plan || --plan) return 0; failed = 1; return 1; }
static void obtained(void *p, size_t n, int kind) { piece[np].p = p; piece[np].n = n; piece[np].id = ++nextid; piece[np++].kind = kind; got[ngot++] = nextid; }
static const char *kinds[] = { "malloc", "map" };
static int giveback(void *p, size_t n, int kind)
{
	for (int i = 0; i < np; i++)
		if (piece[i].p == p && piece[i].kind == kind) {
			int j;
			for (j = 0; j < ngot && got[j] != piece[i].id; j++) ;
			if (kind == 1 && n != piece[i].n) break;
			if (j < ngot) got[j] = got[--ngot];                /* within the same call */
			else givenn += sprintf(given + givenn, "%s[\"%s\",%d,%ld]", ngiven++ ? "," : "", kinds[kind], piece[i].id, (long)piece[i].n);
			piece[i] = piece[--np];
			return 1;
		}
	givenn += sprintf(given + givenn, "%s[\"wrong\",0,%ld]", ngiven++ ? "," : "", n > 1000000000 ? 1000000000L : (long)n);
	return 0;
}
void *vf_malloc(size_t n, void *d)
{
	void *p;
	if (d != &token) wrongdata = 1;
	if (failing() || n > (1u << 30)) { failed = 1; return NULL; }
	p = malloc(n);
	obtained(p, n, 0);
	return p;
}
void vf_free(void *p, void *d)
{
	if (d != &token) wrongdata = 1;
	if (p && giveback(p, 0, 0)) free(p);
}
void *vf_mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	void *p;
	if (!active) return mmap(a, n, prot, flags, fd, off);
	if (failing()) { errno = ENOMEM; return MAP_FAILED; }
	p = n > (1u << 30) ? MAP_FAILED : mmap(a, n, prot, flags, fd, off);
	if (p == MAP_FAILED) failed = 1;
	else obtained(p, n, 1);
	return p;
}
int vf_munmap(void *p, size_t n)
{
	if (!active) return munmap(p, n);
	return giveback(p, n, 1) ? munmap(p, n) : 0;
}

/* a page given up loses its contents at once, as the system may do */
static int vf_giveup(void *p, size_t n)
{
	for (int i = 0; i < np; i++)
		if (piece[i].kind == 1 && (char *)p >= (char *)piece[i].p && (char *)p + n <= (char *)piece[i].p + piece[i].n)
			return madvise(p, n, MADV_DONTNEED);
	EV("[\"outside\",0]");
	return -1;
}
int vf_madvise(void *p, size_t n, int advice)
{
	if (active && (advice == MADV_FREE || advice == MADV_DONTNEED)) return vf_giveup(p, n);
	return madvise(p, n, advice);
}
int vf_posix_madvise(void *p, size_t n, int advice)
{
	if (active && advice == POSIX_MADV_DONTNEED) return vf_giveup(p, n);
	return posix_madvise(p, n, advice);
}

#define MAXS 64
static struct sljit_stack *st[MAXS];

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	char line[256], id[128]; int num = 0, skip = 0;
	if (!f) return 3;
	first = atoi(argv[2]);
	setvbuf(stdout, NULL, _IONBF, 0);
	while (fgets(line, sizeof(line), f)) {
		int s, k; long a = 0, b = 0; unsigned long ua, ub; struct sljit_stack *x; sljit_u8 *q, *r;
		if (line[0] == 'H') { sscanf(line, "H %127s", id); outn = 0; np = nextid = 0; memset(st, 0, sizeof(st)); skip = num++ < first; continue; }
		if (skip) continue;
		if (line[0] == 'E') {
			printf("%s\t\"mapped\":%d,\"ev\":[%s]\n", id,
#if defined(SLJIT_UTIL_SIMPLE_STACK_ALLOCATION) && SLJIT_UTIL_SIMPLE_STACK_ALLOCATION
				0,
#else
				1,
#endif
				out);
			continue;
		}
		k = sscanf(line + 1, "%d %ld %ld", &s, &a, &b);
		x = st[s];
		plan = failed = wrongdata = ngot = ngiven = givenn = 0; given[0] = 0;
		active = 1;
		switch (line[0]) {
		case 'n':
			if (x) break;
			ua = (unsigned long)a; ub = (unsigned long)b;
			if (strstr(line, " f ")) plan = atoi(strstr(line, " f ") + 3);
			x = st[s] = sljit_allocate_stack((sljit_uw)ua, (sljit_uw)ub, &token);
			plan = 0;
			EV("[\"new\",%d,%ld,%ld,%d,", s, ua > 1073741823 ? 1073741823 - (ua < ub) : (long)ua, ub > 1073741823 ? 1073741823 : (long)ub, x != NULL);
			if (x) outn += sprintf(out + outn, "%ld,%ld,%ld,", (long)(x->end - x->min_start), (long)(x->start - x->min_start), (long)(x->top - x->min_start));
			else outn += sprintf(out + outn, "0,0,0,");
			outn += sprintf(out + outn, "%d,[", failed);
			for (int i = 0, c = 0; i < np; i++)
				for (int j = 0; j < ngot; j++)
					if (got[j] == piece[i].id) {
						int inside = piece[i].n > 256 || !x ? 1 : (void *)x == piece[i].p || (void *)x->min_start == piece[i].p;
						outn += sprintf(out + outn, "%s[\"%s\",%d,%ld]", c++ ? "," : "", wrongdata ? "data" : !inside ? "other" : kinds[piece[i].kind], piece[i].id,
							x && (void *)x->min_start != piece[i].p && piece[i].kind ? -1L : (long)piece[i].n);
					}
			if (ngiven) outn += sprintf(out + outn, ",%s", given);
			outn += sprintf(out + outn, "]]");
			break;
		case 'r':
			if (!x) break;
			q = x->min_start + a;
			r = sljit_stack_resize(x, q);
			EV("[\"resize\",%d,%ld,%d,%ld,%ld,%ld]", s, a, !r ? 0 : r == q ? 1 : 2, (long)(x->end - x->min_start), (long)(x->start - x->min_start), (long)(x->top - x->min_start));
			break;
		case 'e': /* relative to the end */
			if (!x) break;
			a = (long)(x->end - x->min_start) - a;
			q = x->min_start + a;
			r = sljit_stack_resize(x, q);
			EV("[\"resize\",%d,%ld,%d,%ld,%ld,%ld]", s, a, !r ? 0 : r == q ? 1 : 2, (long)(x->end - x->min_start), (long)(x->start - x->min_start), (long)(x->top - x->min_start));
			break;
		case 'w':
		case 'g': /* offset relative to start, or to the end when negative */
			if (!x) break;
			q = a >= 0 ? x->start + a : x->end + a;
			if (q < x->start || q >= x->end) break;
			if (line[0] == 'w') *q = (sljit_u8)b;
			EV("[\"%s\",%d,%ld,%d]", line[0] == 'w' ? "write" : "read", s, (long)(q - x->min_start), *q);
			break;
		case 't':
			if (!x || a > x->end - x->min_start) break;
			x->top = x->min_start + a;
			EV("[\"top\",%d,%ld]", s, a);
			break;
		case 'd':
			if (!x) break;
			sljit_free_stack(x, &token);
			st[s] = NULL;
			EV("[\"free\",%d,[%s%s]]", s, given, wrongdata ? ",[\"data\",0,0]" : "");
			break;
		}
		active = 0;
	}
	return 0;
}
