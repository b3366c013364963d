/* Plays histories of the executable memory allocator and records what the
   caller and the system see.  alloc FILE FIRST
   history: H id threads / T op ... / E
   ops (t = thread):
     t m b size [f k]   allocate block b; the k-th request to the system fails
     t f b              free block b (t waits until b exists)
     t t                sljit_free_unused_memory_exec
     t g b value n [f k] generate code returning value, n operations long
     t r b              run it
     t p b value        patch it
   sizes: a number, or -d for SIZE_MAX - d + 1 ... */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdarg.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>

#define MAXB 4096
#define MAXM 65536
#define MAXOP 20000
#define MAXT 8

static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
static char *out; static size_t outn, outc;
static __thread int self, plan, active;

static void ev(const char *f, ...)
{
	va_list a;
	if (outn + 256 > outc) out = realloc(out, outc = outc * 2 + 65536);
	if (outn) out[outn++] = ',';
	va_start(a, f);
	outn += (size_t)vsprintf(out + outn, f, a);
	va_end(a);
}

/* ------------------------------------------------ the system */
static struct { unsigned char *p; size_t n; int id; } maps[MAXM];
static int nmaps, nextid, otherfds;

static int failing(void)
{
	if (!plan) return 0;
	if (--plan) return 0;
	pthread_mutex_lock(&lk); ev("[\"fail\",%d]", self); pthread_mutex_unlock(&lk);
	return 1;
}
void *vf_mmap(void *addr, size_t n, int prot, int flags, int fd, off_t off)
{
	void *p;
	if (!active) return mmap(addr, n, prot, flags, fd, off);
	if (failing()) { errno = ENOMEM; return MAP_FAILED; }
	p = n > (1u << 30) ? MAP_FAILED : mmap(addr, n, prot, flags, fd, off);
	pthread_mutex_lock(&lk);
	if (p == MAP_FAILED) { ev("[\"fail\",%d]", self); errno = ENOMEM; }
	else {
		if (nmaps == MAXM) { fprintf(stderr, "too many maps\n"); exit(3); }
		maps[nmaps].p = p; maps[nmaps].n = n; maps[nmaps].id = ++nextid; nmaps++;
		ev("[\"map\",%d,%d,%ld,%d,%d]", self, nextid, (long)n, !!(prot & PROT_WRITE), !!(prot & PROT_EXEC));
	}
	pthread_mutex_unlock(&lk);
	return p;
}
static int find(void *q, long *off)
{
	for (int i = 0; i < nmaps; i++)
		if ((unsigned char *)q >= maps[i].p && (unsigned char *)q < maps[i].p + ((maps[i].n + 4095) & ~(size_t)4095)) { *off = (long)((unsigned char *)q - maps[i].p); return i; }
	*off = -1;
	return -1;
}
static long cap(size_t n) { return n > 1073741824u ? 1073741824 : (long)n; }
int vf_munmap(void *p, size_t n)
{
	long off; int i;
	if (!active) return munmap(p, n);
	pthread_mutex_lock(&lk);
	i = find(p, &off);
	ev("[\"unmap\",%d,%d,%ld,%ld]", self, i < 0 ? 0 : maps[i].id, off, cap(n));
	if (i >= 0 && off == 0 && maps[i].n == n) maps[i] = maps[--nmaps];
	else n = 0;                                    /* recorded, not done */
	pthread_mutex_unlock(&lk);
	return n ? munmap(p, n) : 0;
}
int vf_mprotect(void *p, size_t n, int prot)
{
	long off; int i;
	if (active) {
		pthread_mutex_lock(&lk);
		i = find(p, &off);
		ev("[\"prot\",%d,%d,%ld,%ld,%d,%d]", self, i < 0 ? 0 : maps[i].id, off, cap(n), !!(prot & PROT_WRITE), !!(prot & PROT_EXEC));
		if (i < 0) n = 0;
		pthread_mutex_unlock(&lk);
	}
	return n ? mprotect(p, n, prot) : 0;
}
int vf_ftruncate(int fd, off_t n) { return active && failing() ? (errno = ENOSPC, -1) : ftruncate(fd, n); }
/* both ways to get a file fail together */
static __thread int nofile;
int vf_open(const char *name, int flags, ...)
{
	va_list a; va_start(a, flags);
	if (active && failing()) { nofile = 1; errno = EMFILE; return -1; }
	return open(name, flags, va_arg(a, int));
}
int vf_mkostemp(char *t, int flags) { if (nofile) { nofile = 0; errno = EMFILE; return -1; } return mkostemp(t, flags); }

static int fds(void)
{
	DIR *d = opendir("/proc/self/fd"); int n = 0;
	if (!d) return 0;
	while (readdir(d)) n++;
	closedir(d);
	return n;
}

/* ------------------------------------------------ blocks */
static struct blk { volatile int state; int code; unsigned char *p, *x; size_t n; unsigned char *copy; sljit_sw val; struct sljit_const *c; sljit_uw caddr; sljit_sw eo; } blk[MAXB];

static void fill(struct blk *b, int id)
{
	for (size_t i = 0; i < b->n; i++) b->p[i] = (unsigned char)(id * 37 + i * 11 + (i >> 8));
}
static int intact(struct blk *b, int id)
{
	size_t i;
	if (b->code) return !memcmp(b->x, b->copy, b->n);
	for (i = 0; i < b->n; i++) {
		unsigned char v = (unsigned char)(id * 37 + i * 11 + (i >> 8));
		if (b->p[i] != v || b->x[i] != v) return 0;
	}
	return 1;
}

static void *gen(sljit_sw val, int n, struct blk *b)
{
	struct sljit_compiler *c = sljit_create_compiler(NULL);
	struct sljit_const *k;
	void *code;
	sljit_emit_enter(c, 0, SLJIT_ARGS0(W), 2, 0, 0);
	for (int i = 0; i < n; i++) sljit_emit_op2(c, SLJIT_ADD, SLJIT_R1, 0, SLJIT_R1, 0, SLJIT_IMM, 0x1234567);
	k = sljit_emit_const(c, SLJIT_MOV, SLJIT_R0, 0, val);
	sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	code = sljit_generate_code(c, 0, NULL);
	if (code) {
		b->n = sljit_get_generated_code_size(c);
		b->caddr = sljit_get_const_addr(k);
		b->eo = sljit_get_executable_offset(c);
		b->val = val;
		b->code = 1;
		b->x = code; b->p = (unsigned char *)code - b->eo;
		b->copy = malloc(b->n); memcpy(b->copy, b->x, b->n);
	}
	sljit_free_compiler(c);
	return code;
}

struct op { int t, b, fault; char k; long a, n; size_t size; };
static struct op ops[MAXOP];
static int nops;

static void check_all(int t)
{
	int ok = 1;
	for (int i = 1; i < MAXB; i++) if (blk[i].state == 1 && !intact(&blk[i], i)) ok = 0;
	pthread_mutex_lock(&lk); ev("[\"keep\",%d,%d]", t, ok); pthread_mutex_unlock(&lk);
}

static void run_op(struct op *o, int single)
{
	struct blk *b = &blk[o->b];
	long off, xoff; int i, xi, ok;
	switch (o->k) {
	case 'm':
		pthread_mutex_lock(&lk); ev("[\"m\",%d,%d,%ld]", self, o->b, cap(o->size)); pthread_mutex_unlock(&lk);
		plan = o->fault; nofile = 0;
		b->p = sljit_malloc_exec(o->size);
		plan = 0; b->n = o->size; b->code = 0;
		if (b->p && o->size > (1u << 30)) b->n = 8;
		pthread_mutex_lock(&lk);
		if (!b->p) ev("[\"M\",%d,%d,0,0,0,0]", self, o->b);
		else {
#if defined(SLJIT_PROT_EXECUTABLE_ALLOCATOR) && SLJIT_PROT_EXECUTABLE_ALLOCATOR
			b->x = b->p + sljit_exec_offset(b->p);
#else
			b->x = b->p;
#endif
			i = find(b->p, &off); xi = find(b->x, &xoff);
			ev("[\"M\",%d,%d,%d,%ld,%d,%ld]", self, o->b, i < 0 ? -1 : maps[i].id, off, xi < 0 ? -1 : maps[xi].id, xoff);
		}
		pthread_mutex_unlock(&lk);
		if (b->p) fill(b, o->b);
		__sync_synchronize();
		b->state = b->p ? 1 : 2;
		break;
	case 'g':
		pthread_mutex_lock(&lk); ev("[\"g\",%d,%d]", self, o->b); pthread_mutex_unlock(&lk);
		plan = o->fault; nofile = 0;
		b->x = NULL;
		gen(o->a, (int)o->n, b);
		plan = 0;
		pthread_mutex_lock(&lk);
		if (!b->x) ev("[\"G\",%d,%d,0,0,0,0,0]", self, o->b);
		else {
			i = find(b->p, &off); xi = find(b->x, &xoff);
			ev("[\"G\",%d,%d,%d,%ld,%d,%ld,%ld]", self, o->b, i < 0 ? -1 : maps[i].id, off, xi < 0 ? -1 : maps[xi].id, xoff, (long)b->n);
		}
		pthread_mutex_unlock(&lk);
		__sync_synchronize();
		b->state = b->x ? 1 : 2;
		break;
	case 'r':
		if (b->state != 1 || !b->code) break;
		pthread_mutex_lock(&lk); ev("[\"run\",%d,%d,%d]", self, o->b, 1); pthread_mutex_unlock(&lk);
		ok = ((sljit_sw (SLJIT_FUNC *)(void))b->x)() == b->val;
		if (!ok) { pthread_mutex_lock(&lk); ev("[\"run\",%d,%d,%d]", self, o->b, 0); pthread_mutex_unlock(&lk); }
		break;
	case 'p':
		if (b->state != 1 || !b->code) break;
		sljit_set_const(b->caddr, SLJIT_MOV, o->a, b->eo);
		b->val = o->a;
		memcpy(b->copy, b->x, b->n);
		break;
	case 'f':
		while (b->state == 0) sched_yield();
		if (b->state != 1) break;
		b->state = 3;
		ok = intact(b, o->b);
		if (b->code) free(b->copy);
		pthread_mutex_lock(&lk); ev("[\"f\",%d,%d,%d]", self, o->b, ok); pthread_mutex_unlock(&lk);
		if (b->code) sljit_free_code(b->x, NULL); else sljit_free_exec(b->x);
		pthread_mutex_lock(&lk); ev("[\"F\",%d]", self); pthread_mutex_unlock(&lk);
		break;
	case 't':
		pthread_mutex_lock(&lk); ev("[\"t\",%d]", self); pthread_mutex_unlock(&lk);
		sljit_free_unused_memory_exec();
		pthread_mutex_lock(&lk); ev("[\"T\",%d]", self); pthread_mutex_unlock(&lk);
		break;
	}
	if (single && o->k != 'r') check_all(0);
}

static pthread_barrier_t bar;
static void *worker(void *a)
{
	self = (int)(size_t)a; active = 1;
	pthread_barrier_wait(&bar);
	for (int i = 0; i < nops; i++) if (ops[i].t == self) run_op(&ops[i], 0);
	return NULL;
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r");
	int first = atoi(argv[2]), num = 0, threads = 1, i;
	char line[256], id[128];
	struct op o;
	if (!f) return 3;
	setvbuf(stdout, NULL, _IONBF, 0);
	while (fgets(line, sizeof(line), f)) {
		if (line[0] == 'H') { sscanf(line, "H %127s %d", id, &threads); nops = 0; continue; }
		if (line[0] != 'E') {
			char *s = line, *w; int nw = 0; char *ws[8];
			memset(&o, 0, sizeof(o));
			for (w = strtok(s, " \n"); w && nw < 8; w = strtok(NULL, " \n")) ws[nw++] = w;
			o.t = atoi(ws[0]); o.k = ws[1][0]; o.b = nw > 2 ? atoi(ws[2]) : 0;
			i = 3;
			if (o.k == 'm') { o.size = ws[3][0] == '-' ? (size_t)0 - (size_t)atol(ws[3] + 1) : (size_t)atol(ws[3]); i = 4; }
			else if (o.k == 'g') { o.a = atol(ws[3]); o.n = atol(ws[4]); i = 5; }
			else if (o.k == 'p') { o.a = atol(ws[3]); i = 4; }
			if (nw > i + 1 && ws[i][0] == 'f') o.fault = atoi(ws[i + 1]);
			if (nops == MAXOP) return 3;
			ops[nops++] = o;
			continue;
		}
		if (num++ < first) continue;
		outn = 0; nextid = 0;
		memset(blk, 0, sizeof(blk));
		if (!out) out = malloc(outc = 65536);
		i = fds();
		if (threads == 1) {
			self = 0; active = 1;
			for (int j = 0; j < nops; j++) run_op(&ops[j], 1);
		} else {
			pthread_t th[MAXT + 1];
			pthread_barrier_init(&bar, NULL, (unsigned)threads);
			for (int j = 1; j <= threads; j++) pthread_create(&th[j], NULL, worker, (void *)(size_t)j);
			for (int j = 1; j <= threads; j++) pthread_join(th[j], NULL);
			ev("[\"joined\",0]");
			self = 0; active = 1;
		}
		for (int j = 1; j < MAXB; j++) if (blk[j].state == 1) { memset(&o, 0, sizeof(o)); o.k = 'f'; o.b = j; run_op(&o, threads == 1); }
		memset(&o, 0, sizeof(o)); o.k = 't'; run_op(&o, 1);
		active = 0;
		ev("[\"end\",0,%d]", fds() - i);
		printf("%s\t\"threads\":%d,\"word\":%d,\"kind\":\"%s\",\"ev\":[%.*s]\n", id, threads, (int)sizeof(void *),
#if defined(SLJIT_PROT_EXECUTABLE_ALLOCATOR) && SLJIT_PROT_EXECUTABLE_ALLOCATOR
			"prot",
#elif defined(SLJIT_WX_EXECUTABLE_ALLOCATOR) && SLJIT_WX_EXECUTABLE_ALLOCATOR
			"wx",
#else
			"rwx",
#endif
			(int)outn, out);
		nmaps = 0;
	}
	return 0;
}
