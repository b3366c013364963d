/* Threads which update shared cells with generated atomic load / store pairs.  atomicrun FILE FIRST
   line: id op mode variant threads cells ops spin seed
   op: MOV MOV_P MOV32 MOV_U32 MOV_U8 MOV_U16 ...; mode: d (default) c (compare and swap) l (load / store exclusive)
   variant: bits 0-1 register assignment, 2 single attempts (otherwise retried until stored), 3 no atomic load (mode c)
   Every stored value is different.  Output: the events of every thread, initial and final values. */
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <stdint.h>

typedef sljit_sw SW; typedef sljit_uw UW;
static const struct { const char *n; sljit_s32 op; int size; } ops[] = {
	{ "MOV", SLJIT_MOV, sizeof(SW) }, { "MOV_P", SLJIT_MOV_P, sizeof(SW) }, { "MOV32", SLJIT_MOV32, 4 }, { "MOV_U32", SLJIT_MOV_U32, 4 }, { "MOV_S32", SLJIT_MOV_S32, 4 },
	{ "MOV_U16", SLJIT_MOV_U16, 2 }, { "MOV_S16", SLJIT_MOV_S16, 2 }, { "MOV_U8", SLJIT_MOV_U8, 1 }, { "MOV_S8", SLJIT_MOV_S8, 1 },
	{ "MOV32_U16", SLJIT_MOV32_U16, 2 }, { "MOV32_U8", SLJIT_MOV32_U8, 1 } };
#define MAXT 9
#define MAXOPS 4096
struct ev { uint64_t old, new_; int cell, ok; };
struct thr { int no; struct ev *ev; int n; long plain; };
static union { uint64_t align; unsigned char b[256]; } area __attribute__((aligned(256)));
#define BASE 64
static volatile int go, ready;
static int size, ncell, nops, single, nthr; static unsigned seed;
static volatile int running;
static UW (SLJIT_FUNC *fn)(UW cell, UW val, UW *out);

static uint64_t get(int c) { uint64_t v = 0; unsigned char *p = area.b + BASE + c * size; if (size == 8) memcpy(&v, p, 8); else if (size == 4) v = *(uint32_t*)p; else if (size == 2) v = *(uint16_t*)p; else v = *p; return v; }
static uint64_t mask(void) { return size == 8 ? ~(uint64_t)0 : ((uint64_t)1 << 8 * size) - 1; }
static uint64_t value(int k) { return ((uint64_t)k * 0x9E3779B97F4A7C15ull + seed) & mask(); }   /* different for different k < 2^bits */
static void *worker(void *a)
{
	struct thr *t = a; int i; unsigned r = seed * 31 + (unsigned)t->no * 7 + 1; UW out[2];
	__sync_fetch_and_add(&ready, 1);
	while (!go) sched_yield();
	__sync_fetch_and_add(&ready, 1);
	while (ready < 2 * (nthr + 1)) ;
	for (i = 0; i < nops; i++) {
		struct ev *e = t->ev + i;
		r = r * 1103515245 + 12345;
		e->cell = (int)((r >> 16) % (unsigned)ncell);
		e->new_ = value(1 + t->no * nops + i);
		out[0] = 1;
		e->old = (uint64_t)fn((UW)(area.b + BASE + e->cell * size), (UW)e->new_, out) & mask();
		e->ok = (int)out[0];
	}
	t->n = i;
	__sync_fetch_and_sub(&running, 1);
	return NULL;
}
/* plain stores to the bytes around the cells */
static void *plain(void *a)
{
	struct thr *t = a; volatile unsigned char *lo = area.b + BASE - 1, *hi = area.b + BASE + ncell * size; unsigned char v = 0;
	__sync_fetch_and_add(&ready, 1);
	while (!go) sched_yield();
	__sync_fetch_and_add(&ready, 1);
	do {
		int i;
		v++; *lo = v; *hi = (unsigned char)~v;
		for (i = 0; i < 20 && running; i++) if (*lo != v || *hi != (unsigned char)~v) t->plain++;
	} while (running);
	if (*lo != v || *hi != (unsigned char)~v) t->plain++;
	return NULL;
}

static void *generate(sljit_s32 op, char mode, int variant, int spin, int *unsup)
{
	static const sljit_s32 regs[4][4] = { /* loaded, expected, source, address; -1: as given */
		{ SLJIT_R0, SLJIT_R0, SLJIT_S1, SLJIT_S0 }, { SLJIT_R1, SLJIT_R1, SLJIT_R0, SLJIT_R2 }, { SLJIT_R0, SLJIT_R3, SLJIT_S1, SLJIT_S0 }, { SLJIT_R3, SLJIT_R1, SLJIT_R3, SLJIT_R0 } };
	const sljit_s32 *q = regs[variant & 3];
	struct sljit_compiler *c = sljit_create_compiler(NULL);
	struct sljit_label *top, *l; struct sljit_jump *j; void *code = NULL;
	sljit_s32 m = mode == 'c' ? SLJIT_ATOMIC_USE_CAS : mode == 'l' ? SLJIT_ATOMIC_USE_LS : 0, r, s32 = op & SLJIT_32 || op == SLJIT_MOV32, mov = s32 ? SLJIT_MOV32 : SLJIT_MOV;
	sljit_s32 cnt = q[0] != SLJIT_R2 && q[1] != SLJIT_R2 && q[2] != SLJIT_R2 && q[3] != SLJIT_R2 ? SLJIT_R2 : SLJIT_S2;
	*unsup = 0;
	sljit_emit_enter(c, 0, SLJIT_ARGS3(W, W, W, P), 5, 3, sizeof(SW));
	if (!sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)) { *unsup = 1; sljit_free_compiler(c); return NULL; }
	sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_SP), 0, SLJIT_S2, 0);
	if (q[3] != SLJIT_S0) sljit_emit_op1(c, SLJIT_MOV, q[3], 0, SLJIT_S0, 0);
	top = sljit_emit_label(c);
	if (spin) sljit_emit_op1(c, SLJIT_MOV, cnt, 0, SLJIT_IMM, spin);
	if (variant & 8 && mode == 'c') {
		r = sljit_emit_atomic_load(c, op | m | SLJIT_ATOMIC_TEST, q[0], q[3]);
		if (r == 0) sljit_emit_op1(c, op, q[0], 0, SLJIT_MEM1(q[3]), 0);
	} else
		r = sljit_emit_atomic_load(c, op | m, q[0], q[3]);
	if (spin && r == 0) {
		l = sljit_emit_label(c);
		sljit_emit_op2(c, SLJIT_SUB | SLJIT_SET_Z, cnt, 0, cnt, 0, SLJIT_IMM, 1);
		sljit_set_label(sljit_emit_jump(c, SLJIT_NOT_ZERO), l);
	}
	if (r == 0 && variant & 4) sljit_emit_op1(c, mov, SLJIT_S2, 0, q[0], 0);   /* the expected value is undefined after a failure */
	if (r == 0 && q[1] != q[0]) sljit_emit_op1(c, mov, q[1], 0, q[0], 0);
	if (r == 0 && q[2] != SLJIT_S1) sljit_emit_op1(c, mov, q[2], 0, SLJIT_S1, 0);
	if (sljit_emit_atomic_store(c, op | m | SLJIT_SET_ATOMIC_STORED, q[2], q[3], q[1]) != r) *unsup = 2;
	if (r == SLJIT_ERR_UNSUPPORTED) { if (!*unsup) *unsup = 1; sljit_free_compiler(c); return NULL; }
	/* the expected value is kept when it was stored, otherwise the loaded value must be saved before */
	if (variant & 4) {
		sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_S1, 0, SLJIT_ATOMIC_STORED);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_S0, 0, SLJIT_MEM1(SLJIT_SP), 0);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S0), 0, SLJIT_S1, 0);
		sljit_emit_op1(c, s32 ? SLJIT_MOV_U32 : SLJIT_MOV, SLJIT_R0, 0, SLJIT_S2, 0);
		sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	} else {
		j = sljit_emit_jump(c, SLJIT_ATOMIC_NOT_STORED);
		sljit_set_label(j, top);
		sljit_emit_op1(c, s32 ? SLJIT_MOV_U32 : SLJIT_MOV, SLJIT_R0, 0, q[1], 0);
		sljit_emit_return(c, SLJIT_MOV, SLJIT_R0, 0);
	}
	code = sljit_generate_code(c, 0, NULL);
	if (!code) *unsup = 3 + sljit_get_compiler_error(c);
	sljit_free_compiler(c);
	return code;
}

int main(int argc, char **argv)
{
	char *text, *s, id[100], opn[32], mode; FILE *f; long n; int no = 0, first = atoi(argv[2]), variant, spin, k, i, unsup;
	static struct ev evs[MAXT][MAXOPS]; (void)argc;
	f = fopen(argv[1], "r"); fseek(f, 0, SEEK_END); n = ftell(f); rewind(f);
	text = malloc((size_t)n + 1); n = (long)fread(text, 1, (size_t)n, f); text[n] = 0;
	for (s = strtok(text, "\n"); s; s = strtok(NULL, "\n")) {
		pthread_t th[MAXT + 1]; struct thr t[MAXT + 1]; uint64_t init[16]; void *code; int o = -1, bad = 0;
		if (sscanf(s, "%99s %31s %c %d %d %d %d %d %u", id, opn, &mode, &variant, &nthr, &ncell, &nops, &spin, &seed) != 9) { fprintf(stderr, "bad line\n"); return 3; }
		if (no++ < first) continue;
		for (k = 0; k < (int)(sizeof ops / sizeof *ops); k++) if (!strcmp(ops[k].n, opn)) o = k;
		if (o < 0 || nthr > MAXT || nops > MAXOPS || ncell > 16) { fprintf(stderr, "bad test\n"); return 3; }
		size = ops[o].size; single = variant & 4;
		code = generate(ops[o].op, mode, variant, spin, &unsup);
		if (!code) { printf("%s\t\"sup\":%d,\"init\":[],\"final\":[],\"th\":[],\"plain\":0,\"edge\":1\n", id, unsup == 1 ? 0 : -unsup); fflush(stdout); continue; }
		{ UW (SLJIT_FUNC *g)(UW, UW, UW *); void *v = code; memcpy(&g, &v, sizeof v); fn = g; }
		for (k = 0; k < 256; k++) area.b[k] = (unsigned char)(k * 37 + 11);
		for (k = 0; k < ncell; k++) {      /* value 0: no thread stores it */
			uint64_t v = value(0); unsigned char *p = area.b + BASE + k * size;
			if (size == 8) *(uint64_t*)p = v; else if (size == 4) *(uint32_t*)p = (uint32_t)v; else if (size == 2) *(uint16_t*)p = (uint16_t)v; else *p = (unsigned char)v;
			init[k] = get(k);
		}
		go = ready = 0; running = nthr; memset(t, 0, sizeof t);
		for (k = 0; k < nthr; k++) { t[k].no = k; t[k].ev = evs[k]; pthread_create(&th[k], NULL, worker, &t[k]); }
		pthread_create(&th[nthr], NULL, plain, &t[nthr]);
		while (ready < nthr + 1) sched_yield();
		go = 1;
		for (k = 0; k <= nthr; k++) pthread_join(th[k], NULL);
		for (k = 0; k < 256; k++) if ((k < BASE - 1 || k > BASE + ncell * size) && area.b[k] != (unsigned char)(k * 37 + 11)) bad = 1;
		printf("%s\t\"sup\":1,\"init\":[", id);
		for (k = 0; k < ncell; k++) printf("%s\"%llx\"", k ? "," : "", (unsigned long long)init[k]);
		printf("],\"final\":[");
		for (k = 0; k < ncell; k++) printf("%s\"%llx\"", k ? "," : "", (unsigned long long)get(k));
		printf("],\"plain\":%ld,\"edge\":%d,\"th\":[", t[nthr].plain > 1000 ? 1000 : t[nthr].plain, !bad);
		for (k = 0; k < nthr; k++) {
			printf("%s[", k ? "," : "");
			for (i = 0; i < t[k].n; i++) printf("%s[%d,\"%llx\",\"%llx\",%d]", i ? "," : "", evs[k][i].cell + 1, (unsigned long long)evs[k][i].old, (unsigned long long)evs[k][i].new_, evs[k][i].ok);
			printf("]");
		}
		printf("]\n"); fflush(stdout);
		sljit_free_code(code, NULL);
	}
	return 0;
}
