/* Records what the library says about itself and what happens when it is taken at its word.
   query SEED DEN: one line "head TAB ..." and lines "req<n> TAB ..." with the requests selected by SEED out of DEN
   (see spec/Query.tla). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "sljitLir.h"
typedef struct sljit_compiler C;
#ifndef SLJIT_CODE_TO_PTR
#define SLJIT_CODE_TO_PTR(c) (c)
#endif
static unsigned seed, den;
static int fpu, simd;
struct req { const char *kind; int a, b, c, mem; sljit_s32 type, x, y, z, m; sljit_sw mw; };
static const char *who = "?";

static sljit_s32 call(C *c, struct req *q, int test)
{
	switch (q->kind[0]) {
	case 'm': return sljit_emit_simd_mov(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->m, q->mw);
	case 'r': return sljit_emit_simd_replicate(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->m, q->mw);
	case 'l': return sljit_emit_simd_lane_mov(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->y, q->m, q->mw);
	case 'd': return sljit_emit_simd_lane_replicate(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->y, q->z);
	case 'e': return sljit_emit_simd_extend(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->m, q->mw);
	case 's': return sljit_emit_simd_sign(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->m, q->mw);
	case 'o': return sljit_emit_simd_op2(c, q->type | (test ? SLJIT_SIMD_TEST : 0), q->x, q->y, q->m, q->mw);
	case 'u': return sljit_emit_mem_update(c, q->type | (test ? SLJIT_MEM_SUPP : 0), q->x, q->m, q->mw);
	case 'f': return sljit_emit_fmem_update(c, q->type | (test ? SLJIT_MEM_SUPP : 0), q->x, q->m, q->mw);
	case 'A': return sljit_emit_atomic_load(c, q->type | (test ? SLJIT_ATOMIC_TEST : 0), q->x, q->y);
	case 'S': return sljit_emit_atomic_store(c, q->type | (test ? SLJIT_ATOMIC_TEST : 0), q->x, q->y, q->z);
	}
	abort();
}

static C *start(void)
{
	C *c = sljit_create_compiler(NULL);
	if (!c) { fprintf(stderr, "no memory\n"); exit(3); }
	if (sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 4 | (fpu ? SLJIT_ENTER_FLOAT(4) : 0) | (simd ? SLJIT_ENTER_VECTOR(4) : 0), 3, 64)) { fprintf(stderr, "enter\n"); exit(3); }
	return c;
}

struct res { int t, te, t2, r, grew, err, follow; uint64_t h; size_t n; };
/* how: 1 tests around the request, 2 the request, 4 flags alive across the test */
static struct res run(struct req *q, int how)
{
	struct res s; C *c = start();
	sljit_uw size; void *code; size_t i, n;
	memset(&s, 0, sizeof s);
	if (how & 4) sljit_emit_op2u(c, SLJIT_SUB | SLJIT_SET_Z | SLJIT_SET_LESS, SLJIT_S0, 0, SLJIT_S1, 0);
	if (how & 1) {
		size = c->size;
		s.t = call(c, q, 1);
		s.te = c->size != size || (c->error != 0 && s.t != SLJIT_ERR_BAD_ARGUMENT);
	}
	if (how & 4) {
		s.follow |= sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_EQUAL);
		s.follow |= sljit_emit_op_flags(c, SLJIT_MOV, SLJIT_R1, 0, SLJIT_LESS);
	}
	if (how & 2) {
		size = c->size;
		s.r = call(c, q, 0);
		s.grew = c->size != size;
		s.err = sljit_get_compiler_error(c);
	}
	if (how & 1) {
		size = c->size;
		s.t2 = call(c, q, 1);
		s.te |= c->size != size;
	}
	s.follow |= sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 0x123);
	s.follow |= sljit_emit_return_void(c);
	if (s.follow == 0) {
		code = sljit_generate_code(c, 0, NULL);
		if (!code) s.follow = 99;
		else {
			n = sljit_get_generated_code_size(c);
			s.n = n; s.h = 1469598103934665603ull;
			for (i = 0; i < n; i++) s.h = (s.h ^ ((uint8_t *)SLJIT_CODE_TO_PTR(code))[i]) * 1099511628211ull;
			sljit_free_code(code, NULL);
		}
	}
	sljit_free_compiler(c);
	return s;
}

static unsigned long nreq, nbad; static int col;
static void one(struct req *q, int canon)
{
	struct res a, b, c, f; int same, other = -1;
	uint64_t h = 1469598103934665603ull ^ seed; const unsigned char *p = (const unsigned char *)&q->a; size_t i;
	if (!canon) {
		for (i = 0; i < sizeof *q - ((char *)&q->a - (char *)q); i++) h = (h ^ p[i]) * 1099511628211ull;
		h = (h ^ (unsigned char)q->kind[0]) * 1099511628211ull;
		h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
		if (h % den) return;
	}
	b = run(q, 3);
	if (b.t == SLJIT_ERR_BAD_ARGUMENT && b.r == SLJIT_ERR_BAD_ARGUMENT) { nbad++; return; }
	a = run(q, 2);
	f = run(q, 5); c = run(q, 4);
	same = a.n == b.n && a.h == b.h && f.n == c.n && f.h == c.h;
	if (a.r) { struct res e = run(q, 0); same = same && a.n == e.n && a.h == e.h; }
	if (q->kind[0] == 'A' || q->kind[0] == 'S') {	/* the other half of the pair */
		struct req o = *q; struct res x;
		o.kind = q->kind[0] == 'A' ? "S" : "A"; o.type &= ~(SLJIT_SET_ATOMIC_STORED);
		if (o.kind[0] == 'S') { o.x = SLJIT_R1; o.y = SLJIT_S0; o.z = SLJIT_R2; } else { o.x = SLJIT_R1; o.y = SLJIT_S0; }
		x = run(&o, 1); other = x.t;
	}
	if (col == 0) printf("req%lu\t\"q\":[", nreq / 250);
	printf("%s[\"%s\",%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,\"%x %d %d %d %x %lx\"]", col ? "," : "", q->kind, q->a, q->b, q->c, q->mem,
		b.t, b.te | f.te, b.t2, b.r, b.grew, b.err, b.follow, f.follow, same, other,
		(unsigned)q->type, q->x, q->y, q->z, (unsigned)q->m, (unsigned long)q->mw);
	nreq++;
	if (++col == 250) { printf("]\n"); col = 0; }
	if (a.r != b.r) { fprintf(stderr, "not repeatable\n"); exit(3); }
}

static int canon_mov(int lg, int st)
{
	struct req q; struct res b;
	memset(&q, 0, sizeof q);
	q.kind = "m"; q.type = lg << 12 | (2 << 18) | st; q.x = SLJIT_VR0; q.m = SLJIT_MEM1(SLJIT_S0);
	b = run(&q, 3);
	return b.r;
}

int main(int argc, char **argv)
{
	static const sljit_s32 feat[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 50, 99, 100, 101, 102, 200, 201, 202, 1000, -1 };
	int i, j, k, l, m, n; struct req q; C *c; sljit_s32 rc; sljit_uw size;
	struct { sljit_s32 m; sljit_sw w; int k; } ops[] = {
		{ SLJIT_MEM1(SLJIT_S0), 0, 1 }, { SLJIT_MEM1(SLJIT_S0), 16, 1 }, { SLJIT_MEM1(SLJIT_S1), -8, 1 }, { SLJIT_MEM1(SLJIT_R1), 255, 1 }, { SLJIT_MEM1(SLJIT_S0), 256, 1 },
		{ SLJIT_MEM1(SLJIT_S0), -256, 1 }, { SLJIT_MEM1(SLJIT_S0), 4095, 1 }, { SLJIT_MEM1(SLJIT_S0), 0x8000, 1 }, { SLJIT_MEM1(SLJIT_S0), 0x1234567, 1 }, { SLJIT_MEM1(SLJIT_SP), 8, 1 },
		{ SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 0, 2 }, { SLJIT_MEM2(SLJIT_S0, SLJIT_R2), 1, 2 }, { SLJIT_MEM2(SLJIT_S0, SLJIT_S1), 2, 2 }, { SLJIT_MEM2(SLJIT_S0, SLJIT_R0), 3, 2 },
		{ SLJIT_MEM0(), 0x1000, 3 }, { SLJIT_MEM0(), 16, 3 }, { SLJIT_MEM0(), 0x12345678, 3 },
		{ SLJIT_IMM, 0, 4 }, { SLJIT_IMM, 1, 4 }, { SLJIT_IMM, -2, 4 }, { SLJIT_IMM, 0x1234, 4 },
		{ SLJIT_R0, 0, 0 }, { SLJIT_R3, 0, 0 }, { SLJIT_S0, 0, 0 }, { SLJIT_FR0, 0, 0 }, { SLJIT_FR1, 0, 0 }, { SLJIT_VR0, 0, 0 }, { SLJIT_VR2, 0, 0 } };
	int nops = sizeof ops / sizeof ops[0];
	static const sljit_s32 lanes[] = { 0, 1, 3, 7 };
	if (argc < 3) return 3;
	seed = (unsigned)atoi(argv[1]); den = (unsigned)atoi(argv[2]); if (!den) den = 1;
	fpu = sljit_has_cpu_feature(SLJIT_HAS_FPU) != 0; simd = sljit_has_cpu_feature(SLJIT_HAS_SIMD) != 0;

	/* the answers */
	printf("head\t\"feat\":[");
	for (i = 0; i < (int)(sizeof feat / sizeof feat[0]); i++) {
		int v = sljit_has_cpu_feature(feat[i]), v2 = sljit_has_cpu_feature(feat[i]);
		printf("%s[%d,%d,%d]", i ? "," : "", feat[i], v, v2);
	}
	printf("],\"cmp\":[");
	for (i = 0; i < 256; i++) printf("%s%d", i ? "," : "", sljit_cmp_info(i));
	printf("],\"cond\":[%d,%d],\"gp\":[", SLJIT_ORDERED_EQUAL, SLJIT_ORDERED_LESS_EQUAL);
	for (i = 1; i <= SLJIT_NUMBER_OF_REGISTERS + 1; i++) printf("%s%d", i > 1 ? "," : "", sljit_get_register_index(SLJIT_GP_REGISTER, i));
	printf("],\"fl\":[");
	for (i = 1; i <= SLJIT_NUMBER_OF_FLOAT_REGISTERS; i++) printf("%s%d", i > 1 ? "," : "", sljit_get_register_index(SLJIT_FLOAT_REGISTER, i));
	printf("],\"vec\":[");
	for (l = 3; l <= 6; l++) {
		printf("%s[", l > 3 ? "," : "");
		for (i = 1; i <= SLJIT_NUMBER_OF_VECTOR_REGISTERS; i++) printf("%s%d", i > 1 ? "," : "", sljit_get_register_index(l << 12, i));
		printf("]");
	}
	/* plain vector moves of every size: load and store */
	printf("],\"mov\":[");
	for (l = 3; l <= 6; l++) printf("%s[%d,%d]", l > 3 ? "," : "", simd ? canon_mov(l, 0) : 4, simd ? canon_mov(l, SLJIT_SIMD_STORE) : 4);
	/* what depends on one feature: barrier, floats, halves of doubles, plain atomic pair, virtual registers */
	c = start(); rc = sljit_emit_op0(c, SLJIT_MEMORY_BARRIER); sljit_free_compiler(c);
	printf("],\"barrier\":%d", rc);
	c = start(); size = c->size; rc = sljit_emit_op_src(c, SLJIT_PREFETCH_L1, SLJIT_MEM1(SLJIT_S0), 0); k = c->size != size; sljit_free_compiler(c);
	printf(",\"prefetch\":[%d,%d]", rc, k);
	c = sljit_create_compiler(NULL); rc = sljit_emit_enter(c, 0, SLJIT_ARGS0V(), 4 | SLJIT_ENTER_FLOAT(4), 3, 64);
	if (!rc) rc = sljit_emit_fop1(c, SLJIT_MOV_F64, SLJIT_FR1, 0, SLJIT_FR0, 0); sljit_free_compiler(c);
	printf(",\"fop\":%d", rc);
	if (fpu) { c = start(); rc = sljit_emit_fop1(c, SLJIT_MOV_F32, SLJIT_FR1, 0, SLJIT_F64_SECOND(SLJIT_FR0), 0); sljit_free_compiler(c); } else rc = 5;
	printf(",\"second\":[%d,%d]", rc, SLJIT_F64_SECOND(SLJIT_FR0) != SLJIT_FR0);
	memset(&q, 0, sizeof q); q.kind = "A"; q.type = SLJIT_MOV; q.x = SLJIT_R1; q.y = SLJIT_S0;
	printf(",\"aload\":%d", run(&q, 3).r);
	q.kind = "S"; q.x = SLJIT_R1; q.y = SLJIT_S0; q.z = SLJIT_R2;
	printf(",\"astore\":%d", run(&q, 3).r);
	c = sljit_create_compiler(NULL); rc = sljit_emit_enter(c, 0, SLJIT_ARGS0V(), SLJIT_NUMBER_OF_SCRATCH_REGISTERS, SLJIT_NUMBER_OF_SAVED_REGISTERS, 0);
	for (i = 1, m = 0; i <= SLJIT_NUMBER_OF_REGISTERS; i++) {	/* which registers cannot be a base register */
		C *d = sljit_create_compiler(NULL);
		sljit_emit_enter(d, 0, SLJIT_ARGS0V(), SLJIT_NUMBER_OF_SCRATCH_REGISTERS, SLJIT_NUMBER_OF_SAVED_REGISTERS, 0);
		printf("%s%d", i > 1 ? "," : ",\"base\":[", sljit_emit_op1(d, SLJIT_MOV, SLJIT_R0, 0, SLJIT_MEM1(i), 0));
		sljit_free_compiler(d);
	}
	sljit_free_compiler(c);
	printf("]\n");

	/* requests */
	if (simd) {
		for (l = 3; l <= 6; l++) for (m = 0; m < 6; m++) for (k = 0; k < 2; k++) for (i = 0; i < nops; i++) {
			sljit_s32 t = l << 12 | m << 18 | (k ? SLJIT_SIMD_FLOAT : 0);
			memset(&q, 0, sizeof q);
			q.a = l; q.b = m; q.mem = ops[i].k; q.m = ops[i].m; q.mw = ops[i].w;
			q.x = i & 1 ? SLJIT_VR0 : SLJIT_VR2;
			for (j = 0; j < 2; j++) for (n = 0; n < 7; n++) { q.kind = "m"; q.c = k * 2 + j; q.type = t | j | n << 24; one(&q, 0); }
			q.c = k * 2;
			q.kind = "r"; q.type = t; one(&q, 0);
			for (n = 0; n < 4; n++) for (j = 0; j < 16; j++) { q.kind = "l"; q.c = k * 2 + (j & 1); q.y = lanes[n]; q.type = t | (j & 7) | (j & 8 ? SLJIT_32 : 0); one(&q, 0); }
			q.c = k * 2; q.y = 0;
			for (n = 1; n < 4; n++) for (j = 0; j < 2; j++) { q.kind = "e"; q.type = t | n << 24 | j * SLJIT_SIMD_EXTEND_SIGNED; one(&q, 0); }
			q.kind = "s"; for (j = 0; j < 2; j++) { q.type = t | SLJIT_SIMD_STORE | (j ? SLJIT_32 : 0); one(&q, 0); }
			q.kind = "o"; q.y = i & 2 ? SLJIT_VR0 : SLJIT_VR2;
			for (n = 1; n < 5; n++) for (j = 0; j < 7; j++) { q.type = t | n | j << 24; one(&q, 0); }
			q.kind = "d"; if (ops[i].m == SLJIT_VR0 || ops[i].m == SLJIT_VR2) for (n = 0; n < 4; n++) { q.y = ops[i].m; q.z = lanes[n]; q.type = t; one(&q, 0); }
		}
	}
	for (i = 0; i < nops; i++) for (m = SLJIT_MOV; m <= SLJIT_MOV_P; m++) for (k = 0; k < 8; k++) {
		memset(&q, 0, sizeof q);
		q.kind = "u"; q.a = m; q.c = k; q.mem = ops[i].k; q.m = ops[i].m; q.mw = ops[i].w; q.x = m & 1 ? SLJIT_R0 : SLJIT_S2;
		q.type = m | (k & 1 ? SLJIT_MEM_STORE : 0) | (k & 2 ? SLJIT_MEM_POST : 0) | (k & 4 ? SLJIT_32 : 0);
		one(&q, 0);
	}
	if (fpu) for (i = 0; i < nops; i++) for (k = 0; k < 8; k++) {
		memset(&q, 0, sizeof q);
		q.kind = "f"; q.a = 0; q.c = k; q.mem = ops[i].k; q.m = ops[i].m; q.mw = ops[i].w; q.x = SLJIT_FR0;
		q.type = SLJIT_MOV_F64 | (k & 1 ? SLJIT_MEM_STORE : 0) | (k & 2 ? SLJIT_MEM_POST : 0) | (k & 4 ? SLJIT_32 : 0);
		one(&q, 0);
	}
	for (m = SLJIT_MOV; m <= SLJIT_MOV_P; m++) for (k = 0; k < 2; k++) for (j = 0; j < 3; j++) for (i = 0; i < 4; i++) {
		memset(&q, 0, sizeof q);
		q.a = m; q.b = j; q.c = i; q.type = m | (k ? SLJIT_32 : 0) | (j == 1 ? SLJIT_ATOMIC_USE_CAS : j == 2 ? SLJIT_ATOMIC_USE_LS : 0);
		q.kind = "A"; q.x = i & 1 ? SLJIT_R1 : SLJIT_R0; q.y = i & 2 ? SLJIT_S0 : SLJIT_R2; one(&q, 1);
		q.kind = "S"; q.x = i & 1 ? SLJIT_R1 : SLJIT_R0; q.y = i & 2 ? SLJIT_S0 : SLJIT_S1; q.z = SLJIT_R2; if (i & 1) q.type |= SLJIT_SET_ATOMIC_STORED; one(&q, 1);
	}
	if (col) printf("]\n");
	return 0;
}
