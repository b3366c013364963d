/* Program interpreter: turns the text form of a LIR program (see tools/lirgen.py)
   into calls of the sljit API.  Shared by all LIR drivers. */
#ifndef LIR_H
#define LIR_H
#define _GNU_SOURCE
#include "sljitLir.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>

typedef sljit_sw SW;
typedef sljit_uw UW;
#define WB ((int)sizeof(sljit_sw))

#define D_BASE 0x5a001000UL
#define D_SIZE 0x3000
#define D_SEED 17
#if (defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
#define H_BASE 0x1234561000UL
#define H_SIZE 0x2000
#endif
#define H_SEED 91
#define OBS_BASE 0x5b000000UL   /* observation slots */
#define OBS_SLOT 2048
#define OBS_NUM 128
#define INI_BASE 0x5b100000UL   /* initial register contents */
#define SLOT_ADDR (INI_BASE + 0x8000)   /* slot of the next call of a C function */
#define PAD_BASE 0x5c000000UL   /* code far away */
#define PAT(o, s) ((uint8_t)((o) * 167 + ((o) >> 8) * 13 + (s)))

#define MAXTOK 24
#define MAXINS 4096
#define MAXLAB 512
#define MAXJMP 4096
#define MAXROB 64

struct ins { char *tok[MAXTOK]; int n; };
struct prog {
	char id[64];
	int sc, sv, fsc, fsv, vsc, vsv, local, opts, argt;
	UW init[64]; int ninit;
	uint64_t finit[64]; int nfinit;
	uint8_t vinit[64][64]; int nvinit, vsize;
	int vmap[64], nvmap;    /* the vector registers observed */
	struct ins ins[MAXINS]; int nins;
	char mask[OBS_NUM][72]; char kind[OBS_NUM]; int nobs;
	char ret; /* '-', 'w', '4', 'd', 'f' */
	int wantaddr, wantlb, shared, calls;
	struct ins patch[128]; int npatch;      /* modifications of the running code */
	struct { int lab, where; UW off, tag, back; void *code; } pad[8]; int npad;
};
struct jrec { struct sljit_jump *j; int lab; int op; };
struct ectx {
	struct sljit_compiler *c;
	struct prog *p;
	struct sljit_label *lab[MAXLAB];
	struct jrec j[MAXJMP]; int nj;
	struct sljit_const *k[256]; int nk;
	int sc, sv, fsc, fsv;   /* current declarations */
	struct sljit_read_only_buffer robs[MAXROB]; int nrob;
	int vtype;
	int skip[64], nskip;    /* optional instructions which are not supported */
};

struct nv { const char *n; SW v; };
#define N(x) { #x, SLJIT_##x }
static const struct nv opnames[] = {
	N(BREAKPOINT), N(NOP), N(LMUL_UW), N(LMUL_SW), N(DIVMOD_UW), N(DIVMOD_U32), N(DIVMOD_SW), N(DIVMOD_S32),
	N(DIV_UW), N(DIV_U32), N(DIV_SW), N(DIV_S32), N(MEMORY_BARRIER), N(ENDBR), N(SKIP_FRAMES_BEFORE_RETURN),
	N(MOV), N(MOV_U8), N(MOV32_U8), N(MOV_S8), N(MOV32_S8), N(MOV_U16), N(MOV32_U16), N(MOV_S16), N(MOV32_S16),
	N(MOV_U32), N(MOV_S32), N(MOV32), N(MOV_P), N(CLZ), N(CLZ32), N(CTZ), N(CTZ32), N(REV), N(REV32),
	N(REV_U16), N(REV32_U16), N(REV_S16), N(REV32_S16), N(REV_U32), N(REV_S32),
	N(ADD), N(ADD32), N(ADDC), N(ADDC32), N(SUB), N(SUB32), N(SUBC), N(SUBC32), N(MUL), N(MUL32), N(AND), N(AND32),
	N(OR), N(OR32), N(XOR), N(XOR32), N(SHL), N(SHL32), N(MSHL), N(MSHL32), N(LSHR), N(LSHR32), N(MLSHR), N(MLSHR32),
	N(ASHR), N(ASHR32), N(MASHR), N(MASHR32), N(ROTL), N(ROTL32), N(ROTR), N(ROTR32), N(MULADD), N(MULADD32),
	N(MOV_F64), N(MOV_F32), N(CONV_F64_FROM_F32), N(CONV_F32_FROM_F64), N(CONV_SW_FROM_F64), N(CONV_SW_FROM_F32),
	N(CONV_S32_FROM_F64), N(CONV_S32_FROM_F32), N(CONV_F64_FROM_SW), N(CONV_F32_FROM_SW), N(CONV_F64_FROM_S32),
	N(CONV_F32_FROM_S32), N(CONV_F64_FROM_UW), N(CONV_F32_FROM_UW), N(CONV_F64_FROM_U32), N(CONV_F32_FROM_U32),
	N(CMP_F64), N(CMP_F32), N(NEG_F64), N(NEG_F32), N(ABS_F64), N(ABS_F32), N(ADD_F64), N(ADD_F32), N(SUB_F64), N(SUB_F32),
	N(MUL_F64), N(MUL_F32), N(DIV_F64), N(DIV_F32), N(COPYSIGN_F64), N(COPYSIGN_F32),
	N(COPY_TO_F64), N(COPY32_TO_F32), N(COPY_FROM_F64), N(COPY32_FROM_F32),
	N(FAST_RETURN), N(SKIP_FRAMES_BEFORE_FAST_RETURN), N(PREFETCH_L1), N(PREFETCH_L2), N(PREFETCH_L3), N(PREFETCH_ONCE),
	N(FAST_ENTER), N(GET_RETURN_ADDRESS), N(MOV_ADDR), N(MOV_ABS_ADDR), N(ADD_ABS_ADDR),
	/* option bits */
	N(32), N(SET_Z), { "Z", SLJIT_SET_Z }, { "-", 0 },
	{ "F.LESS", SLJIT_SET_LESS }, { "F.GREATER", SLJIT_SET_GREATER }, { "F.SIG_LESS", SLJIT_SET_SIG_LESS },
	{ "F.SIG_GREATER", SLJIT_SET_SIG_GREATER }, { "F.OVERFLOW", SLJIT_SET_OVERFLOW }, { "F.CARRY", SLJIT_SET_CARRY },
	{ "F.ATOMIC_STORED", SLJIT_SET_ATOMIC_STORED },
	{ "F.F_EQUAL", SLJIT_SET_F_EQUAL }, { "F.F_LESS", SLJIT_SET_F_LESS }, { "F.F_GREATER", SLJIT_SET_F_GREATER },
	{ "F.UNORDERED", SLJIT_SET_UNORDERED }, { "F.ORDERED_EQUAL", SLJIT_SET_ORDERED_EQUAL },
	{ "F.ORDERED_LESS", SLJIT_SET_ORDERED_LESS }, { "F.ORDERED_GREATER", SLJIT_SET_ORDERED_GREATER },
	{ "F.UNORDERED_OR_EQUAL", SLJIT_SET_UNORDERED_OR_EQUAL }, { "F.UNORDERED_OR_LESS", SLJIT_SET_UNORDERED_OR_LESS },
	{ "F.UNORDERED_OR_GREATER", SLJIT_SET_UNORDERED_OR_GREATER },
	{ "F.", 0 },
	{ "CF.32", SLJIT_CURRENT_FLAGS_32 }, { "CF.ADD", SLJIT_CURRENT_FLAGS_ADD }, { "CF.SUB", SLJIT_CURRENT_FLAGS_SUB },
	{ "CF.COMPARE", SLJIT_CURRENT_FLAGS_COMPARE }, { "CF.OP2CMPZ", SLJIT_CURRENT_FLAGS_OP2CMPZ },
	{ "NZ", SLJIT_SHIFT_INTO_NON_ZERO }, { "IFZ", SLJIT_JUMP_IF_ZERO }, { "IFNZ", SLJIT_JUMP_IF_NON_ZERO },
	N(MEM_LOAD), N(MEM_STORE), N(MEM_UNALIGNED), N(MEM_ALIGNED_16), N(MEM_ALIGNED_32), N(MEM_PRE), N(MEM_POST), N(MEM_SUPP),
	N(REWRITABLE_JUMP), N(CALL_RETURN),
	/* conditions and jump types */
	N(EQUAL), N(NOT_EQUAL), N(ZERO), N(NOT_ZERO), N(LESS), N(GREATER_EQUAL), N(GREATER), N(LESS_EQUAL), N(SIG_LESS), N(SIG_GREATER_EQUAL),
	N(SIG_GREATER), N(SIG_LESS_EQUAL), N(OVERFLOW), N(NOT_OVERFLOW), N(CARRY), N(NOT_CARRY), N(ATOMIC_STORED), N(ATOMIC_NOT_STORED),
	N(F_EQUAL), N(F_NOT_EQUAL), N(F_LESS), N(F_GREATER_EQUAL), N(F_GREATER), N(F_LESS_EQUAL), N(UNORDERED), N(ORDERED),
	N(ORDERED_EQUAL), N(UNORDERED_OR_NOT_EQUAL), N(ORDERED_LESS), N(UNORDERED_OR_GREATER_EQUAL), N(ORDERED_GREATER),
	N(UNORDERED_OR_LESS_EQUAL), N(UNORDERED_OR_EQUAL), N(ORDERED_NOT_EQUAL), N(UNORDERED_OR_LESS), N(ORDERED_GREATER_EQUAL),
	N(UNORDERED_OR_GREATER), N(ORDERED_LESS_EQUAL), N(JUMP), N(FAST_CALL), N(CALL), N(CALL_REG_ARG),
	/* simd */
	N(SIMD_LOAD), N(SIMD_STORE), N(SIMD_FLOAT), N(SIMD_TEST), N(SIMD_REG_64), N(SIMD_REG_128), N(SIMD_REG_256), N(SIMD_REG_512),
	N(SIMD_ELEM_8), N(SIMD_ELEM_16), N(SIMD_ELEM_32), N(SIMD_ELEM_64), N(SIMD_ELEM_128), N(SIMD_ELEM_256),
	N(SIMD_MEM_UNALIGNED), N(SIMD_MEM_ALIGNED_16), N(SIMD_MEM_ALIGNED_32), N(SIMD_MEM_ALIGNED_64), N(SIMD_MEM_ALIGNED_128),
	N(SIMD_MEM_ALIGNED_256), N(SIMD_MEM_ALIGNED_512), N(SIMD_LANE_ZERO), N(SIMD_LANE_SIGNED), N(SIMD_EXTEND_SIGNED),
	N(SIMD_EXTEND_16), N(SIMD_EXTEND_32), N(SIMD_EXTEND_64), N(SIMD_OP2_AND), N(SIMD_OP2_OR), N(SIMD_OP2_XOR), N(SIMD_OP2_SHUFFLE),
	/* atomic */
	N(ATOMIC_TEST), N(ATOMIC_USE_CAS), N(ATOMIC_USE_LS),
	{ NULL, 0 }
};
#undef N

static void machinery(const char *what, const char *x)
{
	fprintf(stderr, "HARNESS-ERROR %s %s\n", what, x ? x : "");
	exit(3);
}
/* '+'-separated list of names */
#define HB 2048
static int hidx[HB], hinit;
static unsigned hs(const char *s, int n) { unsigned h = 7; while (n--) h = h * 31 + (unsigned char)*s++; return h % HB; }
static SW names(const char *s)
{
	SW v = 0;
	if (!hinit) {
		int i; unsigned h;
		memset(hidx, -1, sizeof hidx);
		for (i = 0; opnames[i].n; i++) { h = hs(opnames[i].n, (int)strlen(opnames[i].n)); while (hidx[h] >= 0) h = (h + 1) % HB; hidx[h] = i; }
		hinit = 1;
	}
	while (*s) {
		int l = (int)strcspn(s, "+"); unsigned h = hs(s, l);
		if (s[0] == '0' && s[1] == 'x') { v |= (SW)strtoull(s, NULL, 16); s += l; if (*s == '+') s++; continue; }
		for (;; h = (h + 1) % HB) {
			if (hidx[h] < 0) machinery("unknown name", s);
			if (!strncmp(opnames[hidx[h]].n, s, l) && !opnames[hidx[h]].n[l]) { v |= opnames[hidx[h]].v; break; }
		}
		s += l; if (*s == '+') s++;
	}
	return v;
}
static SW hexw(const char *s) { return (SW)strtoull(s, NULL, 16); }

struct opd { sljit_s32 r; SW w; };
static sljit_s32 regof(const char *s, char **e)
{
	int n = (int)strtol(s + 1, e, 10);
	switch (*s) {
	case 'r': return SLJIT_R(n);
	case 's': return SLJIT_S(n);
	case 'f': return SLJIT_FR(n);
	case 'g': return SLJIT_FS(n);
	case 'v': return SLJIT_VR(n);
	case 'w': return SLJIT_VS(n);
	case 'p': return SLJIT_SP;
	case 'q': return n;          /* raw register number */
	case 't': return SLJIT_TMP_REGISTER_BASE + n;
	case 'u': return SLJIT_TMP_FREGISTER_BASE + n;
	case 'x': return SLJIT_F64_SECOND(SLJIT_FR(n));
	}
	machinery("bad register", s);
	return 0;
}
static struct opd opd(const char *s)
{
	struct opd o; char *e; sljit_s32 a, b;
	o.r = 0; o.w = 0;
	switch (*s) {
	case '#': o.r = SLJIT_IMM; o.w = hexw(s + 1); break;
	case '@': o.r = SLJIT_MEM0(); o.w = hexw(s + 1); break;
	case 'L': o.r = SLJIT_MEM1(SLJIT_SP); o.w = hexw(s + 1); break;
	case 'M': a = regof(s + 1, &e); o.r = SLJIT_MEM1(a); o.w = hexw(e + 1); break;
	case 'N': a = regof(s + 1, &e); b = regof(e + 1, &e); o.r = SLJIT_MEM2(a, b); o.w = strtol(e + 1, NULL, 10); break;
	case 'P': a = regof(s + 1, &e); b = regof(e + 1, &e); o.r = SLJIT_REG_PAIR(a, b); break;
	case 'X': o.r = (sljit_s32)strtol(s + 1, &e, 16); o.w = *e == ':' ? hexw(e + 1) : 0; break; /* raw operand */
	case '-': break;
	default: o.r = regof(s, &e);
	}
	return o;
}
static int argtype(const char *s)   /* e.g. "w:wWd4" : return type and arguments, upper case = scratch form */
{
	int t = 0, i;
	if (s[0] == '0' && s[1] == 'x') return (int)strtoul(s, NULL, 16);
	for (i = 0; *s; s++) {
		int k;
		if (*s == ':') { i = 1; continue; }
		switch (*s) {
		case 'v': k = SLJIT_ARG_TYPE_RET_VOID; break;
		case 'w': k = SLJIT_ARG_TYPE_W; break;
		case 'W': k = SLJIT_ARG_TYPE_W_R; break;
		case '4': k = SLJIT_ARG_TYPE_32; break;
		case '5': k = SLJIT_ARG_TYPE_32_R; break;
		case 'p': k = SLJIT_ARG_TYPE_P; break;
		case 'P': k = SLJIT_ARG_TYPE_P_R; break;
		case 'd': k = SLJIT_ARG_TYPE_F64; break;
		case 'f': k = SLJIT_ARG_TYPE_F32; break;
		default: machinery("arg type", s); k = 0;
		}
		if (i == 0) t |= SLJIT_ARG_RETURN(k); else t |= SLJIT_ARG_VALUE(k, i++);
	}
	return t;
}
/* programs of several functions: saved registers are numbered backwards from the last one */
static sljit_s32 nthreg(struct ectx *x, int i)
{
	if (x->p->calls) return i < x->sc ? SLJIT_R(i) : SLJIT_S(x->p->sc + x->p->sv - 1 - i);
	return i < x->p->sc ? SLJIT_R(i) : SLJIT_S(i - x->p->sc);
}
static sljit_s32 nthfreg(struct ectx *x, int i)
{
	if (x->p->calls) return i < x->fsc ? SLJIT_FR(i) : SLJIT_FS(x->p->fsc + x->p->fsv - 1 - i);
	return i < x->p->fsc ? SLJIT_FR(i) : SLJIT_FS(i - x->p->fsc);
}
static sljit_s32 nthvreg(struct ectx *x, int i) { if (i < x->p->nvmap) return SLJIT_VR(x->p->vmap[i]); return i < x->p->vsc ? SLJIT_VR(i) : SLJIT_VS(i - x->p->vsc); }

/* a pointer is returned exactly when there is no error */
static sljit_s32 ptr_result(struct ectx *x, const void *p)
{
	sljit_s32 e = sljit_get_compiler_error(x->c);
	return (p != NULL) == (e == 0) ? e : 3020;
}
static sljit_s32 addjump(struct ectx *x, struct sljit_jump *j, const char *lab, int op)
{
	if (x->nj >= MAXJMP) machinery("too many jumps", lab);
	x->j[x->nj].j = j; x->j[x->nj].lab = atoi(lab); x->j[x->nj].op = op; x->nj++;
	return ptr_result(x, j);
}
#ifdef LIR_CALLS
static void *call_target(const char *name);
static void *crt(int k);
static void patcher(SW n);
#endif
/* address of the observation slot k */
#define OBSADDR(k) ((SW)(OBS_BASE + (UW)(k) * OBS_SLOT))
static int vtype_of(int size) { return size == 8 ? SLJIT_SIMD_REG_64 : size == 16 ? SLJIT_SIMD_REG_128 : size == 32 ? SLJIT_SIMD_REG_256 : SLJIT_SIMD_REG_512; }

/* a register move encoded by hand from the machine register numbers */
static sljit_s32 custom_move(struct sljit_compiler *c, sljit_s32 type, sljit_s32 dst, sljit_s32 src)
{
	sljit_s32 d = sljit_get_register_index(type, dst), s = sljit_get_register_index(type, src);
	uint32_t u; uint8_t b[8]; int n = 0, f = type == SLJIT_FLOAT_REGISTER;
	if (d < 0 || s < 0) return 3030;
	(void)u; (void)b; (void)n;
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
	if (f) b[n++] = 0x66;
#if (defined SLJIT_CONFIG_X86_64 && SLJIT_CONFIG_X86_64)
	if (f) b[n++] = (uint8_t)(0x40 | (d >> 3 << 2) | (s >> 3)); else b[n++] = (uint8_t)(0x48 | (s >> 3 << 2) | (d >> 3));
#endif
	if (f) { b[n++] = 0x0f; b[n++] = 0x28; b[n++] = (uint8_t)(0xc0 | (d & 7) << 3 | (s & 7)); }
	else { b[n++] = 0x89; b[n++] = (uint8_t)(0xc0 | (s & 7) << 3 | (d & 7)); }
	return sljit_emit_op_custom(c, b, (sljit_u32)n);
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
	if (f) { b[n++] = 0x28; b[n++] = (uint8_t)(d << 4 | s); } else { b[n++] = 0xb9; b[n++] = 0x04; b[n++] = 0; b[n++] = (uint8_t)(d << 4 | s); }
	return sljit_emit_op_custom(c, b, (sljit_u32)n);
#else
#if (defined SLJIT_CONFIG_ARM_64 && SLJIT_CONFIG_ARM_64)
	u = f ? 0x1e604000u | (uint32_t)s << 5 | (uint32_t)d : 0xaa0003e0u | (uint32_t)s << 16 | (uint32_t)d;
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2)
	if (f) u = 0xeeb00b40u | (uint32_t)(d & 15) << 12 | (uint32_t)(d >> 4) << 22 | (uint32_t)(s & 15) | (uint32_t)(s >> 4) << 5;
	else if (dst != src) { uint16_t h = (uint16_t)(0x4600 | (s << 3) | (d & 7) | (d >> 3 << 7)); return sljit_emit_op_custom(c, &h, 2); }
	else u = 0xea4f0000u | (uint32_t)d << 8 | (uint32_t)s;
#elif (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32)
	u = f ? 0xeeb00b40u | (uint32_t)(d & 15) << 12 | (uint32_t)(d >> 4) << 22 | (uint32_t)(s & 15) | (uint32_t)(s >> 4) << 5 : 0xe1a00000u | (uint32_t)d << 12 | (uint32_t)s;
#elif (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
	u = f ? 0x22000053u | (uint32_t)s << 20 | (uint32_t)s << 15 | (uint32_t)d << 7 : 0x13u | (uint32_t)s << 15 | (uint32_t)d << 7;
#elif (defined SLJIT_CONFIG_MIPS && SLJIT_CONFIG_MIPS)
	u = f ? 0x46200006u | (uint32_t)s << 11 | (uint32_t)d << 6 : 0x25u | (uint32_t)s << 21 | (uint32_t)d << 11;
#elif (defined SLJIT_CONFIG_LOONGARCH && SLJIT_CONFIG_LOONGARCH)
	u = f ? 0x01149800u | (uint32_t)s << 5 | (uint32_t)d : 0x00150000u | (uint32_t)s << 5 | (uint32_t)d;
#elif (defined SLJIT_CONFIG_PPC && SLJIT_CONFIG_PPC)
	u = f ? 0xfc000090u | (uint32_t)d << 21 | (uint32_t)s << 11 : 0x7c000378u | (uint32_t)s << 21 | (uint32_t)d << 16 | (uint32_t)s << 11;
#else
#error "unknown processor"
#endif
	return sljit_emit_op_custom(c, &u, 4);
#endif
}

/* one instruction; returns the API's return code (or error code of the compiler for pointers) */
static sljit_s32 emit_ins(struct ectx *x, struct ins *in)
{
	struct sljit_compiler *c = x->c;
	struct prog *p = x->p;
	char **t = in->tok;
	struct opd a, b, d, e;
	int i, k;
#define OP(n) (!strcmp(t[0], n))
	switch (t[0][0]) {
	case 'a':
		if (OP("alabel")) { /* alabel id align nbuf sizes... */
			int nb = atoi(t[3]);
			struct sljit_read_only_buffer *rob = x->robs + x->nrob;
			if (x->nrob + nb > MAXROB) machinery("too many buffers", "");
			for (i = 0; i < nb; i++) { rob[i].size = (UW)atol(t[4 + i]); rob[i].next = i + 1 < nb ? &rob[i + 1] : NULL; rob[i].u.label = (struct sljit_label *)1; }
			x->lab[atoi(t[1])] = sljit_emit_aligned_label(c, atoi(t[2]), nb ? rob : NULL);
			for (i = 0; i < nb && !sljit_get_compiler_error(c); i++) {  /* the labels of the buffers follow */
				if (i == 0 && rob[0].u.label != x->lab[atoi(t[1])]) return 3010;
				x->lab[atoi(t[1]) + i] = rob[i].u.label;
			}
			x->nrob += nb;
			return ptr_result(x, x->lab[atoi(t[1])]);
		}
		if (OP("aload")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_atomic_load(c, (sljit_s32)names(t[1]), a.r, b.r); }
		if (OP("astore")) { a = opd(t[2]); b = opd(t[3]); d = opd(t[4]); return sljit_emit_atomic_store(c, (sljit_s32)names(t[1]), a.r, b.r, d.r); }
		break;
	case 'c':
		if (OP("cmp")) { a = opd(t[2]); b = opd(t[3]); return addjump(x, sljit_emit_cmp(c, (sljit_s32)names(t[1]), a.r, a.w, b.r, b.w), t[4], 0); }
		if (OP("custom")) { a = opd(t[1]); b = opd(t[2]); return custom_move(c, SLJIT_GP_REGISTER, a.r, b.r); }
		if (OP("const")) { d = opd(t[2]); if (x->nk >= 256) machinery("consts", ""); x->k[x->nk] = sljit_emit_const(c, (sljit_s32)names(t[1]), d.r, d.w, hexw(t[3])); return ptr_result(x, x->k[x->nk++]); }
#ifdef LIR_CALLS
		if (OP("call")) { /* call type sig target : target L<label> or name */
			struct sljit_jump *j = sljit_emit_call(c, (sljit_s32)names(t[1]), argtype(t[2]));
			if (t[3][0] == 'L') return addjump(x, j, t[3] + 1, 0);
			sljit_set_target(j, (UW)call_target(t[3]));
			return ptr_result(x, j);
		}
#endif
		break;
	case 'e':
		if (OP("enter") || OP("ectx")) { /* enter opts sig sc sv fsc fsv vsc vsv local */
			int sc = atoi(t[3]) | SLJIT_ENTER_FLOAT(atoi(t[5])) | SLJIT_ENTER_VECTOR(atoi(t[7]));
			int sv = atoi(t[4]) | SLJIT_ENTER_FLOAT(atoi(t[6])) | SLJIT_ENTER_VECTOR(atoi(t[8]));
			x->sc = atoi(t[3]); x->sv = atoi(t[4]); x->fsc = atoi(t[5]); x->fsv = atoi(t[6]);
			return OP("enter") ? sljit_emit_enter(c, (int)hexw(t[1]), argtype(t[2]), sc, sv, atoi(t[9]))
				: sljit_set_context(c, (int)hexw(t[1]), argtype(t[2]), sc, sv, atoi(t[9]));
		}
		break;
	case 'f':
		if (OP("fcustom")) { a = opd(t[1]); b = opd(t[2]); return custom_move(c, SLJIT_FLOAT_REGISTER, a.r, b.r); }
		if (OP("fop1")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_fop1(c, (sljit_s32)names(t[1]), a.r, a.w, b.r, b.w); }
		if (OP("fop2")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return sljit_emit_fop2(c, (sljit_s32)names(t[1]), d.r, d.w, a.r, a.w, b.r, b.w); }
		if (OP("fop2r")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return sljit_emit_fop2r(c, (sljit_s32)names(t[1]), d.r, a.r, a.w, b.r, b.w); }
		if (OP("fcmp")) { a = opd(t[2]); b = opd(t[3]); return addjump(x, sljit_emit_fcmp(c, (sljit_s32)names(t[1]), a.r, a.w, b.r, b.w), t[4], 0); }
		if (OP("fill")) return 0;    /* after the generation: table of label addresses */
		if (OP("fset32")) { union { uint32_t u; float f; } u; a = opd(t[1]); u.u = (uint32_t)strtoull(t[2], NULL, 16); return sljit_emit_fset32(c, a.r, u.f); }
		if (OP("fset64")) { union { uint64_t u; double f; } u; a = opd(t[1]); u.u = strtoull(t[2], NULL, 16); return sljit_emit_fset64(c, a.r, u.f); }
		if (OP("fcopy")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_fcopy(c, (sljit_s32)names(t[1]), a.r, b.r); }
		if (OP("fsel")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return sljit_emit_fselect(c, (sljit_s32)names(t[1]), d.r, a.r, a.w, b.r); }
		if (OP("fmem")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_fmem(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("fmemu")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_fmem_update(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("fcall")) { struct sljit_jump *j = sljit_emit_jump(c, SLJIT_FAST_CALL | (sljit_s32)names(t[2])); return addjump(x, j, t[1], 0); }
		break;
	case 'g':
		if (OP("getret")) { a = opd(t[1]); return sljit_emit_op_dst(c, SLJIT_GET_RETURN_ADDRESS, a.r, a.w); }
		break;
	case 'i':
		if (OP("init")) {
			for (i = 0; i < p->ninit; i++)
				if ((k = sljit_emit_op1(c, SLJIT_MOV, nthreg(x, i), 0, SLJIT_MEM0(), (SW)(INI_BASE + 8 * (UW)i)))) return k;
			for (i = 0; i < p->nfinit; i++)
				if ((k = sljit_emit_fop1(c, SLJIT_MOV_F64, nthfreg(x, i), 0, SLJIT_MEM0(), (SW)(INI_BASE + 512 + 8 * (UW)i)))) return k;
			for (i = 0; i < p->nvinit; i++)
				if ((k = sljit_emit_simd_mov(c, SLJIT_SIMD_LOAD | vtype_of(p->vsize) | SLJIT_SIMD_ELEM_32, nthvreg(x, i), SLJIT_MEM0(), (SW)(INI_BASE + 1024 + 64 * (UW)i)))) return k;
			return 0;
		}
		if (OP("ijmp")) { a = opd(t[2]); return sljit_emit_ijump(c, (sljit_s32)names(t[1]), a.r, a.w); }
#ifdef LIR_CALLS
		if (OP("icall")) { /* icall type sig operand | name */
			if (t[3][0] == '=') { a.r = SLJIT_IMM; a.w = (SW)call_target(t[3] + 1); } else a = opd(t[3]);
			return sljit_emit_icall(c, (sljit_s32)names(t[1]), argtype(t[2]), a.r, a.w);
		}
#endif
		break;
	case 'j':
		if (OP("jmp")) { return addjump(x, sljit_emit_jump(c, (sljit_s32)names(t[1])), t[2], 0); }
		break;
	case 'l':
		if (OP("label")) { x->lab[atoi(t[1])] = sljit_emit_label(c); return ptr_result(x, x->lab[atoi(t[1])]); }
		if (OP("lbase")) { a = opd(t[1]); return sljit_get_local_base(c, a.r, a.w, hexw(t[2])); }
		break;
	case 'm':
		if (OP("mem")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_mem(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("memu")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_mem_update(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
#ifdef LIR_CALLS
		if (OP("movfn")) { a = opd(t[1]); return sljit_emit_op1(c, SLJIT_MOV, a.r, a.w, SLJIT_IMM, (SW)call_target(t[2])); }
#endif
		break;
	case 'n':
		if (OP("nops")) { k = atoi(t[1]); while (k-- > 0) if ((i = sljit_emit_op0(c, SLJIT_NOP))) return i; return 0; }
		break;
	case 'o':
		if (OP("op0")) return sljit_emit_op0(c, (sljit_s32)names(t[1]));
		if (OP("op1")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_op1(c, (sljit_s32)names(t[1]), a.r, a.w, b.r, b.w); }
		if (OP("op2")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return sljit_emit_op2(c, (sljit_s32)names(t[1]), d.r, d.w, a.r, a.w, b.r, b.w); }
		if (OP("op2u")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_op2u(c, (sljit_s32)names(t[1]), a.r, a.w, b.r, b.w); }
		if (OP("op2r")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return sljit_emit_op2r(c, (sljit_s32)names(t[1]), d.r, a.r, a.w, b.r, b.w); }
		if (OP("opf")) { d = opd(t[2]); return sljit_emit_op_flags(c, (sljit_s32)names(t[1]), d.r, d.w, (sljit_s32)names(t[3])); }
		if (OP("ops")) { a = opd(t[2]); return sljit_emit_op_src(c, (sljit_s32)names(t[1]), a.r, a.w); }
		if (OP("opd")) { a = opd(t[2]); return sljit_emit_op_dst(c, (sljit_s32)names(t[1]), a.r, a.w); }
		if (OP("op2cmpz")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return addjump(x, sljit_emit_op2cmpz(c, (sljit_s32)names(t[1]), d.r, d.w, a.r, a.w, b.r, b.w), t[5], 0); }
		if (OP("opaddr")) { struct sljit_jump *j; d = opd(t[2]); j = sljit_emit_op_addr(c, (sljit_s32)names(t[1]), d.r, d.w); return addjump(x, j, t[3], 1); }
		if (OP("obs")) {   /* obs kind slot : store registers by the mask of the slot */
			k = atoi(t[2]);
			if ((i = sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), OBSADDR(k), SLJIT_IMM, 1))) return i;
			for (i = 0; p->mask[k][i]; i++) {
				char m = p->mask[k][i]; SW ad; sljit_s32 r = 0;
				if (m == '0') continue;
				ad = OBSADDR(k) + 64 + (t[1][0] == 'v' ? 64 : 8) * i;
				switch (t[1][0]) {
				case 'r': r = sljit_emit_op1(c, m == '4' ? SLJIT_MOV32 : SLJIT_MOV, SLJIT_MEM0(), ad, nthreg(x, i), 0); break;
				case 'f': r = sljit_emit_fop1(c, m == '4' ? SLJIT_MOV_F32 : SLJIT_MOV_F64, SLJIT_MEM0(), ad, nthfreg(x, i), 0); break;
				case 'v': r = sljit_emit_simd_mov(c, SLJIT_SIMD_STORE | vtype_of(p->vsize) | SLJIT_SIMD_ELEM_32, nthvreg(x, i), SLJIT_MEM0(), ad); break;
				}
				if (r) return r;
			}
			return 0;
		}
		break;
#ifdef LIR_CALLS
	case 'p':
		if (OP("patch")) { a = opd(t[1]); if ((k = sljit_emit_op1(c, SLJIT_MOV, SLJIT_R0, 0, a.r, a.w))) return k; return sljit_emit_icall(c, SLJIT_CALL, SLJIT_ARGS1V(W), SLJIT_IMM, SLJIT_FUNC_ADDR(patcher)); }
		break;
#endif
	case 'r':
#ifdef LIR_CALLS
		if (OP("rcall")) { struct sljit_jump *j = sljit_emit_call(c, SLJIT_CALL | SLJIT_REWRITABLE_JUMP, SLJIT_ARGS1(W, W)); sljit_set_target(j, SLJIT_FUNC_UADDR(crt(atoi(t[1])))); return ptr_result(x, j); }
#endif
		if (OP("ret")) { a = opd(t[2]); return sljit_emit_return(c, (sljit_s32)names(t[1]), a.r, a.w); }
		if (OP("retv")) return sljit_emit_return_void(c);
		if (OP("retto")) { a = opd(t[1]); return sljit_emit_return_to(c, a.r, a.w); }
		break;
	case 's':
		if (OP("slot")) return sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM0(), SLOT_ADDR, SLJIT_IMM, atoi(t[1]));
		if (OP("scf")) { sljit_set_current_flags(c, (sljit_s32)names(t[1])); return sljit_get_compiler_error(c); }
		if (OP("sel")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); return sljit_emit_select(c, (sljit_s32)names(t[1]), d.r, a.r, a.w, b.r); }
		if (OP("shi")) { d = opd(t[2]); a = opd(t[3]); b = opd(t[4]); e = opd(t[5]); return sljit_emit_shift_into(c, (sljit_s32)names(t[1]), d.r, a.r, b.r, e.r, e.w); }
		if (OP("smov")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_simd_mov(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("srep")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_simd_replicate(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("slane")) { a = opd(t[2]); b = opd(t[4]); return sljit_emit_simd_lane_mov(c, (sljit_s32)names(t[1]), a.r, atoi(t[3]), b.r, b.w); }
		if (OP("slrep")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_simd_lane_replicate(c, (sljit_s32)names(t[1]), a.r, b.r, atoi(t[4])); }
		if (OP("sext")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_simd_extend(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("ssign")) { a = opd(t[2]); b = opd(t[3]); return sljit_emit_simd_sign(c, (sljit_s32)names(t[1]), a.r, b.r, b.w); }
		if (OP("sop2")) { a = opd(t[2]); b = opd(t[3]); d = opd(t[4]); return sljit_emit_simd_op2(c, (sljit_s32)names(t[1]), a.r, b.r, d.r, d.w); }
		break;
	}
	machinery("unknown instruction", t[0]);
	return 0;
}
/* Optional instruction: "?PC ins ...".  Asking whether it is supported must have no effect and must
   agree with the emission; an unsupported one is recorded by its index in the specification. */
static UW used_size(struct sljit_compiler *c)
{
	struct sljit_memory_fragment *f; UW n = 0;
	for (f = c->buf; f; f = f->next) n += f->used_size;
	for (f = c->abuf; f; f = f->next) n += f->used_size;
	return n * 16 + (UW)c->error + ((UW)c->size << 12);
}
static sljit_s32 emit_any(struct ectx *x, struct ins *in)
{
	struct ins o; sljit_s32 q, r; UW n; const char *test = NULL; char name[200];
	if (in->tok[0][0] == '&') {        /* "&K:PC ins": PC is not emitted when the optional instruction K was not */
		int k = atoi(in->tok[0] + 1), i;
		o = *in; o.n--; memmove(o.tok, o.tok + 1, sizeof(char *) * (size_t)o.n);
		for (i = 0; i < x->nskip && x->skip[i] != k; i++) ;
		if (i == x->nskip) return emit_ins(x, &o);
		if (x->nskip >= 64) machinery("too many skips", "");
		x->skip[x->nskip++] = atoi(strchr(in->tok[0], ':') + 1);
		return 0;
	}
	if (in->tok[0][0] != '?') return emit_ins(x, in);
	o = *in; o.n--; memmove(o.tok, o.tok + 1, sizeof(char *) * (size_t)o.n);
	if (!strcmp(o.tok[0], "memu") || !strcmp(o.tok[0], "fmemu")) test = "MEM_SUPP";
	else if (o.tok[0][0] == 's') test = "SIMD_TEST";
	else if (o.tok[0][0] == 'a') test = "ATOMIC_TEST";
	if (o.tok[0][0] == 'a' && !sljit_has_cpu_feature(SLJIT_HAS_ATOMIC)) { x->skip[x->nskip++] = atoi(in->tok[0] + 1); return 0; }
	q = -1;
	if (test) {
		char *save = o.tok[1];
		snprintf(name, sizeof name, "%s+%s", save, test);
		n = used_size(x->c); o.tok[1] = name; q = emit_ins(x, &o); o.tok[1] = save;
		if (used_size(x->c) != n || (q != 0 && q != SLJIT_ERR_UNSUPPORTED)) return 3001;
	}
	n = used_size(x->c);
	r = emit_ins(x, &o);
	if (q >= 0 && (q == 0) != (r == 0)) return 3002;
	if (r == SLJIT_ERR_UNSUPPORTED) {
		if (used_size(x->c) != n || sljit_get_compiler_error(x->c)) return 3003;
		if (x->nskip >= 64) machinery("too many skips", "");
		x->skip[x->nskip++] = atoi(in->tok[0] + 1);
		r = 0;
	}
	return r;
}
static void bind_labels(struct ectx *x)
{
	int i;
	for (i = 0; i < x->nj; i++)
		if (x->j[i].j && x->j[i].lab >= 0) sljit_set_label(x->j[i].j, x->lab[x->j[i].lab]);
}

/* ---- program file ---- */
static char *nextline(char **s)
{
	char *b = *s, *e;
	if (!*b) return NULL;
	e = strchr(b, '\n');
	if (e) { *e = 0; *s = e + 1; } else *s = b + strlen(b);
	return b;
}
/* parses the next program; returns 0 at the end of the file */
static int parse_prog(char **s, struct prog *p)
{
	char *l;
	p->nins = p->ninit = p->nfinit = p->nvinit = p->nobs = 0; p->vsize = 16; p->ret = '-'; p->wantaddr = p->wantlb = p->shared = p->calls = p->npatch = p->npad = p->nvmap = 0;
	while ((l = nextline(s))) {
		char *save, *t;
		switch (*l) {
		case 0: continue;
		case 'P':
			snprintf(p->id, sizeof p->id, "%s", l + 2);
			break;
		case 'R': p->ret = l[2]; break;
		case 'C': p->calls = 1; break;
		case 'A': p->wantaddr = 1; break;
		case 'B': p->wantlb = 1; break;
		case 'D': /* declared observation registers: sc sv fsc fsv vsc vsv vsize */
			sscanf(l + 2, "%d %d %d %d %d %d %d", &p->sc, &p->sv, &p->fsc, &p->fsv, &p->vsc, &p->vsv, &p->vsize); break;
		case 'I': for (t = strtok_r(l + 2, " ", &save); t; t = strtok_r(NULL, " ", &save)) p->init[p->ninit++] = (UW)strtoull(t, NULL, 16); break;
		case 'J': for (t = strtok_r(l + 2, " ", &save); t; t = strtok_r(NULL, " ", &save)) p->finit[p->nfinit++] = strtoull(t, NULL, 16); break;
		case 'V': for (t = strtok_r(l + 2, " ", &save); t; t = strtok_r(NULL, " ", &save)) {
				int i; for (i = 0; t[2 * i]; i++) { char h[3] = { t[2 * i], t[2 * i + 1], 0 }; p->vinit[p->nvinit][i] = (uint8_t)strtol(h, NULL, 16); }
				p->nvinit++; }
			break;
		case 'O': { int k; char kind; char m[72]; /* O slot kind mask */
				sscanf(l + 2, "%d %c %71s", &k, &kind, m); strcpy(p->mask[k], m); p->kind[k] = kind; if (k >= p->nobs) p->nobs = k + 1; }
			break;
		case 'W': for (t = strtok_r(l + 2, " ", &save); t; t = strtok_r(NULL, " ", &save)) p->vmap[p->nvmap++] = atoi(t); break;
		case 'X': return 1;
		case 'Q': { /* pad: label where offset tag back */
				unsigned long long o, g, b; int k = p->npad++;
				if (p->npad > 8) machinery("pads", p->id);
				sscanf(l + 2, "%d %d %llx %llx %llx", &p->pad[k].lab, &p->pad[k].where, &o, &g, &b);
				p->pad[k].off = (UW)o; p->pad[k].tag = (UW)g; p->pad[k].back = (UW)b; p->pad[k].code = NULL; }
			break;
		case 'T': {
			struct ins *in = &p->patch[p->npatch++];
			if (p->npatch >= 128) machinery("too many patches", p->id);
			in->n = 0;
			for (t = strtok_r(l + 2, " ", &save); t; t = strtok_r(NULL, " ", &save)) { if (in->n >= MAXTOK) machinery("tokens", p->id); in->tok[in->n++] = t; }
			break; }
		case '.': {
			struct ins *in = &p->ins[p->nins++];
			if (p->nins >= MAXINS) machinery("program too long", p->id);
			in->n = 0;
			for (t = strtok_r(l + 1, " ", &save); t; t = strtok_r(NULL, " ", &save)) { if (in->n >= MAXTOK) machinery("tokens", p->id); in->tok[in->n++] = t; }
			break; }
		default: machinery("bad line", l);
		}
	}
	return 0;
}
static char *slurp(const char *f)
{
	FILE *h = fopen(f, "rb"); long n; char *b;
	if (!h) machinery("open", f);
	fseek(h, 0, SEEK_END); n = ftell(h); fseek(h, 0, SEEK_SET);
	b = malloc(n + 1); if (!b || fread(b, 1, n, h) != (size_t)n) machinery("read", f);
	b[n] = 0; fclose(h);
	return b;
}
/* ---- output ---- */
static char *out; static size_t outn, outcap;
static void oput(const char *s, size_t n)
{
	if (outn + n + 1 > outcap) { outcap = (outn + n) * 2 + 65536; out = realloc(out, outcap); if (!out) machinery("memory", ""); }
	memcpy(out + outn, s, n); outn += n;
}
static void ostr(const char *s) { oput(s, strlen(s)); }
static void onum(long v)
{
	char b[24]; int i = 24; unsigned long u = v < 0 ? -(unsigned long)v : (unsigned long)v;
	do { b[--i] = (char)('0' + u % 10); u /= 10; } while (u);
	if (v < 0) b[--i] = '-';
	oput(b + i, 24 - i);
}
static void obytes(const uint8_t *b, int n) { int i; oput("[", 1); for (i = 0; i < n; i++) { if (i) oput(",", 1); onum(b[i]); } oput("]", 1); }
static void oword(uint64_t v, int n) { uint8_t b[8]; int i; for (i = 0; i < n; i++) b[i] = (uint8_t)(v >> (8 * i)); obytes(b, n); }
static void oflush(void)
{
	size_t i = 0;
	while (i < outn) { ssize_t k = write(1, out + i, outn - i); if (k <= 0) _exit(4); i += (size_t)k; }
	outn = 0;
}

/* ---- buffers ---- */
static void mapfix(UW base, UW size)
{
	void *r = mmap((void *)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (r == MAP_FAILED || r != (void *)base) machinery("cannot map fixed buffer", "");
}
/* accesses outside the buffer fault */
static void guard(UW base, UW size)
{
	UW lo = base & ~(UW)0xffff;
	if (mprotect((void *)lo, base - lo, PROT_NONE) || mprotect((void *)(base + size), lo + 0x10000 - base - size, PROT_NONE)) machinery("cannot protect", "");
}
static void setup_buffers(void)
{
	UW i;
	mapfix(D_BASE & ~(UW)0xffff, 0x10000);
	for (i = 0; i < D_SIZE; i++) ((uint8_t *)D_BASE)[i] = PAT(i, D_SEED);
	guard(D_BASE, D_SIZE);
#ifdef H_BASE
	mapfix(H_BASE & ~(UW)0xffff, 0x10000);
	for (i = 0; i < H_SIZE; i++) ((uint8_t *)H_BASE)[i] = PAT(i, H_SEED);
	guard(H_BASE, H_SIZE);
#endif
	mapfix(OBS_BASE, OBS_NUM * OBS_SLOT + 0x10000);
	mapfix(INI_BASE, 0x10000);
}
static int dirty_region(UW base, int size, int seed, int region, int first)
{
	static uint8_t pat[2][0x3000]; static int have[2];
	uint8_t *m = (uint8_t *)base; int i, s = region - 1;
	if (!have[s]) { for (i = 0; i < size; i++) pat[s][i] = PAT((UW)i, seed); have[s] = 1; }
	if (!memcmp(m, pat[s], (size_t)size)) return first;
	for (i = 0; i < size; i++)
		if (m[i] != pat[s][i]) {
			if (!first) oput(",", 1);
			first = 0;
			oput("[", 1); onum((long)region * 16777216 + i); oput(",", 1); onum(m[i]); oput("]", 1);
			m[i] = pat[s][i];
		}
	return first;
}
#endif
