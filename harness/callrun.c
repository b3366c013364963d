/* Records the answers of the library to sequences of valid and invalid calls (see spec/Calls.tla).
   callrun FILE: a line "head TAB ..." with the constants of the configuration, then for every sequence one line
   "id TAB rc... TAB err... TAB grew... TAB hash": the result and error of each call, whether it changed the size of the
   code or of the other data, and a digest of all code emitted. */
#include "lir.h"
static UW total(struct sljit_compiler *c)
{
	struct sljit_memory_fragment *f; UW n = 0;
	for (f = c->buf; f; f = f->next) n += f->used_size;
	for (f = c->abuf; f; f = f->next) n += f->used_size;
	return n * 64 + (UW)c->size;
}
static uint64_t digest(struct sljit_compiler *c)
{
	struct sljit_memory_fragment *f; uint64_t h = 1469598103934665603ull; UW i;
	for (f = c->buf; f; f = f->next) for (i = 0; i < f->used_size; i++) h = (h ^ ((uint8_t *)f->memory)[i]) * 1099511628211ull;
	return h;
}
int main(int argc, char **argv)
{
	static struct prog p; static struct ectx x; char *s; int i;
	sljit_s32 rc[64], err[64], gr[64]; void *code = NULL; static uint32_t insbuf[8];
	if (argc < 2) return 3;
	s = slurp(argv[1]);
	printf("head\t\"nr\":%d,\"ns\":%d,\"nf\":%d,\"nfs\":%d,\"nv\":%d,\"nvs\":%d,\"nt\":%d,\"ntf\":%d,\"vlo\":%d,\"vhi\":%d,\"maxlocal\":%d,\"w\":%d,\"fpu\":%d,\"simd\":%d,\"atomic\":%d,\"barrier\":%d,\"sep\":%d,\"second\":%d,\"pairs\":%d,\"uno\":%d,\"vex\":%d,\"sizes\":%d,\"align\":%d\n",
		SLJIT_NUMBER_OF_REGISTERS, SLJIT_NUMBER_OF_SAVED_REGISTERS, SLJIT_NUMBER_OF_FLOAT_REGISTERS, SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS,
		SLJIT_NUMBER_OF_VECTOR_REGISTERS, SLJIT_NUMBER_OF_SAVED_VECTOR_REGISTERS, SLJIT_NUMBER_OF_TEMPORARY_REGISTERS, SLJIT_NUMBER_OF_TEMPORARY_FLOAT_REGISTERS,
#if (defined SLJIT_CONFIG_X86_32 && SLJIT_CONFIG_X86_32)
		SLJIT_S8, SLJIT_S3,
#else
		0, 0,
#endif
		SLJIT_MAX_LOCAL_SIZE, WB, sljit_has_cpu_feature(SLJIT_HAS_FPU) != 0, sljit_has_cpu_feature(SLJIT_HAS_SIMD) != 0, sljit_has_cpu_feature(SLJIT_HAS_ATOMIC) != 0,
		sljit_has_cpu_feature(SLJIT_HAS_MEMORY_BARRIER) != 0,
#if (defined SLJIT_SEPARATE_VECTOR_REGISTERS && SLJIT_SEPARATE_VECTOR_REGISTERS)
		1,
#else
		0,
#endif
#if (defined SLJIT_CONFIG_ARM_32 && SLJIT_CONFIG_ARM_32) || (defined SLJIT_CONFIG_MIPS_32 && SLJIT_CONFIG_MIPS_32)
		SLJIT_F64_SECOND(0),
#else
		0,
#endif
		sljit_has_cpu_feature(SLJIT_SIMD_REGS_ARE_PAIRS) != 0,
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86) || (defined SLJIT_CONFIG_ARM && SLJIT_CONFIG_ARM)
		1,
#else
		0,
#endif
#if (defined SLJIT_CONFIG_X86 && SLJIT_CONFIG_X86)
		1, 1 << 16, 1
#elif (defined SLJIT_CONFIG_ARM_THUMB2 && SLJIT_CONFIG_ARM_THUMB2) || (defined SLJIT_CONFIG_RISCV && SLJIT_CONFIG_RISCV)
		0, (1 << 2) | (1 << 4), 0
#elif (defined SLJIT_CONFIG_S390X && SLJIT_CONFIG_S390X)
		0, (1 << 2) | (1 << 4) | (1 << 6), 1
#else
		0, 1 << 4, 4
#endif
		);
	while (parse_prog(&s, &p)) {
		uint64_t h = 0; UW n, z = 0;
		memset(&x, 0, sizeof x); x.p = &p;
		x.c = sljit_create_compiler(NULL);
		if (!x.c) machinery("memory", "");
		code = NULL;
		for (i = 0; i < p.nins && i < 64; i++) {
			struct ins *in = &p.ins[i]; char **t = in->tok;
			n = total(x.c);
			if (!strcmp(t[0], "gen")) {
				bind_labels(&x);
				h = digest(x.c); z = total(x.c);
				code = sljit_generate_code(x.c, (sljit_s32)hexw(t[1]), NULL);
				err[i] = sljit_get_compiler_error(x.c);
				rc[i] = (code != NULL) == (err[i] == SLJIT_ERR_COMPILED) ? err[i] : 3020;
				gr[i] = 0;
				continue;
			}
			if (!strcmp(t[0], "rawc")) rc[i] = sljit_emit_op_custom(x.c, t[2][0] == '-' ? NULL : (uint8_t *)insbuf + atoi(t[2]), (sljit_u32)atoi(t[1]));
			else if (!strcmp(t[0], "scall")) rc[i] = addjump(&x, sljit_emit_call(x.c, (sljit_s32)names(t[1]), argtype(t[2])), t[3], 0);
			else if (!strcmp(t[0], "sicall")) { struct opd a = opd(t[3]); rc[i] = sljit_emit_icall(x.c, (sljit_s32)names(t[1]), argtype(t[2]), a.r, a.w); }
			else rc[i] = emit_ins(&x, in);
			err[i] = sljit_get_compiler_error(x.c);
			gr[i] = total(x.c) != n;
		}
		if (!h) { h = digest(x.c); z = total(x.c); }
		if (code) sljit_free_code(code, NULL);
		sljit_free_compiler(x.c);
		printf("%s\t[", p.id);
		for (i = 0; i < p.nins; i++) printf("%s%d", i ? "," : "", (int)rc[i]);
		printf("]\t[");
		for (i = 0; i < p.nins; i++) printf("%s%d", i ? "," : "", (int)err[i]);
		printf("]\t[");
		for (i = 0; i < p.nins; i++) printf("%s%d", i ? "," : "", (int)gr[i]);
		printf("]\t%lu\t%016llx\n", (unsigned long)z, (unsigned long long)h);
		fflush(stdout);
	}
	printf("end\t\n");
	return 0;
}
