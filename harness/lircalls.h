/* C functions called by generated code: rec_* log their arguments and return a constant, inv_* call back.
   All of them destroy the registers which belong to the caller, and check the alignment of the stack. */
#if defined(__x86_64__)
#define STACK_ALIGN 16
#define CLOBBER() __asm__ volatile( \
	"mov $0x5151515151, %%rax; mov %%rax, %%rcx; mov %%rax, %%rdx; mov %%rax, %%rsi; mov %%rax, %%rdi; mov %%rax, %%r8; mov %%rax, %%r9; mov %%rax, %%r10; mov %%rax, %%r11;" \
	"movq %%rax, %%xmm0; movq %%rax, %%xmm1; movq %%rax, %%xmm2; movq %%rax, %%xmm3; movq %%rax, %%xmm4; movq %%rax, %%xmm5; movq %%rax, %%xmm6; movq %%rax, %%xmm7;" \
	"movq %%rax, %%xmm8; movq %%rax, %%xmm9; movq %%rax, %%xmm10; movq %%rax, %%xmm11; movq %%rax, %%xmm12; movq %%rax, %%xmm13; movq %%rax, %%xmm14; movq %%rax, %%xmm15" \
	::: "rax", "rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11", "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15", "cc", "memory")
#elif defined(__i386__)
#define STACK_ALIGN 16
#define CLOBBER() __asm__ volatile("mov $0x51515151, %%eax; mov %%eax, %%ecx; mov %%eax, %%edx" ::: "eax", "ecx", "edx", "cc", "memory")
#elif defined(__aarch64__)
#define STACK_ALIGN 16
#define CLOBBER() __asm__ volatile( \
	"mov x0, #0x5151; mov x1, x0; mov x2, x0; mov x3, x0; mov x4, x0; mov x5, x0; mov x6, x0; mov x7, x0; mov x8, x0; mov x9, x0; mov x10, x0; mov x11, x0; mov x12, x0; mov x13, x0; mov x14, x0; mov x15, x0; mov x16, x0; mov x17, x0;" \
	"fmov d0, x0; fmov d1, x0; fmov d2, x0; fmov d3, x0; fmov d4, x0; fmov d5, x0; fmov d6, x0; fmov d7, x0; fmov d16, x0; fmov d17, x0; fmov d18, x0; fmov d19, x0; fmov d20, x0; fmov d21, x0; fmov d22, x0; fmov d23, x0;" \
	"fmov d24, x0; fmov d25, x0; fmov d26, x0; fmov d27, x0; fmov d28, x0; fmov d29, x0; fmov d30, x0; fmov d31, x0" \
	::: "x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9", "x10", "x11", "x12", "x13", "x14", "x15", "x16", "x17", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", \
	"d16", "d17", "d18", "d19", "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30", "d31", "cc", "memory")
#elif defined(__arm__)
#define STACK_ALIGN 8
#define CLOBBER() __asm__ volatile( \
	"mov r0, #0x51; mov r1, r0; mov r2, r0; mov r3, r0; mov r12, r0; vmov d0, r0, r0; vmov d1, r0, r0; vmov d2, r0, r0; vmov d3, r0, r0; vmov d4, r0, r0; vmov d5, r0, r0; vmov d6, r0, r0; vmov d7, r0, r0" \
	::: "r0", "r1", "r2", "r3", "r12", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "cc", "memory")
#elif defined(__riscv)
#define STACK_ALIGN 16
#define CLOBBER() __asm__ volatile( \
	"li t0, 0x5151; mv t1, t0; mv t2, t0; mv t3, t0; mv t4, t0; mv t5, t0; mv t6, t0; mv a0, t0; mv a1, t0; mv a2, t0; mv a3, t0; mv a4, t0; mv a5, t0; mv a6, t0; mv a7, t0;" \
	"fmv.d.x ft0, t0; fmv.d.x ft1, t0; fmv.d.x ft2, t0; fmv.d.x ft3, t0; fmv.d.x ft4, t0; fmv.d.x ft5, t0; fmv.d.x ft6, t0; fmv.d.x ft7, t0; fmv.d.x ft8, t0; fmv.d.x ft9, t0; fmv.d.x ft10, t0; fmv.d.x ft11, t0;" \
	"fmv.d.x fa0, t0; fmv.d.x fa1, t0; fmv.d.x fa2, t0; fmv.d.x fa3, t0; fmv.d.x fa4, t0; fmv.d.x fa5, t0; fmv.d.x fa6, t0; fmv.d.x fa7, t0" \
	::: "t0", "t1", "t2", "t3", "t4", "t5", "t6", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7", "ft0", "ft1", "ft2", "ft3", "ft4", "ft5", "ft6", "ft7", "ft8", "ft9", "ft10", "ft11", \
	"fa0", "fa1", "fa2", "fa3", "fa4", "fa5", "fa6", "fa7", "memory")
#elif defined(__s390x__)
#define STACK_ALIGN 8
#define CLOBBER() __asm__ volatile( \
	"lghi %%r0, 0x5151; lgr %%r1, %%r0; lgr %%r2, %%r0; lgr %%r3, %%r0; lgr %%r4, %%r0; lgr %%r5, %%r0; ldgr %%f0, %%r0; ldgr %%f1, %%r0; ldgr %%f2, %%r0; ldgr %%f3, %%r0; ldgr %%f4, %%r0; ldgr %%f5, %%r0; ldgr %%f6, %%r0; ldgr %%f7, %%r0" \
	::: "r0", "r1", "r2", "r3", "r4", "r5", "f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "cc", "memory")
#elif defined(__loongarch__)
#define STACK_ALIGN 16
#define CLOBBER() __asm__ volatile( \
	"li.w $t0, 0x515; move $t1, $t0; move $t2, $t0; move $t3, $t0; move $t4, $t0; move $t5, $t0; move $t6, $t0; move $t7, $t0; move $t8, $t0; move $a0, $t0; move $a1, $t0; move $a2, $t0; move $a3, $t0; move $a4, $t0; move $a5, $t0; move $a6, $t0; move $a7, $t0;" \
	"movgr2fr.d $fa0, $t0; movgr2fr.d $fa1, $t0; movgr2fr.d $fa2, $t0; movgr2fr.d $fa3, $t0; movgr2fr.d $fa4, $t0; movgr2fr.d $fa5, $t0; movgr2fr.d $fa6, $t0; movgr2fr.d $fa7, $t0;" \
	"movgr2fr.d $ft0, $t0; movgr2fr.d $ft1, $t0; movgr2fr.d $ft2, $t0; movgr2fr.d $ft3, $t0; movgr2fr.d $ft4, $t0; movgr2fr.d $ft5, $t0; movgr2fr.d $ft6, $t0; movgr2fr.d $ft7, $t0; movgr2fr.d $ft8, $t0; movgr2fr.d $ft9, $t0; movgr2fr.d $ft10, $t0; movgr2fr.d $ft11, $t0; movgr2fr.d $ft12, $t0; movgr2fr.d $ft13, $t0; movgr2fr.d $ft14, $t0; movgr2fr.d $ft15, $t0" \
	::: "$t0", "$t1", "$t2", "$t3", "$t4", "$t5", "$t6", "$t7", "$t8", "$a0", "$a1", "$a2", "$a3", "$a4", "$a5", "$a6", "$a7", "$f0", "$f1", "$f2", "$f3", "$f4", "$f5", "$f6", "$f7", \
	"$f8", "$f9", "$f10", "$f11", "$f12", "$f13", "$f14", "$f15", "$f16", "$f17", "$f18", "$f19", "$f20", "$f21", "$f22", "$f23", "memory")
#elif defined(__powerpc__)
#define STACK_ALIGN 16
#define CLOBBER() __asm__ volatile( \
	"li 0, 0x5151; mr 3, 0; mr 4, 0; mr 5, 0; mr 6, 0; mr 7, 0; mr 8, 0; mr 9, 0; mr 10, 0; mr 11, 0; mr 12, 0; mtctr 0; mtxer 0; fneg 0, 0; fneg 1, 1; fneg 2, 2; fneg 3, 3; fneg 4, 4; fneg 5, 5; fneg 6, 6; fneg 7, 7; fneg 8, 8; fneg 9, 9; fneg 10, 10; fneg 11, 11; fneg 12, 12; fneg 13, 13" \
	::: "r0", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "ctr", "xer", "cr0", "fr0", "fr1", "fr2", "fr3", "fr4", "fr5", "fr6", "fr7", "fr8", "fr9", "fr10", "fr11", "fr12", "fr13", "memory")
#elif defined(__mips__)
#define STACK_ALIGN 8
#define CLOBBER() __asm__ volatile( \
	".set push; .set noat; li $2, 0x5151; move $1, $2; move $3, $2; move $4, $2; move $5, $2; move $6, $2; move $7, $2; move $8, $2; move $9, $2; move $10, $2; move $11, $2; move $12, $2; move $13, $2; move $14, $2; move $15, $2; move $24, $2; mthi $2; mtlo $2; .set pop" \
	::: "$1", "$2", "$3", "$4", "$5", "$6", "$7", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "hi", "lo", "memory")
#endif
static void stack_check(void)
{
	static volatile int probe_align = STACK_ALIGN;
	char __attribute__((aligned(STACK_ALIGN))) b[STACK_ALIGN];
	char *volatile q = b;
	if ((UW)q & (UW)(probe_align - 1)) { phase = "stack-alignment"; raise(SIGABRT); }
}
#define SLOT() (uint8_t *)OBSADDR(*(volatile UW *)SLOT_ADDR)
typedef double ty_d; typedef float ty_f; typedef UW ty_w; typedef uint32_t ty_4; typedef void ty_v;
#define BEGIN() uint8_t *s = SLOT(); stack_check(); *(UW *)s = 1;
#define LOG(i, x) memcpy(s + 64 + 8 * (i), &x, sizeof x);
#define RET_d CLOBBER(); { union { uint64_t u; double d; } r; r.u = 0x4012345678abcdefULL; return r.d; }
#define RET_f CLOBBER(); { union { uint32_t u; float d; } r; r.u = 0x41234567; return r.d; }
#define RET_w CLOBBER(); return (UW)0x9182736455463728ULL;
#define RET_4 CLOBBER(); return 0x98badcfe;
#define RET_v CLOBBER();
static double dconst(int k) { union { uint64_t u; double d; } r; r.u = 0x3ff0000012345678ULL + (uint64_t)k * 0x0011223344556677ULL; return r.d; }
static float fconst(int k) { union { uint32_t u; float d; } r; r.u = 0x3f812345u + (uint32_t)k * 0x00212121u; return r.d; }
static UW wconst(int k) { return (UW)(0xf0e1d2c3b4a59687ULL + (uint64_t)k * 0x0102030405060708ULL); }
static uint32_t iconst(int k) { return 0x89abcdefu + (uint32_t)k * 0x11111111u; }
#include "gencalls.h"
static void *call_target(const char *name)
{
	int i;
	for (i = 0; gencalls[i].n; i++) if (!strcmp(gencalls[i].n, name)) return gencalls[i].f;
	machinery("call target", name);
	return NULL;
}

/* targets of rewritable calls */
static UW crt_0(UW a) { stack_check(); CLOBBER(); return a * 3 + 1; }
static UW crt_1(UW a) { stack_check(); CLOBBER(); return a * 3 + 2; }
static UW crt_2(UW a) { stack_check(); CLOBBER(); return a * 3 + 3; }
static UW crt_3(UW a) { stack_check(); CLOBBER(); return a * 3 + 4; }
static void *crt(int k) { static UW (*const f[4])(UW) = { crt_0, crt_1, crt_2, crt_3 }; return (void *)f[k]; }
