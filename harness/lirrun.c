/* Runs LIR programs: lirrun FILE FIRST [MODE].  One output line per program:
   id TAB json-fragment, to be merged with the program for trace validation. */
#include "lir.h"
#include <sys/time.h>
#include <errno.h>

static __thread struct prog *cur;
static __thread const char *volatile phase = "";
#ifdef LIR_CALLS
#include "lircalls.h"
#endif
#include <setjmp.h>

static UW code_base;
#include <ucontext.h>
static UW crash_pc(void *c)
{
	ucontext_t *u = c; (void)u;
#if defined(__s390x__)
	return u->uc_mcontext.psw.addr;
#elif defined(__arm__)
	return u->uc_mcontext.arm_pc;
#elif defined(__mips__)
	return u->uc_mcontext.pc;
#elif defined(__powerpc64__)
	return u->uc_mcontext.gp_regs[32];
#elif defined(__powerpc__)
	return u->uc_mcontext.uc_regs->gregs[32];
#elif defined(__riscv)
	return u->uc_mcontext.__gregs[0];
#elif defined(__loongarch__)
	return u->uc_mcontext.__pc;
#elif defined(__aarch64__)
	return u->uc_mcontext.pc;
#elif defined(__x86_64__)
	return u->uc_mcontext.gregs[16];
#else
	return u->uc_mcontext.gregs[14];
#endif
}
static void crash(int sig, siginfo_t *si, void *uc)
{
	const char *n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : sig == SIGFPE ? "SIGFPE"
		: sig == SIGABRT ? "SIGABRT" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGVTALRM ? "TIMEOUT" : "SIGNAL";
	char b[200];
	int l;
	l = snprintf(b, sizeof b, "%s\tCRASH %s-%s\n", cur ? cur->id : "?", n, phase);
	if (write(1, b, (size_t)l) < 0) _exit(4);
	l = snprintf(b, sizeof b, "fault address %lx pc %lx code %lx offset %lx\n", (unsigned long)si->si_addr, (unsigned long)crash_pc(uc), (unsigned long)code_base, (unsigned long)(crash_pc(uc) - code_base));
	if (write(2, b, (size_t)l) < 0) _exit(4);
	_exit(5);
}
static void setup_signals(void)
{
	static char stk[65536];
	static const int sg[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGVTALRM };
	stack_t ss; struct sigaction sa; unsigned i;
	memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk;
	sigaltstack(&ss, NULL);
	memset(&sa, 0, sizeof sa); sa.sa_sigaction = crash; sa.sa_flags = SA_ONSTACK | SA_SIGINFO;
	for (i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
}
static int timer_limit = 8;
static void arm_timer(void)
{
	struct itimerval t;
	memset(&t, 0, sizeof t); t.it_value.tv_sec = timer_limit;
	setitimer(ITIMER_VIRTUAL, &t, NULL);
}

struct unit { struct prog *p; struct ectx x; void *code; UW size; int err, at, nlab; UW laddr[MAXLAB], labs[MAXLAB], place[1024]; int nplace; SW eo; };

static int unit_begin(struct unit *u, struct prog *p)
{
	memset(&u->x, 0, sizeof u->x);
	u->p = p; u->x.p = p; u->code = NULL; u->err = 0; u->at = -1; u->nlab = 0;
	u->x.c = sljit_create_compiler(NULL);
	return u->x.c ? 0 : 1;
}
static void unit_fail(struct unit *u, int k, int err) { u->err = err; u->at = k; }
static unsigned rng;
static unsigned rnd(unsigned n) { rng = rng * 1103515245u + 12345u; return (rng >> 8) % n; }
/* serialize, free, restore; jump, const and label objects have to be found again by position */
static int restore(struct unit *u)
{
	UW n; UW *buf = sljit_serialize_compiler(u->x.c, 0, &n), *copy;
	struct ectx *x = &u->x;
	struct sljit_jump *j; struct sljit_label *l; struct sljit_const *k;
	int jm[MAXJMP], lm[MAXLAB], km[256], i, c;
	if (!buf) { return sljit_get_compiler_error(x->c) ? sljit_get_compiler_error(x->c) : 1000; }
	/* positions in the enumeration order */
	for (i = 0; i < x->nj; i++) { jm[i] = -1; for (c = 0, j = sljit_get_first_jump(x->c); j; j = sljit_get_next_jump(j), c++) if (j == x->j[i].j) jm[i] = c; if (jm[i] < 0) return 1001; }
	for (i = 0; i < MAXLAB; i++) { lm[i] = -1; if (x->lab[i]) { for (c = 0, l = sljit_get_first_label(x->c); l; l = sljit_get_next_label(l), c++) if (l == x->lab[i]) lm[i] = c; if (lm[i] < 0) return 1002; } }
	for (i = 0; i < x->nk; i++) { km[i] = -1; for (c = 0, k = sljit_get_first_const(x->c); k; k = sljit_get_next_const(k), c++) if (k == x->k[i]) km[i] = c; if (km[i] < 0) return 1003; }
	copy = malloc(n); memcpy(copy, buf, n);
	/* truncated and foreign buffers are refused */
	for (c = 0; c < 3; c++) {
		UW t = c == 0 ? n - WB : (UW)rnd((unsigned)n), *cut = malloc(t ? t : 1);
		if (c == 1) t &= ~(UW)(WB - 1);
		memcpy(cut, copy, t);
		if (sljit_deserialize_compiler(cut, t, 0, NULL)) return 1010;
		free(cut);
	}
	((uint8_t *)copy)[rnd(6)] ^= (uint8_t)(1 << rnd(8));	/* signature, version */
	if (sljit_deserialize_compiler(copy, n, 0, NULL)) return 1011;
	memcpy(copy, buf, n);
	SLJIT_FREE(buf, NULL);
	if (rnd(8) == 0) {
		/* without debug information */
		UW n2 = 0, *b2 = sljit_serialize_compiler(x->c, SLJIT_SERIALIZE_IGNORE_DEBUG, &n2);
		struct sljit_compiler *o = b2 ? sljit_deserialize_compiler(b2, n2, 0, NULL) : NULL;
		if (!b2) return 1014;
#if (defined SLJIT_DEBUG && SLJIT_DEBUG) || (defined SLJIT_ARGUMENT_CHECKS && SLJIT_ARGUMENT_CHECKS)
		if (o) return 1015;
#else
		if (!o) return 1016;
		/* the restored compiler in an error state cannot be serialized */
		sljit_set_compiler_memory_error(o);
		n2 = 5;
		if (sljit_serialize_compiler(o, 0, &n2) || n2) return 1017;
		sljit_free_compiler(o);
#endif
		SLJIT_FREE(b2, NULL);
	}
	if (rnd(3) == 0) {
		/* serializing does not change the compiler, which goes on while a copy of it is generated */
		struct sljit_compiler *o = sljit_deserialize_compiler(copy, n, 0, NULL);
		if (!o) return 1012;
		if (sljit_get_compiler_error(o)) return 1013;
		sljit_free_compiler(o);
		free(copy);
		return 0;
	}
	sljit_free_compiler(x->c);
	x->c = sljit_deserialize_compiler(copy, n, 0, NULL);
	memset(copy, 0x5a, n);
	free(copy);
	if (!x->c) return 1004;
	for (i = 0; i < x->nj; i++) { for (c = 0, j = sljit_get_first_jump(x->c); j && c < jm[i]; j = sljit_get_next_jump(j), c++); if (!j) return 1005; x->j[i].j = j; }
	for (i = 0; i < MAXLAB; i++) if (lm[i] >= 0) { for (c = 0, l = sljit_get_first_label(x->c); l && c < lm[i]; l = sljit_get_next_label(l), c++); if (!l) return 1006; x->lab[i] = l; }
	for (i = 0; i < x->nk; i++) { for (c = 0, k = sljit_get_first_const(x->c); k && c < km[i]; k = sljit_get_next_const(k), c++); if (!k) return 1007; x->k[i] = k; }
	return 0;
}
static int has_op(struct prog *p, const char *n) { int k; for (k = 0; k < p->nins; k++) if (!strcmp(p->ins[k].tok[0], n)) return 1; return 0; }
static void unit_emit(struct unit *u, int k)
{
	int r;
	if (u->err) return;
	r = emit_any(&u->x, &u->p->ins[k]);
	if (r) unit_fail(u, k, r);
}
static void fill_tables(struct unit *u)
{
	struct ectx *x = &u->x; struct prog *p = u->p; int k, i;
	SW eo = sljit_get_executable_offset(x->c);
	for (k = 0; k < p->nins; k++)
		if (!strcmp(p->ins[k].tok[0], "fill")) {
			UW ad = sljit_get_label_abs_addr(x->lab[atoi(p->ins[k].tok[1])]), size = WB * (UW)(p->ins[k].n - 2);
			UW *w = sljit_read_only_buffer_start_writing(ad, size, eo);
			for (i = 2; i < p->ins[k].n; i++) w[i - 2] = sljit_get_label_addr(x->lab[atoi(p->ins[k].tok[i])]);
			sljit_read_only_buffer_end_writing(ad, size, eo);
		}
}
static void unit_generate(struct unit *u, int opts, void *buffer)
{
	struct ectx *x = &u->x;
	if (!u->err) {
		phase = "generate";
		bind_labels(x);
		u->code = sljit_generate_code(x->c, opts, buffer);
		if (!u->code) unit_fail(u, -1, sljit_get_compiler_error(x->c) ? sljit_get_compiler_error(x->c) : 2000);
		else {
			int i = 0;
			u->size = sljit_get_generated_code_size(x->c);
			fill_tables(u);
			if (u->p->wantaddr) for (i = 0; i < MAXLAB && (i == 0 || x->lab[i]); i++) {
				u->laddr[i] = x->lab[i] ? sljit_get_label_addr(x->lab[i]) : 0;
				u->labs[i] = x->lab[i] ? sljit_get_label_abs_addr(x->lab[i]) : 0;
			}
			u->nlab = i;
			u->eo = sljit_get_executable_offset(x->c); u->nplace = 0;
			if (u->p->wantaddr) {
				struct sljit_jump *j; struct sljit_const *c;
				for (j = sljit_get_first_jump(x->c); j && u->nplace < 1000; j = sljit_get_next_jump(j))
					if (j->flags & SLJIT_REWRITABLE_JUMP) u->place[u->nplace++] = sljit_get_jump_addr(j);
				for (c = sljit_get_first_const(x->c); c && u->nplace < 1024; c = sljit_get_next_const(c)) u->place[u->nplace++] = sljit_get_const_addr(c);
			}
		}
	}
}
#ifdef LIR_CALLS
/* Modifies the code of the running program, which calls this function. */
static struct unit *running;
static void (*after_patch)(void);
static void patch_jump(struct unit *u, int idx, UW target)
{
	struct sljit_jump *j; int k;
	for (k = 0, j = sljit_get_first_jump(u->x.c); j; j = sljit_get_next_jump(j))
		if ((j->flags & SLJIT_REWRITABLE_JUMP) && k++ == idx) { sljit_set_jump_addr(sljit_get_jump_addr(j), target, sljit_get_executable_offset(u->x.c)); return; }
	machinery("no such jump", u->p->id);
}
static void patcher(SW n)
{
	struct unit *u = running; struct prog *p = u->p; int k, i;
	SW eo = sljit_get_executable_offset(u->x.c);
	stack_check();
	for (k = 0; k < p->npatch; k++) {
		char **t = p->patch[k].tok;
		if (atoi(t[0]) != n) continue;
		switch (t[1][0]) {
		case 'c': sljit_set_const(sljit_get_const_addr(u->x.k[atoi(t[2])]), (sljit_s32)names(t[3]), hexw(t[4]), eo); break;
		case 'f': patch_jump(u, atoi(t[2]), SLJIT_FUNC_UADDR(crt(atoi(t[3])))); break;
		case 'j': {
			int l = atoi(t[3]); UW to = 0;
			for (i = 0; i < p->npad; i++) if (p->pad[i].lab == l) to = SLJIT_FUNC_UADDR(p->pad[i].code);
			if (!to) to = sljit_get_label_addr(u->x.lab[l]);
			patch_jump(u, atoi(t[2]), to);
			break; }
		case 'b': {
			UW ad = sljit_get_label_abs_addr(u->x.lab[atoi(t[2])]), size = WB * (UW)(p->patch[k].n - 3);
			UW *w = sljit_read_only_buffer_start_writing(ad, size, eo);
			for (i = 3; i < p->patch[k].n; i++) w[i - 3] = sljit_get_label_addr(u->x.lab[atoi(t[i])]);
			sljit_read_only_buffer_end_writing(ad, size, eo);
			break; }
		}
	}
	if (after_patch) after_patch();
	CLOBBER();
}
/* pieces of code at other places: store a tag, go on */
#if (defined SLJIT_64BIT_ARCHITECTURE && SLJIT_64BIT_ARCHITECTURE)
#define PAD_FAR 0x1250000000UL
#else
#define PAD_FAR 0x2c000000UL
#endif
static void make_pads(struct unit *u)
{
	static uint8_t *fix[3]; struct prog *p = u->p; int i; UW used[3] = { 0, 0, 0 };
	if (!p->npad) return;
	for (i = 0; i < 3; i++) {
		UW base = i == 0 ? 0 : i == 1 ? PAD_BASE : PAD_FAR;
		if (fix[i]) munmap(fix[i], 0x10000);
		fix[i] = mmap((void *)base, 0x10000, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | (base ? MAP_FIXED_NOREPLACE : 0), -1, 0);
		if (fix[i] == MAP_FAILED || (base && (UW)fix[i] != base)) machinery("pad mapping", p->id);
	}
	for (i = 0; i < p->npad; i++) {
		struct sljit_compiler *c = sljit_create_compiler(NULL); int wh = p->pad[i].where;
		struct sljit_generate_code_buffer b;
		sljit_set_context(c, 0, SLJIT_ARGS0V(), p->sc | SLJIT_ENTER_FLOAT(p->fsc), p->sv, 256);
		sljit_emit_op1(c, SLJIT_MOV, SLJIT_MEM1(SLJIT_S2), (SW)p->pad[i].off, SLJIT_IMM, (SW)p->pad[i].tag);
		sljit_emit_ijump(c, SLJIT_JUMP, SLJIT_MEM0(), (SW)p->pad[i].back);
		b.buffer = fix[wh] + used[wh]; b.size = 0x10000 - used[wh]; b.executable_offset = 0;
		p->pad[i].code = sljit_generate_code(c, SLJIT_GENERATE_CODE_BUFFER | SLJIT_GENERATE_CODE_NO_CONTEXT, &b);
		used[wh] += (sljit_get_generated_code_size(c) + 63) & ~(UW)63;
		if (!p->pad[i].code) machinery("pad code", p->id);
		sljit_free_compiler(c);
	}
}
#endif
static void prepare(struct prog *p)
{
	int i, k;
	for (i = 0; i < p->ninit; i++) *(UW *)(INI_BASE + 8 * (UW)i) = p->init[i];
	for (i = 0; i < p->nfinit; i++) memcpy((void *)(INI_BASE + 512 + 8 * (UW)i), &p->finit[i], 8);
	for (i = 0; i < p->nvinit; i++) memcpy((void *)(INI_BASE + 1024 + 64 * (UW)i), p->vinit[i], 64);
	for (k = 0; k < p->nobs; k++) memset((void *)OBSADDR(k), 0, 64);
	memset((void *)(OBS_BASE + OBS_NUM * OBS_SLOT), 0, 64);
}
/* The callee saved registers, as setjmp records them after a call, must be the same after a C function and
   after the generated code, when both are called in the same way.  Everything the compiler could keep in a
   register lives in memory. */
typedef union { UW w; uint32_t i; double d; float f; uint64_t l; uint8_t b[8]; } retval;
static volatile int abi_broken, call_ret, call_no;
static volatile retval call_r;
static void *volatile call_fns[2];
static jmp_buf abi_buf[2], abi_now;
static void __attribute__((noinline)) call_code(void)
{
	call_r.l = 0;
	switch (call_ret) {
	case 'd': call_r.d = ((double (*)(void))call_fns[call_no])(); break;
	case 'f': call_r.f = ((float (*)(void))call_fns[call_no])(); break;
	case '4': call_r.i = ((uint32_t (*)(void))call_fns[call_no])(); break;
	case 'w': call_r.w = ((UW (*)(void))call_fns[call_no])(); break;
	default: ((void (*)(void))call_fns[call_no])();
	}
	if (_setjmp(abi_now)) _exit(4);
	memcpy(abi_buf[call_no], abi_now, sizeof(jmp_buf));
}
static void __attribute__((noinline)) call_twice(void)
{
	call_no = 0;
	call_code();
	call_no = 1;
	call_code();
}
static void __attribute__((noinline)) c_void(void) { __asm__ volatile("" ::: "memory"); }
static UW __attribute__((noinline)) c_word(void) { __asm__ volatile("" ::: "memory"); return 1; }
static uint32_t __attribute__((noinline)) c_int(void) { __asm__ volatile("" ::: "memory"); return 1; }
static double __attribute__((noinline)) c_double(void) { __asm__ volatile("" ::: "memory"); return 1; }
static float __attribute__((noinline)) c_float(void) { __asm__ volatile("" ::: "memory"); return 1; }
static retval checked_call(void *code, int ret)
{
	retval r; UW i;
	memset(abi_now, 0, sizeof abi_now);
	call_ret = ret;
	call_fns[0] = ret == 'd' ? (void *)c_double : ret == 'f' ? (void *)c_float : ret == '4' ? (void *)c_int : ret == 'w' ? (void *)c_word : (void *)c_void;
	call_fns[1] = code;
	call_twice();
	r.l = call_r.l;
#if defined(__powerpc__)
	/* only three fields of the condition register are callee saved */
	((uint32_t *)((UW *)abi_buf[0] + 21))[sizeof(UW) == 8] &= 0x00fff000;
	((uint32_t *)((UW *)abi_buf[1] + 21))[sizeof(UW) == 8] &= 0x00fff000;
#endif
	abi_broken = 0;
	for (i = 0; i < sizeof(jmp_buf); i++) if (((uint8_t *)abi_buf[0])[i] != ((uint8_t *)abi_buf[1])[i]) abi_broken = 1 + (int)i;
	return r;
}
static struct { UW size, gen; int ok, err, dirty, guards; } tries[64];
static int ntries;
static void run_code(struct unit *u)
{
	struct prog *p = u->p;
	retval r;
	int k, first;
	struct ectx *x = &u->x;
	ostr(p->id); ostr("\t");
	if (u->err) {
		ostr("ERR "); onum(u->at); ostr(" "); onum(u->err); ostr(" "); ostr(u->at >= 0 ? p->ins[u->at].tok[0] : "generate"); ostr("\n");
		return;
	}
	prepare(p);
	if (getenv("LIR_DUMP")) {	/* for debugging: the machine code */
		FILE *d = fopen(getenv("LIR_DUMP"), "wb");
		fwrite((void *)(SLJIT_FUNC_UADDR(u->code) & ~(UW)1), 1, u->size, d); fclose(d);
	}
	code_base = SLJIT_FUNC_UADDR(u->code) & ~(UW)1;
#ifdef LIR_CALLS
	phase = "pads";
	running = u;
	make_pads(u);
#endif
	phase = "run";
	r = checked_call(u->code, p->ret);
#ifdef LIR_CALLS
#endif
	phase = "after";
	ostr("\"obs\":[");
	for (k = 0; k < p->nobs; k++) {
		uint8_t *s = (uint8_t *)OBSADDR(k);
		if (k) ostr(",");
		ostr("[");
		if (*(UW *)s)
			for (first = 0; p->mask[k][first]; first++) {
				char m = p->mask[k][first];
				if (first) ostr(",");
				if (m == '0') { ostr("[]"); continue; }
				if (p->kind[k] == 'c') {   /* arguments of a C function */
					uint64_t v; UW v2; uint32_t v3; uint8_t *a = s + 64 + 8 * first;
					memcpy(&v, a, 8); memcpy(&v2, a, sizeof v2); memcpy(&v3, a, 4);
					if (m == 'd') oword(v, 8); else if (m == 'w') oword(v2, WB); else oword(v3, 4);
					continue;
				}
				if (p->kind[k] == 'v') {
					uint8_t *a = s + 64 + 64 * first;
					if (first < p->nvinit && !memcmp(a, p->vinit[first], (size_t)p->vsize)) ostr("[-2]");
					else obytes(a, p->vsize);
				} else {
					uint8_t *a = s + 64 + 8 * first;
					if (m == '4') { uint32_t v; memcpy(&v, a, 4); oword(v, 4); }
					else if (p->kind[k] == 'f') { uint64_t v; memcpy(&v, a, 8); if (first < p->nfinit && v == p->finit[first]) ostr("[-2]"); else oword(v, 8); }
					else { UW v; memcpy(&v, a, sizeof v); if (first < p->ninit && v == p->init[first]) ostr("[-2]"); else oword(v, WB); }
				}
			}
		ostr("]");
	}
	ostr("],\"mem\":[");
	first = dirty_region(D_BASE, D_SIZE, D_SEED, 1, 1);
#ifdef H_BASE
	first = dirty_region(H_BASE, H_SIZE, H_SEED, 2, first);
#endif
	ostr("],\"ret\":");
	switch (p->ret) {
	case 'd': oword(r.l, 8); break;
	case 'f': case '4': oword(r.i, 4); break;
	case 'w': oword(r.w, WB); break;
	default: ostr("[]");
	}
	ostr(abi_broken ? ",\"crash\":\"callee saved register not preserved\",\"lbase\":" : ",\"crash\":\"\",\"lbase\":");
	if (p->wantlb) oword(*(UW *)(OBS_BASE + OBS_NUM * OBS_SLOT), WB); else ostr("[]");
	ostr(",\"laddr\":[");
	for (k = 0; k < u->nlab; k++) { if (k) ostr(","); oword(u->laddr[k], WB); }
	ostr("],\"labs\":[");
	for (k = 0; k < u->nlab; k++) { if (k) ostr(","); oword(u->labs[k], WB); }
	ostr("],\"code\":[");
	if (p->wantaddr) { oword(code_base, WB); ostr(","); oword(u->size, WB); }
	if (ntries) {
		ostr("],\"tries\":[");
		for (k = 0; k < ntries; k++) {
			ostr(k ? ",[" : "["); onum((int)tries[k].size); ostr(","); onum(tries[k].ok); ostr(","); onum(tries[k].err); ostr(",");
			onum(tries[k].dirty); ostr(","); onum(tries[k].guards); ostr(","); onum((int)tries[k].gen); ostr("]");
		}
	}
	if (p->wantaddr) {
		/* where rewritable jumps and constants are, for the writer */
		UW eo = (UW)u->eo;
		ostr("],\"places\":[");
		for (k = 0, first = 1; k < u->nplace; k++) { if (k) ostr(","); oword(u->place[k] + eo, WB); }
	}
	ostr("],\"skip\":[");
	for (k = 0; k < x->nskip; k++) { if (k) ostr(","); onum(x->skip[k]); }
	ostr("]\n");
	oflush();
}
static int in_buffer;
static void unit_free(struct unit *u)
{
	if (u->code && !in_buffer) { sljit_free_code(u->code, NULL); }
	if (u->x.c) sljit_free_compiler(u->x.c);
	u->x.c = NULL; u->code = NULL;
}


#include <pthread.h>
#include <sched.h>
/* compiles one program on its own thread while others are compiled, generated, serialized and freed */
static void *compile_thread(void *a)
{
	struct unit *u = a; int k; unsigned r = (unsigned)(UW)u->p->nins * 77 + 5;
	cur = u->p; phase = "compile";
	for (k = 0; k < u->p->nins; k++) {
		unit_emit(u, k);
		r = r * 1103515245u + 12345u;
		if (!((r >> 16) & 15)) sched_yield();
		if (!((r >> 16) & 31)) {
			struct sljit_compiler *c = sljit_create_compiler(NULL);
			void *f;
			if (!c) _exit(3);
			sljit_emit_enter(c, 0, SLJIT_ARGS0(W), 2, 0, 0);
			sljit_emit_return(c, SLJIT_MOV, SLJIT_IMM, (SW)r);
			f = sljit_generate_code(c, 0, NULL);
			sljit_free_compiler(c);
			if (!f || ((SW (*)(void))f)() != (SW)r) { u->err = 1020; u->at = k; }
			if (f) sljit_free_code(f, NULL);
		}
		if (!((r >> 21) & 31) && !u->err) {
			UW n, *b = sljit_serialize_compiler(u->x.c, 0, &n);
			struct sljit_compiler *c = b ? sljit_deserialize_compiler(b, n, 0, NULL) : NULL;
			if (!c) { u->err = 1021; u->at = k; }
			else sljit_free_compiler(c);
			SLJIT_FREE(b, NULL);
		}
	}
	unit_generate(u, 0, NULL);
	sljit_free_compiler(u->x.c); u->x.c = NULL;
	return NULL;
}

/* caller supplied buffer, surrounded by guard bytes.  Half of the buffers are mapped twice: written at one
   address and executed at another one. */
#define WXGUARD 0x1000
#define GUARD(i) ((uint8_t)(0xa5 ^ (i)))
static int map_fd = -1; static uint8_t *map_exec; static UW map_size;
/* the emulator does not notice changes made through the other mapping */
static void remap(void)
{
	if (mmap(map_exec, map_size, PROT_READ | PROT_EXEC, MAP_SHARED | MAP_FIXED, map_fd, 0) != (void *)map_exec) machinery("remap", "");
}
static void *memfd_map(UW size, int dual, uint8_t **exec)
{
	void *w;
	if (map_fd >= 0) { close(map_fd); map_fd = -1; }
	if (dual) {
		int fd = memfd_create("code", 0);
		if (fd < 0 || ftruncate(fd, (long)size)) machinery("memfd", "");
		w = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		*exec = mmap(NULL, size, PROT_READ | PROT_EXEC, MAP_SHARED, fd, 0);
		map_fd = fd; map_exec = *exec; map_size = size;
	} else
		*exec = w = mmap(NULL, size, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (w == MAP_FAILED || *exec == MAP_FAILED) machinery("mmap", "");
	return w;
}
static void emit_again(struct unit *u)
{
	struct prog *p = u->p; int k;
	unit_free(u);
	if (unit_begin(u, p)) machinery("create", p->id);
	phase = "compile";
	for (k = 0; k < p->nins; k++) unit_emit(u, k);
}
static int try_size(struct unit *u, uint8_t *w, uint8_t *x, UW total, UW at, UW size)
{
	struct sljit_generate_code_buffer b;
	UW i; int n = ntries++;
	if (n >= 64) machinery("tries", u->p->id);
	emit_again(u);
	in_buffer = 1;
	for (i = 0; i < total; i++) w[i] = GUARD(i);
	b.buffer = w + at; b.size = size; b.executable_offset = x - w;
	tries[n].size = size; tries[n].ok = 0; tries[n].dirty = 0; tries[n].guards = 1; tries[n].gen = 0;
	unit_generate(u, SLJIT_GENERATE_CODE_BUFFER, &b);
	tries[n].ok = u->code != NULL; tries[n].err = u->code ? sljit_get_compiler_error(u->x.c) == SLJIT_ERR_COMPILED ? 0 : -1 : u->err;
	tries[n].gen = u->code ? u->size : 0;
	for (i = 0; i < total; i++)
		if (w[i] != GUARD(i)) { if (i < at || i >= at + size) tries[n].guards = 0; else tries[n].dirty = 1; }
	/* the code must not need anything behind its reported size */
	if (u->code && size > u->size) memset(w + at + u->size, 0, size - u->size);
	return u->code != NULL;
}
static void run_buffer(struct unit *u)
{
	UW S, lo, hi, total, at; uint8_t *w, *x;
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
	int dual = rnd(4) != 0;
#else
	int dual = 0;
#endif
	unit_generate(u, 0, NULL);	/* in allocated memory: tells the size */
	in_buffer = 0;
	if (u->err) { run_code(u); return; }
	S = u->size;
	total = (16 * S + 0x11000 + 2 * WXGUARD + 0xffff) & ~(UW)0xffff;
	at = WXGUARD - 16 * rnd(64);
	ntries = 0;
	w = memfd_map(total, dual, &x);
	try_size(u, w, x, total, at, 0);
	try_size(u, w, x, total, at, S - 1);
	if (S > 8) try_size(u, w, x, total, at, rnd((unsigned)S));
	lo = S - 1;		/* smallest size which works */
	for (hi = S; !try_size(u, w, x, total, at, hi); ) { lo = hi; hi += (hi - S) + 16; if (hi > 16 * S + 0x10000) break; }
	while (hi - lo > 1 && hi <= 16 * S + 0x10000) { UW m = lo + (hi - lo) / 2; if (try_size(u, w, x, total, at, m)) hi = m; else lo = m; }
	if (rnd(4) == 0) hi += rnd(300);
	/* the code of another mapping is run: the emulator may not see what was written through the other view */
	munmap(w, total); if (dual) munmap(x, total);
	w = memfd_map(total, dual, &x);
	try_size(u, w, x, total, at, hi);
	if (u->code) u->err = 0;
#ifdef LIR_CALLS
	after_patch = dual ? remap : NULL;
#endif
	run_code(u);
#ifdef LIR_CALLS
	after_patch = NULL;
#endif
	u->code = NULL;
	munmap(w, total); if (dual) munmap(x, total);
}

int main(int argc, char **argv)
{
	static struct prog progs[8];
	static struct unit units[8];
	char *s;
	int first, idx = 0, k, n;
	const char *mode = argc > 3 ? argv[3] : "plain";
	setvbuf(stdout, NULL, _IONBF, 0);	/* messages of failed assertions */
	if (argc < 3) machinery("usage", "");
	if (getenv("LIR_LIMIT")) timer_limit = atoi(getenv("LIR_LIMIT"));
	s = slurp(argv[1]); first = atoi(argv[2]);
	setup_buffers(); setup_signals(); names("-");
	if (!strcmp(mode, "inter") || !strcmp(mode, "threads")) {
		/* groups of compilers used alternately; all code stays alive while each is run */
		for (;;) {
			int g = 0, left;
			for (n = 0; n < 6; n++) { if (!parse_prog(&s, &progs[n])) break; }
			if (!n) break;
			idx += n;
			if (idx <= first) continue;
			arm_timer(); phase = "compile"; cur = &progs[0];
			rng = (unsigned)(idx * 7919 + 1);
			for (k = 0; k < n; k++) if (unit_begin(&units[k], &progs[k])) machinery("create", progs[k].id);
			if (!strcmp(mode, "threads")) {
				pthread_t th[8];
				for (k = 0; k < n; k++) if (pthread_create(&th[k], NULL, compile_thread, &units[k])) machinery("thread", "");
				for (k = 0; k < n; k++) pthread_join(th[k], NULL);
			} else {
				int pos[8] = { 0 };
				for (left = n; left > 0; ) {
					int q = (int)rnd((unsigned)n), m;
					if (pos[q] < 0) continue;
					cur = &progs[q];
					for (m = 1 + (int)rnd(3); m > 0 && pos[q] < progs[q].nins; m--) unit_emit(&units[q], pos[q]++);
					if (pos[q] >= progs[q].nins) { unit_generate(&units[q], 0, NULL); sljit_free_compiler(units[q].x.c); units[q].x.c = NULL; pos[q] = -1; left--; }
				}
			}
			/* run in another order, freeing every second one in between */
			for (g = 0; g < n; g++) {
				int q = (g * 5 + 1) % n; if (n % 5 == 0) q = g;
				cur = &progs[q]; run_code(&units[q]); unit_free(&units[q]);
			}
			oflush();
		}
	} else
	for (;; idx++) {
		struct unit *u = &units[0];
		struct prog *p = &progs[0];
		if (!parse_prog(&s, p)) break;
		if (idx < first) continue;
		arm_timer(); cur = p; phase = "compile";
		if (unit_begin(u, p)) machinery("create", p->id);
		n = p->nins;
		if (!strcmp(mode, "serial")) {
			int every;
			rng = (unsigned)(idx * 104729 + 17);
			every = (idx & 1) ? 1 : 1 + (int)rnd(12);
			for (k = 0; k < n; k++) {
				unit_emit(u, k);
				if (!u->err && k % every == every - 1) { int r; phase = "serialize"; r = restore(u); if (r) unit_fail(u, k, r); phase = "compile"; }
			}
			unit_generate(u, 0, NULL);
			run_code(u);
		} else {
			rng = (unsigned)(idx * 104729 + 17);
			for (k = 0; k < n; k++) unit_emit(u, k);
			if (!strcmp(mode, "buffer")) run_buffer(u);
			else { unit_generate(u, 0, NULL); run_code(u); }
		}
		oflush();
		unit_free(u);
	}
	return 0;
}
