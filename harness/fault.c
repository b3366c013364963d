/* Records what a compiler asks from its memory allocators, and what its functions return, while requests fail.
   fault FILE FIRST: one output line per program, id TAB sessions (see spec/SessionTrace.tla). */
#include "lir.h"
#include <sys/time.h>
#include <setjmp.h>
static struct prog *cur;
static const char *volatile phase = "";
#ifdef LIR_CALLS
#include "lircalls.h"
static void patcher(SW n) { }
#endif
static unsigned rng;
static unsigned rnd(unsigned n) { rng = rng * 1103515245u + 12345u; return (rng >> 8) % n; }

/* ---- allocators ---- */
#define COMPILER_DATA ((void *)0x1235)
#define EXEC_DATA ((void *)0x5431)
#define MAXBLK 4096
struct blk { void *p; size_t n; int exec, live; };
static struct blk blk[MAXBLK]; static int nblk;
static int requests, fail_at, fail_after, fail_prob;	/* the schedule of failures */
/* what happened since the last event */
static int evA[MAXBLK], nA, evR[MAXBLK], nR, failM, failX, badarg;
static int should_fail(void)
{
	requests++;
	if (requests == fail_at || (fail_after && requests > fail_after)) return 1;
	return fail_prob && rnd(100) < (unsigned)fail_prob;
}
#define TAIL 32
void *vf_malloc(size_t n, void *data)
{
	uint8_t *p;
	if (data != COMPILER_DATA || n == 0) badarg = 1;
	if (should_fail()) { failM++; return NULL; }
	if (nblk >= MAXBLK) machinery("blocks", "");
	p = malloc(n + TAIL);
	if (!p) machinery("memory", "");
	memset(p, 0xb5, n + TAIL);
	blk[nblk].p = p; blk[nblk].n = n; blk[nblk].exec = 0; blk[nblk].live = 1;
	evA[nA++] = ++nblk;
	return p;
}
static int find(void *p, int exec) { int k; for (k = nblk - 1; k >= 0; k--) if (blk[k].live && blk[k].p == p && blk[k].exec == exec) return k; return -1; }
void vf_free(void *p, void *data)
{
	int k = find(p, 0), i;
	if (data != COMPILER_DATA) badarg = 1;
	if (k < 0) { evR[nR++] = 0; return; }	/* not a live block */
	for (i = 0; i < TAIL; i++) if (((uint8_t *)p)[blk[k].n + i] != 0xb5) badarg = 2;	/* written behind its end */
	memset(p, 0xdb, blk[k].n);
	blk[k].live = 0; evR[nR++] = k + 1;
	free(p);
}
void *sljit_malloc_exec(UW n);
void sljit_free_exec(void *p);
void *vf_malloc_exec(size_t n, void *data)
{
	void *p;
	if (data != EXEC_DATA) badarg = 1;
	if (should_fail()) { failX++; return NULL; }
	p = sljit_malloc_exec(n);
	if (!p) machinery("exec memory", "");
	blk[nblk].p = p; blk[nblk].n = n; blk[nblk].exec = 1; blk[nblk].live = 1;
	evA[nA++] = ++nblk;
	return p;
}
void vf_free_exec(void *p, void *data)
{
	int k = find(p, 1);
#if (defined SLJIT_PROT_EXECUTABLE_ALLOCATOR && SLJIT_PROT_EXECUTABLE_ALLOCATOR)
	/* the address of the code is in the other view */
	for (k = nblk - 1; k >= 0; k--) if (blk[k].live && blk[k].exec && (uint8_t *)blk[k].p + sljit_exec_offset(blk[k].p) == p) break;
#endif
	if (data != EXEC_DATA) badarg = 1;
	if (k < 0) { evR[nR++] = 0; return; }
	blk[k].live = 0; evR[nR++] = k + 1;
	sljit_free_exec(p);
}

/* ---- events ---- */
static int first_ev, quiet_n, quiet_ret, quiet_err, quiet_c;
static void flush_quiet(void)
{
	if (!quiet_n) return;
	ostr(first_ev ? "[" : ",["); first_ev = 0;
	ostr("\"emit\","); onum(quiet_c); ostr(",[],[],0,0,0,"); onum(quiet_ret); ostr(","); onum(quiet_err); ostr(","); onum(quiet_n); ostr("]");
	quiet_n = 0;
}
static void list(int *v, int n) { int i; ostr("["); for (i = 0; i < n; i++) { if (i) ostr(","); onum(v[i]); } ostr("]"); }
/* op, compiler, blocks obtained, blocks returned, failed requests (memory, executable), bad use, result, error afterwards, count */
static void event(const char *op, int c, int ret, int err)
{
	if (!strcmp(op, "emit") && !nA && !nR && !failM && !failX && !badarg) {
		if (quiet_n && (quiet_ret != ret || quiet_err != err || quiet_c != c)) flush_quiet();
		quiet_n++; quiet_ret = ret; quiet_err = err; quiet_c = c;
		return;
	}
	flush_quiet();
	ostr(first_ev ? "[\"" : ",[\""); first_ev = 0;
	ostr(op); ostr("\","); onum(c); ostr(","); list(evA, nA); ostr(","); list(evR, nR); ostr(",");
	onum(failM); ostr(","); onum(failX); ostr(","); onum(badarg); ostr(","); onum(ret); ostr(","); onum(err); ostr(",1]");
	nA = nR = failM = failX = badarg = 0;
}
static int block_of(void *p, int exec) { return find(p, exec) + 1; }

static void crash(int sig)
{
	char b[200]; int l;
	l = snprintf(b, sizeof b, "%s\tCRASH %s-%s\n", cur ? cur->id : "?", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGABRT ? "SIGABRT" : sig == SIGVTALRM ? "TIMEOUT" : "SIGNAL", phase);
	if (write(1, b, (size_t)l) < 0) _exit(4);
	_exit(5);
}
static struct ectx X;
static uint8_t bigbuf[1 << 20] __attribute__((aligned(65536)));
enum { SERIAL = 1, BUFFER = 2, USER = 4 };

static sljit_s32 emit_one(struct ectx *x, struct ins *in)
{
	struct ins o = *in; sljit_s32 r;
	if (in->tok[0][0] == '?') { o.n--; memmove(o.tok, o.tok + 1, sizeof(char *) * (size_t)o.n); }
	r = emit_ins(x, &o);
	if (r == SLJIT_ERR_UNSUPPORTED && in->tok[0][0] == '?' && !sljit_get_compiler_error(x->c)) r = 0;
	return r;
}
/* One session: a program is compiled, with failures as scheduled, and everything is released.
   Returns the number of requests which were made. */
static int session(struct prog *p, int variant, int at)
{
	struct ectx *x = &X; struct sljit_compiler *c2 = NULL; void *code = NULL; UW *sb = NULL, n = 77; int k, sat, uat, r; void *m;
	static int any;
	memset(x, 0, sizeof *x); x->p = p;
	nblk = 0; requests = 0; nA = nR = failM = failX = badarg = 0; quiet_n = 0;
	rng = (unsigned)(p->nins * 7 + variant);	/* the same choices in every session of a variant */
	sat = variant & SERIAL ? (int)rnd((unsigned)p->nins) : -1;
	uat = variant & USER ? (int)rnd((unsigned)p->nins) : -1;
	rng += (unsigned)at * 31;
	ostr(any && outn && out[outn - 1] == ']' ? ",[" : "["); any = 1;
	first_ev = 1;
	phase = "create";
	x->c = sljit_create_compiler(COMPILER_DATA);
	event("create", 1, x->c != NULL, x->c ? sljit_get_compiler_error(x->c) : 0);
	if (x->c) {
		phase = "compile";
		for (k = 0; k < p->nins; k++) {
			if (!strcmp(p->ins[k].tok[0], "fill")) continue;
			if (k == uat) { sljit_set_compiler_memory_error(x->c); event("usererr", 1, 0, sljit_get_compiler_error(x->c)); }
			if (k == sat) {
				phase = "serialize"; n = 77;
				sb = sljit_serialize_compiler(x->c, 0, &n);
				event("serialize", 1, sb ? block_of(sb, 0) : 0, sljit_get_compiler_error(x->c));
				if (sb) {
					phase = "deserialize";
					c2 = sljit_deserialize_compiler(sb, n, 0, COMPILER_DATA);
					event("deserialize", 2, c2 != NULL, c2 ? sljit_get_compiler_error(c2) : 0);
					vf_free(sb, COMPILER_DATA);
					event("freebuf", 1, 0, 0);
				}
				phase = "compile";
			}
			r = emit_one(x, &p->ins[k]);
			event("emit", 1, r, sljit_get_compiler_error(x->c));
		}
		if (c2 && sat > 0 && rnd(2)) {
			/* the restored compiler goes on by itself */
			r = sljit_emit_op1(c2, SLJIT_MOV, SLJIT_R0, 0, SLJIT_IMM, 1);
			event("emit", 2, r, sljit_get_compiler_error(c2));
			sljit_free_compiler(c2); c2 = NULL;
			event("free", 2, 0, 0);
		}
		m = sljit_alloc_memory(x->c, 1 + (sljit_s32)rnd(32));
		event("alloc", 1, m != NULL, sljit_get_compiler_error(x->c));
		phase = "generate";
		bind_labels(x);
		if (variant & BUFFER) {
			struct sljit_generate_code_buffer b;
			if (mprotect(bigbuf, sizeof bigbuf, PROT_READ | PROT_WRITE)) machinery("mprotect", "");
			b.buffer = bigbuf; b.size = sizeof bigbuf; b.executable_offset = 0;
			code = sljit_generate_code(x->c, SLJIT_GENERATE_CODE_BUFFER, &b);
			event("generate_buffer", 1, code != NULL, sljit_get_compiler_error(x->c));
		} else {
			code = sljit_generate_code(x->c, 0, EXEC_DATA);
			/* which block the code is in, is known when it is freed */
			event("generate", 1, code != NULL, sljit_get_compiler_error(x->c));
		}
		phase = "after";
		for (k = 0; k < p->nins; k++) {
			if (!strcmp(p->ins[k].tok[0], "fill") || !strcmp(p->ins[k].tok[0], "opaddr") || !strcmp(p->ins[k].tok[0], "label") || !strcmp(p->ins[k].tok[0], "alabel")) continue;
			if (rnd(3)) continue;
			{ struct ectx *y = malloc(sizeof *y); *y = *x; r = emit_one(y, &p->ins[k]); free(y); }
			event("emit", 1, r, sljit_get_compiler_error(x->c));
		}
		m = sljit_generate_code(x->c, 0, EXEC_DATA);
		event("emit", 1, m ? -5 : sljit_get_compiler_error(x->c), sljit_get_compiler_error(x->c));
		m = sljit_alloc_memory(x->c, 8);
		event("emit", 1, m ? -5 : sljit_get_compiler_error(x->c), sljit_get_compiler_error(x->c));
		m = sljit_emit_label(x->c);
		event("emit", 1, m ? -5 : sljit_get_compiler_error(x->c), sljit_get_compiler_error(x->c));
		m = sljit_serialize_compiler(x->c, 0, NULL);
		event("emit", 1, m ? -5 : sljit_get_compiler_error(x->c), sljit_get_compiler_error(x->c));
		sljit_set_compiler_memory_error(x->c);
		event("usererr", 1, 0, sljit_get_compiler_error(x->c));
		phase = "free";
		k = (int)rnd(2);
		if (k && code && !(variant & BUFFER)) { sljit_free_code(code, EXEC_DATA); event("freecode", 1, 0, 0); }
		sljit_free_compiler(x->c);
		event("free", 1, 0, 0);
		if (!k && code && !(variant & BUFFER)) { sljit_free_code(code, EXEC_DATA); event("freecode", 1, 0, 0); }
		if (c2) { sljit_free_compiler(c2); event("free", 2, 0, 0); }
	}
	flush_quiet();
	ostr("]");
	/* what was left behind */
	for (k = 0; k < nblk; k++) if (blk[k].live) { if (blk[k].exec) sljit_free_exec((uint8_t *)blk[k].p + SLJIT_EXEC_OFFSET(blk[k].p)); else free(blk[k].p); blk[k].live = 0; }
	return requests;
}
static struct prog prog;
int main(int argc, char **argv)
{
	static char stk[65536]; static const int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGVTALRM };
	stack_t ss; struct sigaction sa; char *s; int idx = 0, first, k, v, maxat; unsigned i;
	memset(&ss, 0, sizeof ss); ss.ss_sp = stk; ss.ss_size = sizeof stk; sigaltstack(&ss, NULL);
	memset(&sa, 0, sizeof sa); sa.sa_handler = crash; sa.sa_flags = SA_ONSTACK;
	for (i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, NULL);
	setvbuf(stdout, NULL, _IONBF, 0);	/* messages of failed assertions */
	if (argc < 3) machinery("usage", "");
	s = slurp(argv[1]); first = atoi(argv[2]); names("-");
	maxat = argc > 4 ? atoi(argv[4]) : 10;
	for (;; idx++) {
		struct itimerval t;
		if (!parse_prog(&s, &prog)) break;
		if (idx < first) continue;
		memset(&t, 0, sizeof t); t.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &t, NULL);
		cur = &prog; outn = 0;
		ostr(prog.id); ostr("\t\"sessions\":[");
		for (v = 0; v < 8; v++) {
			int n, step, at;
			if (v & USER && v != USER) continue;
			fail_at = fail_after = fail_prob = 0;
			n = session(&prog, v, 0);
			if (v & USER) continue;
			step = n <= maxat ? 1 : (n + maxat - 1) / maxat;
			for (at = 1 + (step > 1 ? (idx * 7 + v) % step : 0); at <= n; at += step) {
				fail_at = at; fail_after = at % 3 == 2 ? at : 0;
				session(&prog, v, at);
			}
			/* the first and last ones always: creation and generation */
			for (k = 0; k < 6; k++) { fail_at = k < 3 ? k + 1 : n - (k - 3); fail_after = 0; if (step > 1) session(&prog, v, fail_at); }
			fail_at = fail_after = 0; fail_prob = 20;
			session(&prog, v, 1000 + idx);
		}
		ostr("]\n");
		oflush();
	}
	return 0;
}
