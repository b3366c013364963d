"""C19: what the library says about itself against what it does."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_custom

rep = Report("C19")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + VARIANTS
read_registers(archs)
(FPU, VIRTUAL, ZEROREG, CLZ, CTZ, REV, ROT, CMOV, PREFETCH, COPY32, COPY64, PAIR, SIMD, SIMDPAIR, ATOMIC, BARRIER) = range(16)
AVX, AVX2, LASX = 100, 101, 201


def x86(flags, virt, detect=False):
    has = lambda *n: 1 if all(f in flags for f in n) else 0
    return [(FPU, has("sse2") if detect else 1), (VIRTUAL, virt), (CLZ, 1 if has("abm") else 2), (CTZ, 1 if has("bmi1") else 2), (CMOV, has("cmov")),
            (AVX, has("avx")), (AVX2, has("avx2")), (SIMD, has("sse4_1")), (ATOMIC, 1), (BARRIER, 1)]


def host():
    for l in open("/proc/cpuinfo"):
        if l.startswith("flags"):
            return l.split(":")[1].split()
    return None


NEHALEM = ["cmov", "sse2", "sse4_1"]
CPU = {"x86_64_nehalem": NEHALEM, "x86_64_conroe": ["cmov", "sse2"], "x86_64_sandy": NEHALEM + ["avx"], "x86_32_core": ["cmov", "sse2"], "x86_32_p3": ["cmov"]}


def facts(a):
    """what is known about the processor the code runs on"""
    A = ARCHS[a]
    b = A.base
    if b.startswith("x86"):
        f = CPU.get(a) or host()
        return x86(f, 1 if A.virt else 0, "DETECT_SSE2" in A.flags) if f else []
    if b.startswith("arm"):
        v6 = b == "armv6"
        return [(FPU, 1), (VIRTUAL, 0), (SIMD, 0 if v6 else 1), (SIMDPAIR, 1), (PAIR, 1), (ATOMIC, 1), (BARRIER, 0 if v6 else 1)]
    if b == "aarch64":
        return [(FPU, 1), (VIRTUAL, 0), (SIMD, 1), (SIMDPAIR, 0), (PAIR, 0), (ATOMIC, 1), (BARRIER, 1)]
    if b.startswith("riscv"):
        m = A.flags.split("-march=")[-1].split()[0]
        base = m.split("_")[0][4:]
        return [(FPU, 1), (VIRTUAL, 0), (ZEROREG, 1), (ATOMIC, 1 if "a" in base or "g" in base else 0), (SIMD, 1 if "v" in base else 0), (CLZ, 1 if "zbb" in m else 0),
                (CTZ, 1 if "zbb" in m else 0), (REV, 1 if "zbb" in m else 0), (ROT, 1 if "zbb" in m else 0), (COPY32, 1), (COPY64, 1), (PAIR, 0), (BARRIER, 1)]
    if b == "s390x":
        return [(FPU, 1), (VIRTUAL, 0), (SIMD, 1), (PAIR, 0), (ATOMIC, 1), (BARRIER, 1)]
    if b == "loongarch64":
        return [(FPU, 1), (VIRTUAL, 0), (SIMD, 1), (LASX, 1), (PAIR, 0), (ATOMIC, 1), (BARRIER, 1)]
    if b.startswith("ppc"):
        return [(FPU, 1), (VIRTUAL, 0), (SIMD, 0), (PAIR, 0), (ATOMIC, 1), (BARRIER, 1)]
    if b.startswith("mips"):
        rev = 0 if a.endswith("_r0") else 1 if a.endswith("_r1") else 2
        return [(FPU, 1), (VIRTUAL, 0), (ZEROREG, 1), (SIMD, 0), (CLZ, 1 if rev else 0), (CMOV, 1 if rev else 0), (ATOMIC, 1 if rev else 0), (BARRIER, 1 if rev else 0),
                (REV, 1 if rev > 1 else 0), (ROT, 1 if rev > 1 else 0)]
    return []


bins = build(archs, "query.c", extra="-DSLJIT_DEBUG=0 -DSLJIT_ARGUMENT_CHECKS=1 -DSLJIT_VERBOSE=0", key="-q")
DEN = int(os.environ.get("C19_DEN", 1 if THOROUGH else 5))


def one(a):
    try:
        p = subprocess.run(runcmd(a, bins[a]) + [str(SEED), str(DEN)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    except subprocess.TimeoutExpired:
        fail("%s: no answer in time" % a)
    if p.returncode == 3:
        fail("harness: " + p.stderr.decode()[-300:])
    lines = [l.split("\t", 1) for l in p.stdout.decode().splitlines() if "\t" in l]
    return a, p.returncode, lines


recs, info = [], {}
for a, rc, lines in pmap(one, archs):
    if rc:
        rep.violation("%s: the library stopped the program with status %d" % (a, rc), "after: %s" % (lines[-1][1][-600:] if lines else "nothing"))
        continue
    head = dict(lines)["head"]
    feat = re.search(r'"feat":(\[\[.*?\]\])', head).group(1)
    f = ["[%d,%d]" % x for x in facts(a)]
    for n, t in lines:
        tid = "%s|%s" % (a, n)
        recs.append((tid, '{"id":%s,"kind":"%s",%s}' % (json.dumps(tid), "head" if n == "head" else "req", t + ',"facts":[%s]' % ",".join(f) if n == "head" else '"feat":%s,%s' % (feat, t))))
        info[tid] = (a, n, t)
rej, states = validate(recs, "QueryTrace.cfg", "QueryTrace.tla", chunk=None)
for tid, (pc, what, text) in sorted(rej.items()):
    a, n, t = info[tid]
    if n == "head":
        rep.violation("%s: %s" % (a, what), "answers: %s\nfacts: %s" % (t, facts(a)))
    else:
        q = json.loads("{%s}" % t)["q"][pc - 1]
        rep.violation("%s: request %s" % (a, q), "fields: kind size element options operand | test effect again result grew error then flags same other | type x y z mem memw\n%s\nall rejected of this group: %s" % (q, text[-800:]))
nq = sum(t.count('["') for a, n, t in info.values() if n != "head")
rep.add(requests=nq, answers=len(archs), traces_validated_against_impl=len(recs), states=states[1], transitions=states[0], samples=[recs[1][1][:500]] if len(recs) > 1 else [])
# the machine register numbers are those of the registers
n = 250 if THOROUGH else 40
cust = [a for a in archs if a not in ("x86_32_p3", "x86_64_conroe")]
conform(rep, {a: gen_custom.custom(ARCHS[a], n, SEED) for a in cust}, cust)
rep.finish()
