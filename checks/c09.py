"""C09: atomic load / store pairs.  One thread: random programs, every outcome determined, validated against
spec/Lir.tla.  Several threads: recorded histories validated against spec/Atomic.tla, which the models of compare
and swap and of load linked / store conditional are shown to refine."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_atomic
from gen_atomic import applies

rep = Report("C09")
# ARM-64 has a second implementation, selected by the target of the C compiler
archs = CODEGEN + V_ATOMIC


def model():
    def one(m):
        return tlc("AtomicImpl-%s.cfg" % m, "AtomicImpl.tla", workers=3)
    ms = ("cas", "ls", "val")
    for m, (rc, out) in zip(ms, pmap(one, ms, 3)):
        if rc != 0 or "No error has been found" not in out:
            fail("AtomicImpl: " + out[-1500:])
        g, d = tlc_stats(out)
        rep.add(states=d, transitions=g, laws=["AtomicImpl-%s refines Atomic: %d states" % (m, d)])


def threads():
    bins = build(archs, "atomicrun.c")

    def one(a):
        A = ARCHS[a]
        r = random.Random("%s-%d" % (a, SEED))
        l = []
        for op, size in (("MOV", A.w), ("MOV_P", A.w), ("MOV32", 4), ("MOV_U32", 4), ("MOV_S32", 4), ("MOV_U16", 2), ("MOV_U8", 1), ("MOV32_U16", 2), ("MOV32_U8", 1)):
            for mode in "dcl":
                vs = [0, 1, 2, 3]
                for v in (vs if THOROUGH else r.sample(vs, 2)):
                    for k in range(6 if THOROUGH else 1):
                        v2 = v + r.choice([0, 4]) + r.choice([0, 8])
                        n = 60 if size == 1 else r.choice([60, 150])
                        nt = 4
                        l.append("%s-%s-%s-%d-%d %s %s %d %d %d %d %d %d" % (a, op, mode, v2, k, op, mode, v2, nt, r.choice([1, 2, 3, 4]), n, r.choice([0, 0, 2, 20]), r.randrange(1 << 16)))
                if size > 1 and not A.run:        # in parallel on the processor
                    v2 = r.randrange(4) + r.choice([0, 8])
                    l.append("%s-%s-%s-%d-long %s %s %d %d %d %d 0 %d" % (a, op, mode, v2, op, mode, v2, 5, r.choice([1, 3]), 1000, r.randrange(1 << 16)))
        f = os.path.join(tmpdir(), "a-%s.txt" % a)
        open(f, "w").write("\n".join(l) + "\n")
        ids = [x.split()[0] for x in l]
        res = run_programs(a, bins[a], f, len(ids), ids, "plain", timeout=300)
        return [(a, x, res.get(x.split()[0])) for x in l]
    recs, info, uns = [], {}, 0
    for rs in pmap(one, archs, 2):
        for a, x, fr in rs:
            i = x.split()[0]
            if fr is None:
                if not rep.viol:
                    fail("no result for " + i)
            elif not fr.startswith('"'):
                rep.violation("%s: %s" % (i, fr), "test: " + x)
            elif fr.startswith('"sup":0'):
                uns += 1
            else:
                recs.append((i, '{"id":%s,%s}' % (json.dumps(i), fr)))
                info[i] = x
    rej, states = validate(recs, "AtomicTrace.cfg", "AtomicTrace.tla")
    t = dict(recs)
    for i, (pc, what, text) in sorted(rej.items()):
        rep.violation("%s: the recorded history is not possible: %s" % (i, text[:200]), "test (id op mode variant threads cells ops spin seed): %s\n%s" % (info[i], t[i]))
    rep.add(thread_histories=len(recs), unsupported_forms=uns, traces_validated_against_impl=len(recs), states=states[1], transitions=states[0])


for r in range(5 if THOROUGH else 1):
    n = int(os.environ.get("C09_N", 2000 if THOROUGH else 400))
    conform(rep, gen_atomic.sets(n, SEED * 100 + r), archs, applies=applies)
threads()
model()
rep.finish()
