"""C14: histories of the stack utility."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_stack as gs

rep = Report("C14")
V = ["x86_64", "x86_64_simple", "x86_32", "x86_32_simple"]
for b in ("x86_64", "x86_32"):
    B = ARCHS[b]
    ARCHS[b + "_simple"] = Arch(b + "_simple", B.cc, B.run, B.flags + " -DSLJIT_UTIL_SIMPLE_STACK_ALLOCATION=1", B.w, 0, B.nr, B.nfr)
archs = [a for a in sys.argv[1:] if a in V] or V
n = int(os.environ.get("C14_N", 1500 if THOROUGH else 250))
hook = "-DSLJIT_UTIL_STACK=1 -D_GNU_SOURCE"
bins = build(archs, "stackrun.c", extra=hook, libextra="-Dmmap=vf_mmap -Dmunmap=vf_munmap -Dmadvise=vf_madvise -Dposix_madvise=vf_posix_madvise -include %s/harness/stack/decl.h" % VERIF)


def model(rep):
    rc, out = tlc("StackImpl.cfg", "StackImpl.tla", workers=3)
    if rc != 0 or "No error has been found" not in out:
        fail("StackImpl: " + out[-1500:])
    g, d = tlc_stats(out)
    rep.add(states=d, transitions=g, laws=["StackImpl: %d states, refines Stack, contents kept" % d])


def one(a):
    r = random.Random("%s-%d" % (a, SEED))
    l = [gs.history(r, "%s-h%d" % (a, i), r.choice([10, 40, 120])) for i in range(n)]
    f = os.path.join(tmpdir(), "h-%s.txt" % a)
    with open(f, "w") as h:
        for p in l:
            h.write(p.text())
    ids = [p.id for p in l]
    res = run_programs(a, bins[a], f, len(ids), ids, "plain", timeout=300)
    return [(a, p, res.get(p.id)) for p in l]


with cf.ThreadPoolExecutor(1) as ex:
    fut = ex.submit(model, rep)
    recs, info, missing = [], {}, []
    for l in pmap(one, archs):
        for a, p, fr in l:
            if fr is None:
                missing.append(p.id)
            elif fr.startswith("CRASH"):
                rep.violation("%s on %s: %s" % (p.id, a, fr), "history:\n" + p.text())
            else:
                recs.append((p.id, '{"id":%s,%s}' % (json.dumps(p.id), fr)))
                info[p.id] = (a, p)
    fut.result()
    rej, states = validate(recs, "StackTrace.cfg", "StackTrace.tla")
for tid, (pc, what, text) in sorted(rej.items()):
    a, p = info[tid]
    rep.violation("%s on %s: event %d %s" % (p.id, a, pc, text[:200]), "history:\n%s\nrecord: %s" % (p.text(), [x for x in recs if x[0] == tid][0][1]))
if missing and not rep.viol:
    fail("no result for %d histories, e.g. %s" % (len(missing), missing[:3]))
rep.add(histories=len(recs), traces_validated_against_impl=len(recs), states=states[1], transitions=states[0], samples=[recs[0][1][:600]] if recs else [])
rep.finish()
