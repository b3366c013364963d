"""C12: histories of the executable memory allocators."""
import os, sys, random
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_alloc as ga

rep = Report("C12")
V = {"x86_64": "rwx", "x86_64_prot": "prot", "x86_64_wx": "wx", "x86_32": "rwx", "x86_32_prot": "prot", "x86_32_wx": "wx"}
for a in ("prot", "wx"):
    b = ARCHS["x86_32"]
    ARCHS["x86_32_" + a] = Arch("x86_32_" + a, b.cc, b.run, b.flags + " -DSLJIT_%s_EXECUTABLE_ALLOCATOR=1" % a.upper(), 4, 0, b.nr, b.nfr)
archs = [a for a in sys.argv[1:] if a in V] or list(V)
os.environ["TMPDIR"] = tmpdir()
n = int(os.environ.get("C12_N", 300 if THOROUGH else 60))
hook = " ".join("-D%s=vf_%s" % (x, x) for x in ("mmap", "munmap", "mprotect", "ftruncate", "open", "mkostemp"))
bins = build(archs, "alloc.c", libextra=hook + " -D_GNU_SOURCE")


def histories(a):
    r = random.Random("%s-%d" % (a, SEED))
    l = [ga.history(r, "%s-h%d" % (a, i), r.choice([20, 60, 150]), V[a]) for i in range(n)]
    l += [ga.threaded(r, "%s-t%d" % (a, i), r.choice([2, 4, 8]), r.choice([60, 200, 400])) for i in range(n // 5)]
    if not a.startswith("x86_32") or THOROUGH:
        l += ga.exhaustive([40, 30000, 65000], 6 if THOROUGH else 5, a + "-x")
    return l


def model(rep):
    for m in MODELS:
        rc, out = tlc(m + ".cfg", m.split("-")[0] + ".tla", workers=3)
        if rc != 0 or "No error has been found" not in out:
            fail("%s: %s" % (m, out[-1500:]))
        g, d = tlc_stats(out)
        rep.add(states=d, transitions=g, laws=["%s: %d states" % (m, d)])


MODELS = ["AllocImpl", "AllocImpl-threads"]


def one(a):
    l = histories(a)
    parts = [l[i::4] for i in range(4)]
    out = []
    for k, part in enumerate(parts):
        f = os.path.join(tmpdir(), "h-%s-%d.txt" % (a, k))
        with open(f, "w") as h:
            for p in part:
                h.write(p.text())
        ids = [p.id for p in part]
        out.append((f, ids))
    res = {}
    for f, ids in out:
        res.update(run_programs(a, bins[a], f, len(ids), ids, "plain", timeout=300))
    return [(a, p, res.get(p.id)) for p in l]


with cf.ThreadPoolExecutor(1) as ex:
    fut = ex.submit(model, rep)
    recs, info, missing, seen, nev = [], {}, [], {}, 0
    for l in pmap(one, archs):
        for a, p, fr in l:
            if fr is None:
                missing.append(p.id)
            elif fr.startswith("CRASH"):
                rep.violation("%s on %s: %s" % (p.id, a, fr), "history:\n" + p.text())
            else:
                nev += fr.count('],[')
                if fr not in seen:
                    seen[fr] = p.id
                    recs.append((p.id, '{"id":%s,%s}' % (json.dumps(p.id), fr)))
                    info[p.id] = (a, p)
    fut.result()
    rej, states = validate(recs, "AllocTrace.cfg", "AllocTrace.tla")
for tid, (pc, what, text) in sorted(rej.items()):
    a, p = info[tid]
    rep.violation("%s on %s: event %d %s" % (p.id, a, pc, text[:200]), "history:\n%s\nrecord: %s" % (p.text(), [x for x in recs if x[0] == tid][0][1]))
if missing and not rep.viol:
    fail("no result for %d histories, e.g. %s" % (len(missing), missing[:3]))
rep.add(histories=len(recs), events=nev, traces_validated_against_impl=len(recs), states=states[1], transitions=states[0],
        samples=[recs[0][1][:600]] if recs else [])
rep.finish()
