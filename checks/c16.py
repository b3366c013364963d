"""C16: patterns of the regular expression engine matched on every backend."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_regex as gr

rep = Report("C16")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + V_FLOW
n = int(os.environ.get("C16_N", 8000 if THOROUGH else 1200))
hook = "-include %s/harness/stack/decl.h -I%s/regex_src" % (VERIF, REPO)
bins = build(archs, "regexrun.c", extra=hook, sources=[REPO + "/regex_src/regexJIT.c"])
cases = gr.cases(n, SEED + 1600)
path = os.path.join(tmpdir(), "cases.txt")
with open(path, "w") as h:
    for c in cases:
        h.write(c.text())
few = cases[: len(cases) // 4]
fpath = os.path.join(tmpdir(), "few.txt")
with open(fpath, "w") as h:
    for c in few:
        h.write(c.text())


def one(k):
    a, mode = k
    l, f = (few, fpath) if mode == "faults" else (cases, path)
    ids = [c.id for c in l]
    return a, mode, l, run_programs(a, bins[a], f, len(ids), ids, mode)


recs, info, missing, groups, nruns = [], {}, [], {}, 0
for a, mode, l, res in pmap(one, [(a, "plain") for a in archs] + [(a, "faults") for a in ("x86_64", "x86_32") if a in archs]):
    for c in l:
        fr = res.get(c.id)
        if fr is None:
            missing.append((a, c.id))
        elif fr.startswith("CRASH"):
            rep.violation("%s on %s: %s" % (c.id, a, fr), c.show())
        else:
            groups.setdefault((c.id, fr), []).append((a, c))
            nruns += len(c.runs)
for k, ((cid, fr), l) in enumerate(groups.items()):
    tid = "%s|%d" % (cid, k)
    recs.append((tid, '{"id":%s,%s}' % (json.dumps(tid), fr)))
    info[tid] = l
rej, states = validate(recs, "RegexTrace.cfg", "RegexTrace.tla")
for tid, (pc, what, text) in sorted(rej.items()):
    l = info[tid]
    rep.violation("%s on %s: %r flags %d, piece %d %s" % (l[0][1].id, ",".join(a for a, _ in l), bytes(l[0][1].pat), l[0][1].flags, pc, text[:160]), l[0][1].show())
if missing and not rep.viol:
    fail("no result for %d cases, e.g. %s" % (len(missing), missing[:3]))
rep.add(patterns=len(cases), runs=nruns, traces_validated_against_impl=len(recs), states=states[1], transitions=states[0], samples=[recs[0][1][:600]] if recs else [])
rep.finish()
