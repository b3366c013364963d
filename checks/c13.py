"""C13: errors of compilers under every failure of a memory request, and the ownership of memory."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import mix

rep = Report("C13")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + ["x86_64_prot", "x86_64_wx"]
read_registers(archs)
n = int(os.environ.get("C13_N", 150 if THOROUGH else 18))
sets, kw = mix.mixed(archs, n, SEED + 1300, tag="flt")
kw["inc"] += " -I%s/harness/fault" % VERIF
kw["extra"] += " -DSLJIT_HAVE_CONFIG_PRE=1"
bins = build(archs, "fault.c", **kw)


def model(rep):
    rc, out = tlc("Session.cfg", "Session.tla", workers=3)
    if rc != 0 or "No error has been found" not in out:
        fail("Session: " + out[-1500:])
    g, d = tlc_stats(out)
    rep.add(states=d, transitions=g, laws=["Session: %d states, every reachable state accounts for all memory" % d])


def one(a):
    out = []
    for w in (ARCHS[a].w, a):
        if w not in sets:
            continue
        f = os.path.join(tmpdir(), "f-%s-%s.txt" % (a, w))
        with open(f, "w") as h:
            for p in sets[w]:
                h.write(p.text())
        ids = [p.id for p in sets[w]]
        res = run_programs(a, bins[a], f, len(ids), ids, "faults")
        out += [(a, p, res.get(p.id)) for p in sets[w]]
    return out


with cf.ThreadPoolExecutor(1) as ex:
    fut = ex.submit(model, rep)
    recs, info, missing = [], {}, []
    nsess = nreq = 0
    groups = {}
    for l in pmap(one, archs):
        for a, p, fr in l:
            if fr is None:
                missing.append((a, p.id))
                continue
            if fr.startswith("CRASH"):
                rep.violation("%s on %s: %s" % (p.id, a, fr), "program:\n" + p.text())
                continue
            groups.setdefault((p.id, fr), []).append((a, p))
    for n, ((pid, fr), l) in enumerate(groups.items()):
        tid = "%s|%d" % (pid, n)
        recs.append((tid, '{"id":%s,%s}' % (json.dumps(tid), fr)))
        info[tid] = (l, fr)
        nsess += fr.count('["create"') * len(l)
        nreq += len(re.findall(r',[1-9]\d*,0,0,-?\d+,\d+,\d+\]|,0,[1-9]\d*,0,-?\d+,\d+,\d+\]', fr)) * len(l)
    fut.result()
    rej, states = validate(recs, "SessionTrace.cfg", "SessionTrace.tla")
for tid, (pc, what, text) in sorted(rej.items()):
    l, fr = info[tid]
    rep.violation("%s on %s: session %s event %d %s" % (l[0][1].id, ",".join(a for a, _ in l), what, pc, text[:200]),
                  "session: %s\nprogram:\n%s" % (json.dumps(json.loads("{" + fr + "}")["sessions"][int(what) - 1]), l[0][1].text()))
if missing and not rep.viol:
    fail("no result for %d programs, e.g. %s" % (len(missing), missing[:3]))
rep.add(programs=len({p.id for l in groups.values() for _, p in l}), executions=nsess, failed_calls=nreq, traces_validated_against_impl=len(recs), states=states[1], transitions=states[0],
        samples=[recs[0][1][:600]] if recs else [])
rep.finish()
