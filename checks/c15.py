"""C15: argument checks accept exactly the valid calls, and change nothing else."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "tools"))
from vlib import *
import gen_check

rep = Report("C15")
archs = [a for a in sys.argv[1:] if a in ARCHS] or CODEGEN + ["x86_64_nehalem", "x86_64_conroe", "x86_32_p3", "riscv64_noa", "mips32el_r1", "mips64el_r0", "s390x_z15"]
N = int(os.environ.get("C15_N", 40000 if THOROUGH else 6000))
QUIET = "-DSLJIT_DEBUG=0 -DSLJIT_VERBOSE=0"
with_checks = build(archs, "callrun.c", extra=QUIET + " -DSLJIT_ARGUMENT_CHECKS=1", key="-c")
without = build(archs, "callrun.c", extra=QUIET + " -DSLJIT_ARGUMENT_CHECKS=0", key="-n")


def run(a, b, seqs, tag):
    f = os.path.join(tmpdir(), "calls-%s-%s" % (a, tag))
    with open(f, "w") as h:
        for s in seqs:
            h.write("P %s\n%s\nX\n" % (s.id, "\n".join(s.text)))
    try:
        p = subprocess.run(runcmd(a, b) + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
    except subprocess.TimeoutExpired:
        fail("%s: no answer in time" % a)
    if p.returncode == 3:
        fail("harness: " + p.stderr.decode()[-300:])
    return p.returncode, dict(l.split("\t", 1) for l in p.stdout.decode().splitlines() if "\t" in l)


def one(a):
    rc, out = run(a, with_checks[a], [], "h")
    if rc: return a, rc, None, None, {}, 0, {}
    k = json.loads("{%s}" % out["head"])
    seqs = gen_check.sequences(k, N, SEED)
    rc, out = run(a, with_checks[a], seqs, "c")
    ok = [s for s in seqs if s.id in out and "5" not in out[s.id].split("\t")[0][1:-1].split(",")]
    rc2, out2 = run(a, without[a], ok, "n") if rc == 0 else (0, {})
    return a, rc, k, seqs, out, rc2, out2


def at_address(a, s):
    """code which contains the address of a constant of the library"""
    return ARCHS[a].base.startswith("x86") and any(c["f"][0] == "f" or c["op"] in ("CLZ", "CTZ") for c in s.calls)


groups, info, ncalls, nbad, nsame = {}, {}, 0, 0, 0
for a, rc, k, seqs, out, rc2, out2 in pmap(one, archs):
    if rc or rc2:
        o = out2 if rc2 else out
        bad = [s for s in seqs or [] if s.id not in o and (not rc2 or "5" not in out.get(s.id, "5").split("\t")[0][1:-1].split(","))]
        rep.violation("%s: the library stopped the program with status %d %s" % (a, rc or rc2, "without checks" if rc2 else ""), "in: %s" % ("\n".join(bad[0].text) if bad else "?"))
        continue
    kj = json.dumps(k, sort_keys=True)
    g = groups.setdefault(kj, {})
    for s in seqs:
        r, e, gr, z, h = out[s.id].split("\t")
        same = 1
        if s.id in out2:
            r2, e2, g2, z2, h2 = out2[s.id].split("\t")
            same = 1 if (r, e, gr, z) == (r2, e2, g2, z2) and (h == h2 or at_address(a, s)) else 0
            nsame += 1
        ncalls += len(s.calls)
        nbad += 1 if "5" in r[1:-1].split(",") else 0
        body = '"calls":%s,"rc":%s,"err":%s,"grew":%s,"same":%d' % (json.dumps(s.calls), r, e, gr, same)
        if body not in g:
            tid = "%s|%s" % (a, s.id)
            g[body] = (tid, '{"id":"%s","k":%s,%s}' % (tid, kj, body))
            info[tid] = s
recs = [list(g.values()) for g in groups.values()]
res = pmap(lambda g: validate(g, "CallsTrace.cfg", "CallsTrace.tla", nproc=1, chunk=len(g)), sorted(recs, key=lambda g: -len(g)))
states = [0, 0]
for rej, st in res:
    states[0] += st[0]; states[1] += st[1]
    for tid, (pc, what, text) in sorted(rej.items()):
        s = info[tid]
        t = s.text[pc - 1] if pc <= len(s.text) else "(code)"
        rep.violation("%s: %s %s" % (tid.split("|")[0], what, t), "%s\nsequence:\n%s\nrejected: %s" % (tid, "\n".join(s.text), text))
rep.add(calls=ncalls, sequences_rejected=nbad, sequences_compared_without_checks=nsame, configurations=len(groups), traces_validated_against_impl=sum(len(g) for g in recs),
        states=states[1], transitions=states[0], samples=[recs[0][0][1][:600]] if recs else [])
rep.finish()
