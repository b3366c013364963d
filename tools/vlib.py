"""Common machinery: building the drivers from /repo, running them on every
backend, validating what they recorded with TLC, reporting and evidence."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
NPROC = min(8, os.cpu_count() or 8)
T0 = time.time()
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Arch:
    def __init__(self, name, cc, run, flags, w, be, nr, nfr, cls=None, base32=False):
        self.name, self.cc, self.run, self.flags, self.w, self.be = name, cc, run, flags, w, be
        self.nr, self.nfr = nr, nfr          # (all, saved) registers
        self.virt = base32                   # x86-32: R3.. cannot be an address
        self.klass = (w, be)
        self.base = name                     # the backend whose program sets it can run


ARCHS = {a.name: a for a in [
    Arch("x86_64", "gcc", "", "", 8, 0, (13, 6), (15, 0)),
    Arch("x86_64_prot", "gcc", "", "-DSLJIT_PROT_EXECUTABLE_ALLOCATOR=1", 8, 0, (13, 6), (15, 0)),
    Arch("x86_64_wx", "gcc", "", "-DSLJIT_WX_EXECUTABLE_ALLOCATOR=1", 8, 0, (13, 6), (15, 0)),
    Arch("x86_32", "i686-linux-gnu-gcc", "", "-static", 4, 0, (12, 7), (7, 0), base32=True),
    Arch("aarch64", "aarch64-linux-gnu-gcc", "qemu-aarch64", "-static", 8, 0, (26, 10), (30, 8)),
    Arch("armv7", "arm-linux-gnueabihf-gcc", "qemu-arm", "-static -marm", 4, 0, (12, 8), (14, 8)),
    Arch("armt2", "arm-linux-gnueabihf-gcc", "qemu-arm", "-static -mthumb", 4, 0, (12, 8), (14, 8)),
    Arch("armv6", "arm-linux-gnueabihf-gcc", "qemu-arm", "-static -march=armv6 -marm -mfpu=vfp", 4, 0, (12, 8), (14, 8)),
    Arch("riscv64", "riscv64-linux-gnu-gcc", "qemu-riscv64", "-static -march=rv64g", 8, 0, (23, 12), (30, 12)),
    Arch("riscv64_ext", "riscv64-linux-gnu-gcc", "qemu-riscv64 -cpu max", "-static -march=rv64gv_zba_zbb", 8, 0, (23, 12), (30, 12)),
    Arch("s390x", "s390x-linux-gnu-gcc", "qemu-s390x", "-static -march=z13", 8, 1, (12, 8), (15, 8)),
    Arch("loongarch64", "loongarch64-linux-gnu-gcc-14", "qemu-loongarch64", "-static -march=la464", 8, 0, (23, 10), (30, 12)),
    Arch("ppc64le", "powerpc64le-linux-gnu-gcc", "qemu-ppc64le -L /usr/powerpc64le-linux-gnu", "-fPIE -pie", 8, 0, (23, 17), (30, 18)),
    Arch("ppc32", "powerpc-linux-gnu-gcc", "qemu-ppc", "-static", 4, 1, (23, 17), (30, 18)),
    Arch("mips32el", "mipsel-linux-gnu-gcc", "qemu-mipsel", "-static", 4, 0, (21, 8), (13, 6)),
    Arch("mips64el", "mips64el-linux-gnuabi64-gcc", "qemu-mips64el", "-static", 8, 0, (21, 8), (29, 8)),
]}
ALL = list(ARCHS)


def variant(name, base, flags="", run=None):
    b = ARCHS[base]
    ARCHS[name] = Arch(name, b.cc, b.run if run is None else run, b.flags + " " + flags, b.w, b.be, b.nr, b.nfr, base32=b.virt)
    ARCHS[name].base = b.base


# other processors and instruction set revisions of the same backends
variant("x86_64_nehalem", "x86_64", "-static", "qemu-x86_64 -cpu Nehalem")            # no AVX, LZCNT, TZCNT
variant("x86_64_conroe", "x86_64", "-static", "qemu-x86_64 -cpu Conroe")              # no SSE4
variant("x86_64_sandy", "x86_64", "-static", "qemu-x86_64 -cpu SandyBridge")          # no AVX2
variant("x86_32_core", "x86_32", "", "qemu-i386 -cpu coreduo")
variant("x86_32_p3", "x86_32", "-DSLJIT_DETECT_SSE2=1", "qemu-i386 -cpu pentium3")    # no SSE2
variant("aarch64_lse", "aarch64", "-march=armv8.1-a")
variant("riscv64_c", "riscv64", "-march=rv64gc")
variant("riscv64_cb", "riscv64_ext", "-march=rv64gcv_zba_zbb")
variant("riscv64_noa", "riscv64", "-march=rv64imfd")
variant("ppc64le_p10", "ppc64le", "-mcpu=power10", "qemu-ppc64le -cpu power10 -L /usr/powerpc64le-linux-gnu")
variant("s390x_z15", "s390x", "-march=z15", "qemu-s390x -cpu max")
variant("mips32el_r1", "mips32el", "-march=mips32 -mfp32")
variant("mips32el_r0", "mips32el", "-U__mips_isa_rev -mfp32")
variant("mips64el_r1", "mips64el", "-march=mips64")
variant("mips64el_r0", "mips64el", "-march=mips3")
variant("mips32el_fr0", "mips32el", "-mfp32")
VARIANTS = [a for a in ARCHS if a not in ALL]
V_INT = ["x86_64_nehalem", "x86_32_core", "riscv64_c", "riscv64_cb", "ppc64le_p10", "s390x_z15", "mips32el_r1", "mips32el_r0", "mips64el_r1", "mips64el_r0"]
V_FLOAT = ["x86_64_nehalem", "riscv64_c", "ppc64le_p10", "mips32el_fr0", "mips32el_r1", "mips32el_r0", "mips64el_r1", "mips64el_r0"]
V_FLOW = ["riscv64_c", "riscv64_cb", "ppc64le_p10", "s390x_z15", "mips32el_fr0", "mips32el_r1", "mips32el_r0", "mips64el_r0"]
V_SIMD = ["x86_64_nehalem", "x86_64_sandy", "riscv64_cb", "s390x_z15"]
V_ATOMIC = ["aarch64_lse", "riscv64_c", "mips32el_r1", "mips64el_r1"]


def read_registers(archs):
    """the number of registers, as the headers of the current tree define them"""
    def one(a):
        A = ARCHS[a]
        src = '#include "sljitLir.h"\nREGS SLJIT_NUMBER_OF_REGISTERS, SLJIT_NUMBER_OF_SAVED_REGISTERS, SLJIT_NUMBER_OF_FLOAT_REGISTERS, SLJIT_NUMBER_OF_SAVED_FLOAT_REGISTERS'
        r = subprocess.run("%s %s -E -P -w -I%s/sljit_src -" % (A.cc, A.flags, REPO), shell=True, input=src.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        l = [x for x in r.stdout.decode().splitlines() if x.startswith("REGS ")]
        if not l:
            fail("cannot preprocess for %s: %s" % (a, r.stderr.decode()[-500:]))
        v = [eval(x, {}) for x in l[0][5:].split(",")]
        A.nr, A.nfr = (v[0], v[1]), (v[2], v[3])
    pmap(one, archs)


# the two other x86-64 builds differ in the executable allocator only
CODEGEN = [a for a in ALL if a not in ("x86_64_prot", "x86_64_wx")]


class MachineryError(Exception):
    pass


def fail(msg):
    print("CHECK-ERROR", msg)
    sys.stdout.flush()
    cleanup()
    os._exit(2)


_tmp = None
def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vchk-", dir="/tmp")
    return _tmp


def cleanup():
    if _tmp and os.path.isdir(_tmp):
        shutil.rmtree(_tmp, ignore_errors=True)


def pmap(f, xs, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


# ---------------------------------------------------------------- building
def build(archs, driver, name=None, extra="", lib=True, libextra="", key="", sources=(), inc="", opt="-O1"):
    """driver: C file in harness/.  Returns {arch: binary}."""
    name = name or os.path.splitext(os.path.basename(driver))[0]

    def one(a):
        A = ARCHS[a]
        d = os.path.join(tmpdir(), "bin")
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, "%s-%s%s" % (name, a, key))
        base = "%s %s -w -I%s/sljit_src -I%s/harness %s %s" % (A.cc, opt, REPO, VERIF, A.flags, inc)
        objs = []
        if lib:
            o = os.path.join(d, "sljit-%s%s.o" % (a, key))
            if not os.path.exists(o):
                r = sh("%s %s %s -c %s/sljit_src/sljitLir.c -o %s.tmp && mv %s.tmp %s" % (base, extra, libextra, REPO, o, o, o))
                if r.returncode:
                    return a, None, r.stderr.decode()[-2000:]
            objs.append(o)
        r = sh("%s %s %s %s %s -o %s -lpthread -lm" % (base, extra, os.path.join(VERIF, "harness", driver), " ".join(sources), " ".join(objs), out))
        if r.returncode:
            return a, None, r.stderr.decode()[-2000:]
        return a, out, ""
    res = pmap(one, archs)
    for a, out, err in res:
        if out is None:
            fail("build of %s for %s failed: %s" % (driver, a, err))
    return {a: out for a, out, _ in res}


def runcmd(a, binary):
    r = ARCHS[a].run
    return r.split() + [binary]


# ---------------------------------------------------------------- programs
def run_programs(a, binary, path, nprogs, ids, mode="plain", first=0, timeout=400, limit=None):
    """Runs a program file; returns {id: fragment}; fragment starts with CRASH/ERR or is JSON."""
    res, crashes, start = {}, 0, first
    group = 6 if mode in ("inter", "threads") else 1
    t_end = time.time() + timeout
    env = dict(os.environ)
    if limit:
        env["LIR_LIMIT"] = str(limit)
    while start < nprogs:
        left = t_end - time.time()
        if left <= 0:
            break
        try:
            p = subprocess.run(runcmd(a, binary) + [path, str(start), mode], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left, env=env)
            o, rc, err = p.stdout, p.returncode, p.stderr
        except subprocess.TimeoutExpired as e:
            o, rc, err = e.stdout or b"", -99, b""
        if rc == 3:
            fail("harness: " + err.decode()[-300:])
        last = None
        for line in o.decode(errors="replace").split("\n"):
            if "\t" in line:
                i, f = line.split("\t", 1)
                res[i] = f
                last = i
        if rc == 0:
            break
        # crashed: continue behind the program
        crashes += 1
        done = [k for k in range(start, nprogs) if ids[k] in res]
        if not done:
            # died without an answer
            res[ids[start]] = "CRASH exit %d" % rc
            nxt = start + 1
        else:
            nxt = max(done) + 1
            if last is None or not res[last].startswith("CRASH"):
                if nxt < nprogs:
                    res[ids[nxt]] = "CRASH exit %d" % rc
                    nxt += 1
        if group > 1:
            nxt = ((nxt - 1) // group + 1) * group
        start = nxt
        if crashes >= 6:
            break
    return res


def fragment_record(p, frag, A):
    """trace record (JSON text) of program p with observation fragment"""
    if frag.startswith("CRASH") or frag.startswith("ERR"):
        nobs = p.nobs
        frag = '"obs":[%s],"mem":[],"ret":[],"crash":%s,"lbase":%s,"laddr":[],"labs":[],"code":[],"skip":[]' % (
            ",".join(["[]"] * nobs), json.dumps(frag), json.dumps([0] * A.w))
    return '{"id":%s,"be":%d,%s,%s}' % (json.dumps(p.id), A.be, p.json(), frag)


# ---------------------------------------------------------------- TLC
def tlc(cfg, module, env=None, workers=1, timeout=800, xmx="3g", extra=(), d=None):
    d = d or os.path.join(VERIF, "spec")
    meta = tempfile.mkdtemp(prefix="tlc-", dir=tmpdir())
    e = dict(os.environ)
    e.update(env or {})
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    cmd = ["java", gc, "-Xss64m", "-Xmx" + xmx, "-XX:TieredStopAtLevel=1", "-cp", JAR, "-Djava.io.tmpdir=" + meta, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        out, rc = r.stdout.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as ex:
        out, rc = (ex.stdout or b"").decode(errors="replace"), -99
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m[-1])


REJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)",(.*)', re.S)


def validate(records, cfg="LirTrace.cfg", module="LirTrace.tla", nproc=NPROC, chunk=None, timeout=800):
    """records: list of (id, json text).  Returns ({id: (pc, what, text)}, states)."""
    if not records:
        return {}, [0, 0]
    n = max(1, min(nproc * 4, (len(records) + 149) // 150)) if chunk is None else (len(records) + chunk - 1) // chunk
    if n > nproc:
        n = ((n + nproc - 1) // nproc) * nproc
    records = sorted(records, key=lambda r: -len(r[1]))      # balanced parts
    parts = [records[i::n] for i in range(n)]
    parts = [p for p in parts if p]

    def one(k):
        f = os.path.join(tmpdir(), "trace-%d-%d.ndjson" % (k, time.time_ns()))
        with open(f, "w") as h:
            for _, t in parts[k]:
                h.write(t + "\n")
        rc, out = tlc(cfg, module, {"TRACE": f}, timeout=timeout)
        m = re.search(r'<<\s*"VERDICTS", (\d+), (\d+), (\d+)\s*>>', out)
        if not m or rc != 0 or int(m.group(1)) + int(m.group(2)) != len(parts[k]):
            shutil.copy(f, "/tmp/vchk-failed-trace.ndjson")
            return None, "TLC rc=%d %s" % (rc, out[-3000:]), (0, 0)
        os.unlink(f)
        rej = {}
        for b in re.split(r'(?=<<\s*"REJECT")', out)[1:]:
            q = REJ.match(b)
            if q:
                rej.setdefault(q.group(1), (int(q.group(2)), q.group(3), re.sub(r"\s+", " ", q.group(4))[:20000]))
        if len(rej) != int(m.group(2)):
            return None, "rejections lost: %s" % out[-2000:], (0, 0)
        return rej, "", tlc_stats(out)
    allrej, states = {}, [0, 0]
    for rej, err, s in pmap(one, range(len(parts)), nproc):
        if rej is None:
            fail(err)
        allrej.update(rej)
        states[0] += s[0]
        states[1] += s[1]
    return allrej, states


LAWS = {"WordLaws": ["RoundTrip", "Arith", "Order", "Multiply", "Divide", "Logic", "Shifts", "Counts", "Resize"],
        "FloatLaws": ["AddLaw", "SubLaw", "MulLaw", "DivLaw", "NaNLaw", "CmpLaw", "SignLaw", "IntLaw", "TruncLaw"]}


def laws(rep, what):
    """exhaustive model checking of the value algebra the specification is built on"""
    def one(k):
        mod, par = what[k]
        cfg = os.path.join(tmpdir(), "%s-%d.cfg" % (mod, k))
        with open(cfg, "w") as h:
            h.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS LBITS = %d\n" % par[0])
            if len(par) > 1:
                h.write("N = %d\n" % par[1])
            for i in law_names(mod):
                h.write("INVARIANT %s\n" % i)
        rc, out = tlc(cfg, mod + ".tla", workers=2)
        if rc != 0 or "No error has been found" not in out:
            fail("%s %s: %s" % (mod, par, out[-1500:]))
        g, d = tlc_stats(out)
        return "%s%s: %d states, all laws hold" % (mod, par, d), g, d
    for t, g, d in pmap(one, range(len(what)), 4):
        rep.add(states=d, transitions=g, laws=[t])


def law_names(mod):
    t = open(os.path.join(VERIF, "spec", mod + ".tla")).read()
    r = [n for n in re.findall(r"^(\w+) ==", t, re.M) if n in LAWS[mod]]
    if len(r) != len(LAWS[mod]):
        fail("laws of %s: %s" % (mod, r))
    return r


class Report:
    """collects violations, evidence; ends the check"""
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.viol, self.known, self.cov = [], [], {}
        self.assume = []
        self.findings = load_findings(prop)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list):
                self.cov.setdefault(k, []).extend(v)
            else:
                self.cov[k] = v

    def violation(self, key, text):
        """key identifies the failing input/site; text is the replay file contents"""
        for pat, what in self.findings:
            if re.search(pat, key):
                self.known.append((pat, what))
                return
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.txt" % (self.prop, len(self.viol)))
        if len(self.viol) < 20:
            with open(f, "w") as h:
                h.write(key + "\n" + text + "\n")
        self.viol.append((key, f))

    def finish(self):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        for k in list(self.cov):
            if isinstance(self.cov[k], list):
                self.cov[k] = self.cov[k][:12]
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "wall_s": round(time.time() - T0, 1), "violations": len(self.viol)}
        if self.assume:
            ev["assumptions"] = self.assume
        with open(os.path.join(d, self.prop + ".json"), "w") as h:
            json.dump(ev, h, indent=1)
        for pat, what in sorted(set(self.known)):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        for key, f in self.viol[:10]:
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            print("  " + key[:300])
        print("%s: %s, %d violations, %.1f s" % (self.prop, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, int)}), len(self.viol), time.time() - T0))
        sys.stdout.flush()
        cleanup()
        os._exit(1 if self.viol else 0)


def load_findings(prop):
    """lines: 'finding: property=<id> key=<regex> <what fails>' ; 'fixed: ...' lines suppress nothing"""
    f = os.path.join(VERIF, "known-findings.txt")
    r = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    return r


# ------------------------------------------------ programs on all backends
def conform(rep, progsets, archs, driver="lirrun.c", bins=None, mode="plain", extra="", applies=None, expect=None, cfg="LirTrace.cfg",
            module="LirTrace.tla", key="", optional=()):
    """progsets: {4: [Prog], 8: [Prog]} (or {archname: [Prog]}).  Every program is run on every backend of its
    word size (if applies(prog, arch)), distinct observations are validated against the specification."""
    bins = bins or build(archs, driver, extra=extra, key=key)
    files, byid = {}, {}
    for w, ps in progsets.items():
        f = os.path.join(tmpdir(), "prog-%s-%s-%d.txt" % (w, mode, len(os.listdir(tmpdir()))))
        with open(f, "w") as h:
            for p in ps:
                h.write(p.text())
                if p.id in byid:
                    fail("duplicate id " + p.id)
                byid[p.id] = p
        files[w] = f

    def sets_of(a):
        return [w for w in dict.fromkeys((ARCHS[a].w, ARCHS[a].base, a)) if w in progsets]
    jobs = []
    for a in archs:
        for w in sets_of(a):
            ps = progsets[w]
            if applies:
                ps2 = [p for p in ps if applies(p, ARCHS[a])]
                if len(ps2) != len(ps):
                    f = os.path.join(tmpdir(), "prog-%s-%s-%s.txt" % (w, a, mode))
                    with open(f, "w") as h:
                        for p in ps2:
                            h.write(p.text())
                    jobs.append((a, f, ps2))
                    continue
            jobs.append((a, files[w], ps))
    jobs = [j for j in jobs if j[2]]
    # split for balance
    split = []
    for a, f, ps in jobs:
        split.append((a, f, ps))

    def one(j):
        a, f, ps = j
        return a, ps, run_programs(a, bins[a], f, len(ps), [p.id for p in ps], mode)
    results = pmap(one, split)
    groups = {}   # (class, id, fragment) -> [arch]
    runs = 0
    unsup = 0
    missing = []
    for a, ps, res in results:
        for p in ps:
            fr = res.get(p.id)
            if fr is None:
                missing.append((a, p.id))
                continue
            m = re.match(r"ERR (-?\d+) (\d+) (\S+)", fr)
            if m and int(m.group(2)) == 4 and m.group(3) in optional:   # SLJIT_ERR_UNSUPPORTED
                unsup += 1
                continue
            runs += 1
            groups.setdefault((ARCHS[a].klass, p.id, fr), []).append(a)
    recs, info = [], {}
    for n, ((kl, pid, fr), aa) in enumerate(groups.items()):
        p = byid[pid]
        tid = "%s|%d" % (pid, n)
        q = fragment_record(p, fr, ARCHS[aa[0]])
        recs.append((tid, q.replace('"id":%s' % json.dumps(pid), '"id":%s' % json.dumps(tid), 1)))
        info[tid] = (p, aa, fr)
    rej, states = validate(recs, cfg, module)
    nrej = 0
    for tid, (pc, what, text) in sorted(rej.items()):
        p, aa, fr = info[tid]
        # must repeat
        A = ARCHS[aa[0]]
        ok = 0
        if nrej < 12 and mode not in ("inter", "threads"):
            f = os.path.join(tmpdir(), "again.txt")
            open(f, "w").write(p.text())
            again = run_programs(aa[0], bins[aa[0]], f, 1, [p.id], mode).get(p.id, "CRASH none")
            if again != fr:
                r2, _ = validate([(tid, fragment_record(p, again, A).replace('"id":%s' % json.dumps(p.id), '"id":%s' % json.dumps(tid), 1))], cfg, module, nproc=1)
                if not r2:
                    print("note: rejection of %s on %s did not repeat" % (p.id, aa))
                    # alone it is right; in its original place it is not: repeat that run
                    ok = 1
        if ok and not confirm_in_place(p, aa[0], bins, jobs, mode, fr):
            continue
        nrej += 1
        ins = p.jins[pc - 1] if pc - 1 < len(p.jins) else None
        rep.violation("%s on %s: %s at instruction %d %s" % (p.id, ",".join(aa), what if not fr.startswith(("CRASH", "ERR")) else fr, pc, json.dumps(p.site(pc))),
                      differences(p, what, text) + "expected/got: %s\nobserved: %s\nprogram:\n%s" % (text, fr[:3000], p.text()))
    if missing and not rej:
        fail("no result for %d programs, e.g. %s" % (len(missing), missing[:3]))
    rep.add(programs=len(byid), executions=runs, unsupported=unsup, traces_validated_against_impl=len(recs), states=states[1], transitions=states[0],
            samples=[p.id + ': ' + '; '.join(p.src[:40]) for ps in progsets.values() for p in ps[:2]])
    return results


def differences(p, what, text):
    """readable difference of a rejected observation"""
    try:
        t = text.replace("<<", "[").replace(">>", "]").strip()
        e, n = json.JSONDecoder().raw_decode(t)
        g, n = json.JSONDecoder().raw_decode(t[n:].lstrip(" ,"))
    except Exception:
        return ""
    if what not in ("registers", "fregisters", "vregisters"):
        return ""
    ini, name = {"registers": (p.init, p.reg), "fregisters": (p.finit, p.freg), "vregisters": (p.vinit, p.vreg)}[what]
    h = lambda v: "".join("%02x" % x if x >= 0 else "__" for x in reversed(v))
    if len(ini) < len(e):
        ini = [0] * len(e)
    out = []
    for k, (a, b) in enumerate(zip(e, g)):
        if b == [-2]:
            i = ini[k]
            b = i if isinstance(i, list) else [(i >> (8 * j)) & 255 for j in range(len(a))]
        if any(x >= 0 and (i < len(b) and b[i] != x) for i, x in enumerate(a)):
            out.append("%s (initially %s): expected %s got %s\n" % (name(k), h(ini[k]) if isinstance(ini[k], list) else "%x" % ini[k], h(a), h(b)))
    return "".join(out)


def confirm_in_place(p, a, bins, jobs, mode, fr):
    for ja, f, ps in jobs:
        if ja == a and p in ps:
            res = run_programs(a, bins[a], f, len(ps), [q.id for q in ps], mode)
            return res.get(p.id) == fr
    return False
