"""Common machinery of the checks: scratch space, building the harness, running TLC, verdicts, evidence."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_SCRATCH_REPO", "/repo")  # another tree only while developing (tools/seed.sh)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself could not decide: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, what, case):
        super().__init__(what)
        self.what, self.case = what, case


def goenv():
    env = dict(os.environ)
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1")
    env.setdefault("HOME", "/root")
    try:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                k = k.decode()
                if k in ("PATH", "GOROOT", "GOCACHE", "GOMODCACHE", "GOPATH", "GOPROXY", "GOTOOLCHAIN", "GOFLAGS"):
                    env[k] = v.decode()
    except OSError:
        pass
    env["GOFLAGS"] = "-mod=mod"
    return env


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.env = goenv()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.nrun = 0
        self.bin = {}
        self.violations = []

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    # ---- building
    def source(self, sub="harness"):
        src = self.path("src-" + sub)
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(VERIF, sub), src)
            if REPO != "/repo":
                mod = os.path.join(src, "go.mod")
                text = open(mod).read()
                open(mod, "w").write(text.replace("=> /repo", "=> " + REPO))
        return src

    def build(self, race=False, sub="harness"):
        key = (sub, race)
        if key in self.bin:
            return self.bin[key]
        src = self.source(sub)
        out = self.path("bin-%s%s" % (sub, "-race" if race else ""))
        cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
        p = subprocess.run(cmd, cwd=src, env=self.env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("harness does not build:\n" + p.stdout + p.stderr)
        self.bin[key] = out
        return out

    # ---- running the real code
    def observe(self, mode, cases, race=False, timeout=600, env=None, name=None):
        """cases: list of {id, case}.  Returns the list of {id, case, tr}; a case on which the process dies
        or hangs gets tr = {"crash": why}."""
        binary = self.build(race)
        if mode in ("gencode", "faults") and len(cases) > 200:
            # these are long and have nothing to do with each other: several processes
            k = max(8, len(cases) // 300)
            parts = [cases[i * len(cases) // k:(i + 1) * len(cases) // k] for i in range(k)]
            nruns = [self.nrun + 1 + i for i in range(k)]
            self.nrun += k
            with concurrent.futures.ThreadPoolExecutor(7) as ex:
                return sum(ex.map(lambda a: self.observe1(binary, mode, a[0], a[1], timeout, env), zip(parts, nruns)), [])
        self.nrun += 1
        return self.observe1(binary, mode, cases, self.nrun, timeout, env)

    def observe1(self, binary, mode, cases, nrun, timeout, env):
        fin, fout = self.path("in%d.ndjson" % nrun), self.path("out%d.ndjson" % nrun)
        write_nd(fin, cases)
        if os.path.exists(fout):
            os.unlink(fout)
        start, crashes = 0, 0
        e = dict(self.env)
        e.update(env or {})
        while True:
            e["VERIF_START"] = str(start)
            try:
                p = subprocess.run([binary, mode, fin, fout], env=e, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=self.dir)
            except subprocess.TimeoutExpired:
                raise CheckError("the harness did not finish in %d s" % timeout)
            if p.returncode == 0:
                break
            done = count_lines(fout)
            err = p.stderr.strip()
            if p.returncode == 4:
                why = "hang"
            elif p.returncode == 2 and re.search(r"^(fatal error|panic|runtime:|unexpected fault|SIG)", err, re.M):
                why = "crash: " + first_line(err)
            elif p.returncode < 0:
                raise CheckError("harness ended by signal %d" % -p.returncode)
            else:
                raise CheckError("harness failed (%d): %s" % (p.returncode, err[-2000:]))
            crashes += 1
            if crashes > 20:
                raise CheckError("too many crashes; last: " + why)
            with open(fout, "a") as f:
                c = cases[done]
                f.write(json.dumps({"id": c["id"], "case": c["case"], "tr": {"crash": why}}) + "\n")
            start = done + 1
            if start >= len(cases):
                break
        res = read_nd(fout)
        if len(res) != len(cases):
            raise CheckError("harness answered %d of %d cases" % (len(res), len(cases)))
        return res

    # ---- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=800, ok=(0,), extra=()):
        self.nrun += 1
        w = self.path("tlc%d" % self.nrun)
        shutil.copytree(os.path.join(VERIF, "spec"), w)
        e = dict(self.env)
        e.update(env or {})
        e["TIER"] = TIER
        cmd = ["java", "-Xss64m", "-Xmx10g", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(w, "states"), "-config", (cfg or module) + ".cfg", "-workers", str(workers)] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=w, env=e, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC did not finish %s in %d s" % (module, timeout))
        out = p.stdout
        if p.returncode not in ok:
            raise CheckError("TLC on %s: exit %d\n%s" % (module, p.returncode, tlc_error(out) + p.stderr[-1500:]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r"Finished computing initial states: (\d+) (?:distinct )?state", out)
        init = int(m.group(1)) if m else 0
        shutil.rmtree(w, ignore_errors=True)
        return Tlc(p.returncode, out, gen, dist, init)

    def count(self, r):
        self.states += r.distinct
        self.transitions += max(0, r.generated - r.init)

    def universe(self, module="Universe"):
        out = self.path("universe-%s.ndjson" % module)
        self.tlc(module, env={"PROP": self.prop, "OUT": out}, workers=1)
        cases = read_nd(out)
        if not cases:
            raise CheckError("empty universe")
        return cases

    def validate(self, module, traces, cfg=None, env=None, timeout=800, count=True):
        """Trace validation: every trace is a line of CASES; returns {id: reason} of the rejected ones."""
        good = [t for t in traces if "crash" not in t["tr"]]
        rej = {t["id"]: {"why": t["tr"]["crash"]} for t in traces if "crash" in t["tr"]}
        if good:
            self.nrun += 1
            f = self.path("cases%d.ndjson" % self.nrun)
            write_nd(f, good)
            e = {"PROP": self.prop, "CASES": f}
            e.update(env or {})
            r = self.tlc(module, cfg=cfg, env=e, timeout=timeout)
            acc = re.findall(r'^"?ACCEPT ([^\s"]+)', r.out, re.M)
            for m in re.finditer(r'^"?REJECT ([^\s"]+) ?(.*?)"?$', r.out, re.M):
                rej[m.group(1)] = {"why": m.group(2).replace('\\"', '"').replace("\\\\", "\\")}
            ids = set(acc) | set(k for k in rej)
            if len(ids) != len(traces) or len(acc) + len(rej) != len(traces):
                raise CheckError("validation of %s: %d accepted, %d rejected of %d" % (module, len(acc), len(rej), len(traces)))
            if count:
                self.count(r)
                self.traces += len(acc)
        return rej

    # ---- outcome
    def finish(self, level="model_checking", coverage=None):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:4]}
        cov.update(self.extra)
        cov.update(coverage or {})
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        d = EVID
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        return ev

    def violation(self, mode, case, why, **more):
        """writes the replay file of one violation"""
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        p = os.path.join(d, "%s-%d.json" % (self.prop, n))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, mode=mode, why=why, case=case, **more), f, indent=1)
            f.write("\n")
        self.violations.append((p, why))
        return p


class Tlc:
    def __init__(self, rc, out, gen, dist, init):
        self.rc, self.out, self.generated, self.distinct, self.init = rc, out, gen, dist, init


def tlc_error(out):
    i = out.find("Error:")
    if i < 0:
        i = max(0, len(out) - 3000)
    return out[i:i + 3000]


def first_line(s):
    for l in s.splitlines():
        if re.match(r"(fatal error|panic|unexpected fault|SIG)", l):
            return l[:300]
    return s.splitlines()[0][:300] if s else ""


def write_nd(path, objs):
    with open(path, "w") as f:
        for o in objs:
            f.write(json.dumps(o) + "\n")


def read_nd(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def count_lines(path):
    try:
        with open(path, "rb") as f:
            return sum(1 for _ in f)
    except FileNotFoundError:
        return 0


def known_findings(prop):
    """lines `finding: property=<id> key=<key> <text>` of known-findings.txt"""
    res = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return res


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: run.py PROPERTY [--replay FILE]; properties: " + " ".join(sorted(table)))
        return 2
    prop = sys.argv[1]
    ck = Check(prop)
    try:
        fn = table[prop]
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as f:
                fn(ck, replay=json.load(f))
        else:
            fn(ck)
            ck.finish()
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        return 3
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ck.dir)
        else:
            ck.close()
    for p, why in ck.violations[:5]:
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("  " + str(why)[:600])
    if ck.violations:
        return 1
    print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (prop, TIER, ck.states, ck.traces, time.time() - ck.t0))
    return 0
