#!/usr/bin/env python3
"""Decides one property.  usage: check.py P01   (VERIF_SEED, VERIF_TIER from the environment)

A check is a list of jobs.  A job either model checks a specification (TLC, exhaustively within the
bounds of its .cfg) or runs the real code under a driver that records what it did, and validates the
recorded trace against a trace specification (TLC).  Exit 0: held; 1: VIOLATION line; 2: no answer.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class Broken(Exception):
    """The check itself could not do its work."""


def goenv():
    env = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], capture_output=True, check=True).stdout
    for kv in out.decode().split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            env[k] = v
    env["GOFLAGS"] = "-mod=mod"
    return env


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.viol = []       # (job, line, text, file)
        self.known = {}      # id -> count
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.detail = {}
        self.assumptions = []

    def thorough(self):
        return self.tier == "thorough"

    def left(self, budget):
        return budget - (time.time() - self.t0)


def sh(cmd, cwd=None, env=None, timeout=600, what=""):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise Broken("timeout: %s" % (what or cmd))
    return p


def build(c, race=False, instr=False):
    """The harness, from /repo's working tree, and the operator overrides of the specifications."""
    cls = os.path.join(c.dir, "cls")
    os.makedirs(cls, exist_ok=True)
    srcs = [os.path.join(VERIF, "java", f) for f in os.listdir(os.path.join(VERIF, "java")) if f.endswith(".java")]
    p = sh(["javac", "-cp", JARS.split(":")[0], "-d", cls] + srcs, what="javac")
    if p.returncode:
        raise Broken("javac: " + p.stderr)
    # a private copy of the module: the build may touch go.mod / go.sum
    mod = os.path.join(c.dir, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), mod)
    vh = os.path.join(c.dir, "vh")
    env, args = goenv(), []
    if instr:  # with hooks in the standard library (the index of GOROOT knows nothing of added files)
        import overlay
        env["GODEBUG"] = "goindex=0"
        c.overlay = overlay.make(os.path.join(c.dir, "std"), env)
        args = ["-overlay", c.overlay, "-tags", "instr"]
    builds = [(vh, args, env)]
    if race:  # and once more, with the race detector
        c.vhr = os.path.join(c.dir, "vhr")
        builds.append((c.vhr, ["-race"], goenv()))
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        ps = list(ex.map(lambda x: sh(["go", "build"] + x[1] + ["-o", x[0], "./cmd/vh"], cwd=mod, env=x[2], timeout=800, what="go build"), builds))
    for p in ps:
        if p.returncode:
            raise Broken("go build: " + p.stderr[-4000:])
    c.cls, c.vh = cls, vh
    return vh


def build_main(c):
    """The program itself, from /repo's working tree, with the same hooks in the standard library."""
    env = goenv()
    env["GODEBUG"] = "goindex=0"
    p = sh(["go", "build", "-overlay", c.overlay, "-o", os.path.join(c.dir, "main"), "."], cwd="/repo", env=env, timeout=800, what="go build main")
    if p.returncode:
        raise Broken("go build main: " + p.stderr[-4000:])


def tlc(c, spec, cfg, trace=None, workers=1, timeout=800, extra_env=None, heap="2g", extra=()):
    meta = tempfile.mkdtemp(prefix="meta", dir=c.dir)
    env = dict(os.environ)
    if trace:
        env["TRACE"] = trace
    env.update(extra_env or {})
    cp = (c.cls + ":" if trace or extra_env else "") + JARS
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", cp, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", meta, "-config", cfg] + list(extra) + [spec]
    p = sh(cmd, cwd=os.path.join(VERIF, "spec"), env=env, timeout=timeout, what="TLC " + spec)
    shutil.rmtree(meta, ignore_errors=True)
    return p


STATS = re.compile(r"(\d+) states generated.*?(\d+) distinct states found")


def run_trace(c, job):
    """driver -> trace -> TLC.  job: name, cmd (list after vh), spec"""
    name = job["name"]
    trace = os.path.join(c.dir, name + ".ndjson")
    work = os.path.join(c.dir, name + ".work")
    os.makedirs(work, exist_ok=True)
    cmd = [getattr(c, job.get("bin", "vh"))] + job["cmd"] + ["-out", trace]
    states0, gen0 = 0, 0
    if job.get("gen"):
        paths, states0, gen0 = explore(c, job["gen"])
        cmd += ["-in", paths]
    env = goenv()
    env.update(job.get("env", {}))
    p = drive(cmd, work, env, job.get("timeout", 1500 if c.tier == "thorough" else 300))
    crash = None
    if p.returncode:
        where = crashed_in_repo(p.stderr)
        if where:  # the code under test ended the process in the middle of a lawful history
            return dict(job=job, trace=None, info={}, knowns=[], states=0, gen=0, crash=p.stderr[:6000],
                        viols=[(c.pid, 0, "the program crashed: " + where)])
        crash = "driver %s: exit %d\n%s\n%s" % (name, p.returncode, p.stdout[-1500:], p.stderr[-3000:])
        whole_lines(trace)  # what was recorded before may tell why
    info = json.loads(p.stdout.strip().splitlines()[-1]) if not crash else {}
    viols, knowns, states, gen = [], [], states0, gen0
    for spec in [job["spec"]] + job.get("then", []):
        q = tlc(c, spec + ".tla", spec + ".cfg", trace=trace, timeout=job.get("timeout", 700), heap=job.get("heap", "2g"))
        out = q.stdout
        for l in out.splitlines():
            l = l.strip().strip('"')
            if l.startswith("VIOL|"):
                _, pid, n, why = l.split("|", 3)
                viols.append((pid, int(n), why))
            elif l.startswith("KNOWN|"):
                _, pid, n, kid = l.split("|", 3)
                knowns.append((pid, int(n), kid))
        m = None
        for m in STATS.finditer(out):
            pass
        if (q.returncode or "No error has been found" not in out or not m) and not crash:
            errs = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing", "Semantic", "Linting", "Loading", '"VIOL')))
            crash = "TLC on %s: exit %d\n%s\n%s" % (name, q.returncode, errs[:3000], q.stderr[-1500:])
        if m:
            states, gen = states + int(m.group(2)), gen + int(m.group(1))
    if crash and not any(v[0] == c.pid for v in viols):  # a violation found before it counts
        raise Broken(crash)
    return dict(job=job, trace=trace, info=info, viols=viols, knowns=knowns, states=states, gen=gen)


REPO = "github.com/dappnode/mev-sp-oracle/"


def whole_lines(trace):
    """Cuts the last line of a trace if it is not complete."""
    try:
        s = open(trace, "rb").read()
    except FileNotFoundError:
        s = b""
    open(trace, "wb").write(s[:s.rfind(b"\n") + 1])


def drive(cmd, cwd, env, timeout):
    """Runs a driver; one that does not end is asked where it is."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGQUIT)
        try:
            out, err = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        # waiting for a lock for minutes, called by the program itself
        m = re.search(r"^goroutine 1 .*?\[(sync|semacquire)[^\]]*, \d+ minutes.*?:\n(.*?)(\n\n|\Z)", err, re.M | re.S)
        by = [f for f in m.group(2).splitlines() if not f.startswith(("\t", "sync.", "internal/", "runtime."))] if m else []
        err = "the driver does not end\n" + ("fatal error: waits for ever\n" + m.group(0) + "\n\n" if by and by[0].startswith(REPO) else "") + err
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


def crashed_in_repo(err):
    """The crash message, if the goroutine that crashed was in the program (or in what the program had called)."""
    m = re.search(r"^(panic: |fatal error: ).*$", err, re.M)
    if not m:
        return None
    if m.group(0).startswith("panic: the code under test: "):
        return m.group(0)[7:400]
    g = re.search(r"^goroutine \d+.*?\[.*?:\n(.*?)(\n\n|\Z)", err[m.end():], re.M | re.S)
    if not g:
        return None
    for f in g.group(1).splitlines():
        if f.startswith(("main.", "verifharness/")) and not f.startswith("main.useOf"):
            return None
        if f.startswith((REPO, "main.useOf")):  # or in one who uses what the program has given out
            return m.group(0)[:300] + " in " + f[:200]
    return None


EXPLORED, EXPLORED_LOCK = {}, threading.Lock()


def explore(c, g):
    """Runs an exhaustive model that prints its paths (once, for all jobs that replay them): file, states, transitions."""
    with EXPLORED_LOCK:
        lock = EXPLORED.setdefault(g["name"], [threading.Lock(), None])
    with lock[0]:
        if lock[1]:
            return lock[1][0], 0, 0
        cfg = os.path.join(c.dir, g["name"] + ".cfg")
        text = open(os.path.join(VERIF, "spec", g["spec"] + ".cfg")).read()
        for k, v in g["consts"].items():
            text, n = re.subn(r"(?m)^  %s = .*$" % k, "  %s = %s" % (k, v), text)
            if n != 1:
                raise Broken("%s.cfg has no constant %s" % (g["spec"], k))
        open(cfg, "w").write(text)
        q = tlc(c, g["spec"] + ".tla", cfg, extra_env={"EXPLORE": "1"}, timeout=g.get("timeout", 700), heap=g.get("heap", "4g"))
        m = None
        for m in STATS.finditer(q.stdout):
            pass
        if q.returncode or "No error has been found" not in q.stdout or not m:
            tail = "\n".join(l for l in q.stdout.splitlines() if not l.startswith(('"T|', '"A|', "Loading", "Parsing", "Semantic", "Linting")))
            raise Broken("model %s is wrong: exit %d\n%s" % (g["name"], q.returncode, tail[-4000:]))
        out = os.path.join(c.dir, g["name"] + ".paths")
        open(out, "w").write("\n".join(l for l in q.stdout.splitlines() if l.startswith(('"T|', '"A|'))) + "\n")
        lock[1] = (out, int(m.group(2)), int(m.group(1)))
        c.detail.setdefault("models", []).append({"model": g["name"], "constants": g["consts"], "distinct_states": lock[1][1], "transitions": lock[1][2]})
        return lock[1]


def run_model(c, job):
    """Exhaustive check of a model (no real code)."""
    q = tlc(c, job["spec"] + ".tla", job.get("cfg", job["spec"] + ".cfg"), workers=job.get("workers", 4), extra_env={"EXPLORE": "1"},
            timeout=job.get("timeout", 800), heap=job.get("heap", "6g"))
    out = q.stdout
    m = None
    for m in STATS.finditer(out):
        pass
    if q.returncode or "No error has been found" not in out or not m:
        raise Broken("model %s is wrong: exit %d\n%s" % (job["name"], q.returncode, out[-4000:]))
    return dict(job=job, states=int(m.group(2)), gen=int(m.group(1)))


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l.strip())
        if m and m.group(1) == pid:
            out[m.group(2)] = m.group(3)
    return out


def slice_of(trace, line):
    """The lines of the trace a reader needs: from the last init line to the line itself (at most 40)."""
    lines = open(trace).read().splitlines()
    lo = line - 1
    while lo > 0 and line - lo < 40 and '"ev":"init"' not in lines[lo][:40]:
        lo -= 1
    return [json.loads(x) for x in lines[lo:line]]


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Ctx(pid, tier, seed)
    code = 2
    try:
        import jobs
        spec = jobs.JOBS[pid](c)
        build(c, race=spec.get("race", False), instr=spec.get("instr", False))
        if spec.get("main"):
            build_main(c)
        results, broken = [], []
        with cf.ThreadPoolExecutor(max_workers=spec.get("parallel", CORES)) as ex:
            futs = {ex.submit(run_model if j.get("model") else run_trace, c, j): j for j in spec["jobs"]}
            for f in cf.as_completed(futs):
                try:
                    results.append(f.result())
                except Broken as e:
                    broken.append(str(e))
        code = report(c, spec, results, broken)
    except Broken as e:
        print("BROKEN", e)
    except Exception:
        traceback.print_exc()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.dir, ignore_errors=True)
    sys.exit(code)


def report(c, spec, results, broken):
    pid = c.pid
    listed = known_findings(pid)
    order = {j["name"]: i for i, j in enumerate(spec["jobs"])}
    results.sort(key=lambda r: order[r["job"]["name"]])
    nviol, replay = 0, None
    seen_known = {}
    counts = {}
    for r in results:
        c.cov["states"] += r["states"]
        c.cov["transitions"] += max(r["gen"] - 1, 0)
        if r["job"].get("model"):
            c.detail.setdefault("models", []).append({"model": r["job"]["name"], "distinct_states": r["states"], "transitions": r["gen"]})
            continue
        info = r["info"]
        c.cov["traces_validated_against_impl"] += int(info.get("traces", 1))
        for k, v in info.get("counts", {}).items():
            counts[k] = counts.get(k, 0) + v
        if r["trace"] and len(c.cov["samples"]) < 3:
            with open(r["trace"]) as f:
                want = info.get("sample", 5)
                for i, l in enumerate(f):
                    if i == want:
                        s = json.loads(l)
                        c.cov["samples"].append(s if len(l) < 6000 else l[:6000])
                        break
        mine = [(n, why) for p, n, why in r["viols"] if p == pid]
        for p, n, kid in r["knowns"]:
            if p == pid:
                if kid in listed:
                    seen_known[kid] = seen_known.get(kid, 0) + 1
                else:
                    mine.append((n, "finding not listed: " + kid))
        if mine:
            nviol += len(mine)
            if replay is None:
                d = os.path.join(VERIF, "evidence", "replay")
                os.makedirs(d, exist_ok=True)
                replay = os.path.join(d, "%s-%s.json" % (pid, r["job"]["name"]))
                n, why = mine[0]
                json.dump({"property": pid, "driver": " ".join(["vh"] + r["job"]["cmd"]), "trace_spec": r["job"]["spec"], "line": n,
                           "what": why, "history": slice_of(r["trace"], n) if r["trace"] else r["crash"].splitlines()}, open(replay, "w"), indent=1)
                print("line %d of %s: %s" % (n, r["job"]["name"], why[:1500]))
    if broken:
        for b in broken:
            print("BROKEN", b)
    c.detail["counts"] = counts
    cov = dict(c.cov)
    cov.update(c.detail)
    cov["explanation"] = spec.get("explanation", "")
    if not cov["samples"]:
        cov["samples"] = [json.dumps(c.detail.get("models", []))]
    ev = {"property": pid, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - c.t0, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if nviol:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    if broken:
        return 2
    for kid, text in listed.items():
        print("KNOWN-FINDING: property=%s %s (met %d times in this run)" % (pid, text, seen_known.get(kid, 0)))
    print("held: %s, %d states, %d transitions, %d histories of the real code, %.1f s" % (
        pid, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - c.t0))
    return 0


if __name__ == "__main__":
    main()
