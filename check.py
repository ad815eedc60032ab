#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property of /repo's current tree.

1. builds the harness (real code of /repo instantiated by /verif/harness) and the TLC overrides,
2. runs the property's scenario, which records what the real code did as ndjson,
3. has TLC check the recordings against the TLA+ specification in /verif/spec,
4. writes evidence/<property>.json; exit 0 / exit 1 + VIOLATION line / exit 2 on a tool error.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
TLA = "/opt/veriftools/tla"
sys.path.insert(0, ROOT)
from jobs import JOBS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def die(msg):
    log("ERROR", msg)
    sys.exit(2)


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO, os.path.join(ROOT, "harness"), os.path.join(ROOT, "cli")):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def java():
    jdir = os.path.join(BUILD, "java")
    src = [os.path.join(ROOT, "java/verif", f) for f in sorted(os.listdir(os.path.join(ROOT, "java/verif")))]
    jh = hashlib.sha256(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    stamp = os.path.join(jdir, "stamp")
    if not (os.path.exists(stamp) and open(stamp).read() == jh):
        shutil.rmtree(jdir, ignore_errors=True)
        os.makedirs(jdir)
        r = subprocess.run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", jdir] + src, capture_output=True, text=True)
        if r.returncode:
            die("javac failed\n" + r.stdout + r.stderr)
        open(stamp, "w").write(jh)


def text(p):
    return open(p).read() if os.path.exists(p) else ""


def build(crate="harness", feature="all"):
    """an executable of the crate with at least the scenario asked for, made from /repo's current text"""
    os.makedirs(os.path.join(BUILD, "exe"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        java()
        th = tree_hash()
        exe = lambda f: os.path.join(BUILD, "exe", crate + "-" + f)
        for f in ("all", feature):
            if os.path.exists(exe(f)) and text(exe(f) + ".stamp") == th:
                return exe(f)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_NET_OFFLINE="true")
        env.pop("RUSTFLAGS", None)
        man = os.path.join(ROOT, crate, "Cargo.toml")
        stamp = os.path.join(BUILD, "tree-%s.stamp" % crate)
        if text(stamp) != th and os.path.isdir(os.path.join(BUILD, "target")):
            # never trust modification times: rebuild the crates whose text changed
            if os.path.exists(stamp):
                os.remove(stamp)
            subprocess.run(["cargo", "clean", "--offline", "--release", "--manifest-path", man, "-p", "fawkes-crypto",
                            "-p", "fawkes-crypto_derive", "-p", crate], env=env, capture_output=True)
        args = [] if feature == "all" else ["--no-default-features", "--features", feature]
        r = subprocess.run(["cargo", "build", "--release", "--offline", "--manifest-path", man] + args,
                           env=env, capture_output=True, text=True)
        if r.returncode:
            die(crate + " does not build\n" + r.stderr[-6000:])
        open(stamp, "w").write(th)
        if os.path.exists(exe(feature)):
            os.remove(exe(feature))
        shutil.copy2(os.path.join(BUILD, "target/release", crate), exe(feature))
        open(exe(feature) + ".stamp", "w").write(th)
        return exe(feature)


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


def run_harness(exe, scenario, work, seed, tier):
    t = 400 if tier == "quick" else 3000
    try:
        r = subprocess.run([exe, scenario, work, str(seed), tier], capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        raise Violation("the implementation did not terminate in scenario " + scenario, {"scenario": scenario})
    if r.returncode == 2 or r.returncode == -9:
        die("harness failed: " + r.stderr[-2000:])
    if r.returncode:
        raise Violation("the implementation crashed outside any specified panic in scenario %s (exit %d)"
                        % (scenario, r.returncode), {"scenario": scenario, "stderr": r.stderr[-4000:]})
    return r.stdout


REJECTS = (10, 11, 12, 13, 14, 75, 76, 77)  # TLC's exit codes for a violated assumption or property


def execute(cmd, env, cwd, timeout, stop):
    """the output and exit code of a command; -1 when its time is up, -2 when another job ended the run"""
    with open(os.path.join(cwd, "out-%d-%d" % (os.getpid(), threading.get_ident())), "w+") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd)
        end, code = time.time() + timeout, None
        while code is None:
            try:
                code = p.wait(0.2)
            except subprocess.TimeoutExpired:
                if time.time() > end or (stop is not None and stop.is_set()):
                    p.kill()
                    p.wait()
                    code = -2 if stop is not None and stop.is_set() else -1
        f.seek(0)
        out = f.read()
    os.remove(f.name)
    return out, code


def run_tlc(job, work, workers, tier, stop=None):
    """returns dict(states, transitions, out, code)"""
    name = job["name"]
    meta = os.path.join(work, "meta-" + name)
    env = dict(os.environ)
    trace = os.path.join(work, job["trace"]) if job.get("trace") else ""
    env["TRACE"] = trace
    env["TIER"] = tier
    env["BEAM"] = str(job.get("beam", (0, 0))[tier != "quick"])
    env["WORK"] = work
    for k, v in job.get("env", {}).items():
        env[k] = v.replace("$WORK", work)
    lib = os.pathsep.join([ROOT + "/spec", ROOT + "/spec/" + job.get("lib", "small")])
    mem = job.get("mem", "3g")
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-DTLA-Library=" + lib,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.BigNatOverrides",
           "-cp", os.pathsep.join([BUILD + "/java", TLA + "/tla2tools.jar", TLA + "/CommunityModules-deps.jar"]),
           "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
    n = str(job.get("n", (0, 0))[tier != "quick"])
    cmd += [a.replace("$N", n) for a in job.get("args", [])]
    cmd += ["-config", os.path.join(ROOT, "spec", job.get("cfg", "Trace.cfg")),
            os.path.join(ROOT, "spec", job["module"] + ".tla")]
    search = job["module"] == "Prover"
    to = job.get("timeout", (330 if search else 650) if tier == "quick" else 7200)
    out, code = execute(cmd, env, work, to, stop)
    truncated = env["BEAM"] != "0"
    if truncated:
        if "Invariant Sound is violated" in out:
            code = 12
        elif code == -1:
            code = 0
    elif code == -1 and search:
        # too many assignments to finish: a beam of them instead (a circuit that leaves values free
        # admits many wrong ones), and the evidence says that the search was not exhaustive
        truncated = True
        shutil.rmtree(meta, ignore_errors=True)
        for beam in ((60, 1000) if tier == "quick" else (60, 1000, 10000, 100000)):
            env["BEAM"] = str(beam)
            out2, code2 = execute(cmd, env, work, 90 if tier == "quick" else 1200, stop)
            # (TLC cannot recover the path to a state of a random search, but prints the assignment)
            if "Invariant Sound is violated" in out2:
                code2 = 12
            out, code = out + out2, 0 if code2 == -1 else code2
            if code != 0:
                break
    shutil.rmtree(meta, ignore_errors=True)
    if stop is not None and code in REJECTS:
        stop.set()
    with open(os.path.join(work, "tlc-" + name + ".log"), "w") as f:
        f.write(out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    st = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
    return dict(job=job, states=st[0], transitions=st[1], out=out, code=code, trace=trace,
                truncated=truncated)


def count_lines(p):
    with open(p, "rb") as f:
        return sum(1 for _ in f)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = JOBS[pid]
    crate = spec.get("crate", "harness")
    exe = build(crate, pid.lower() if crate == "harness" else "all")
    tb = time.time() - t0
    work = os.path.join(BUILD, "work", pid + "-" + tier)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking"}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "jobs": []}
    findings, violation = [], None
    try:
        # specification-generated behaviours first (TLC writes them, the harness replays them)
        for g in spec.get("generate", []):
            if tier == "quick" and g.get("tier") == "thorough":
                continue
            r = run_tlc(g, work, g.get("workers", 8), tier)
            if r["code"] != 0:
                die("generation job %s failed (%d)\n%s" % (g["name"], r["code"], r["out"][-3000:]))
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            cov["jobs"].append({"job": g["name"], "module": g["module"], "states": r["states"]})
        for s in spec["scenarios"]:
            run_harness(exe, s, work, seed, tier)
        jobs = [j for j in spec["jobs"] if not (tier == "quick" and j.get("tier") == "thorough")]
        par = min(len(jobs), spec.get("par", 3))
        workers = max(2, 8 // par)
        with ThreadPoolExecutor(par) as ex:
            stop = threading.Event()
            res = list(ex.map(lambda j: run_tlc(j, work, workers, tier, stop), jobs))
        for r in res:
            j = r["job"]
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            n = count_lines(r["trace"]) if r["trace"] else 0
            cov["jobs"].append({"job": j["name"], "module": j["module"], "states": r["states"],
                                "recorded_events": n, "what": j.get("what", ""),
                                **({"exhaustive": False} if r["truncated"] else {})})
            cov["traces_validated_against_impl"] += n
            if r["trace"]:
                with open(r["trace"]) as f:
                    for k, line in enumerate(f):
                        if k >= 1:
                            break
                        if len(line) < 3000:
                            cov["samples"].append({"job": j["name"], "event": json.loads(line)})
                        else:
                            cov["samples"].append({"job": j["name"], "event_prefix": line[:400]})
        for r in sorted(res, key=lambda r: r["code"] not in REJECTS):
            if r["code"] == 0:
                continue
            j = r["job"]
            if r["code"] in REJECTS:
                m = re.findall(r'<<"REJECTED", (.*?)>>', r["out"])
                data = {"job": j["name"], "module": j["module"], "tlc_exit": r["code"],
                        "trace": r["trace"], "rejected": m[:5]}
                if m and r["trace"]:
                    try:
                        idx = int(m[0].split(",")[0])
                        with open(r["trace"]) as f:
                            for k, line in enumerate(f, 1):
                                if k == idx:
                                    data["event"] = json.loads(line) if len(line) < 200000 else line[:20000]
                    except ValueError:
                        pass
                data["tlc_tail"] = r["out"][-6000:]
                raise Violation("the recorded behaviour is not one of the specification (%s)" % j["module"], data)
            die("TLC job %s failed (exit %d)\n%s" % (j["name"], r["code"], r["out"][-3000:]))
    except Violation as v:
        violation = v
    cov["build_s"] = round(tb, 1)
    ev["coverage"] = cov
    ev["assumptions"] = spec.get("assumptions", [])
    ev["wall_s"] = round(time.time() - t0, 1)
    ev["violations"] = 1 if violation else 0
    if not cov["samples"]:
        cov["samples"] = ["none"]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        rdir = os.path.join(ROOT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, tier))
        with open(rp, "w") as f:
            json.dump({"property": pid, "what": violation.what, "seed": seed, "tier": tier,
                       "reproduce": "VERIF_SEED=%d python3 check.py %s %s" % (seed, pid, tier),
                       "data": violation.data}, f, indent=1)
        log("REASON", violation.what)
        e = violation.data.get("event")
        if e is not None:
            log("EVENT", json.dumps(e)[:600])
        log("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    log("OK property=%s tier=%s states=%d events=%d wall=%.1fs" %
        (pid, tier, cov["states"], cov["traces_validated_against_impl"], ev["wall_s"]))


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "build":
        build()
        build("cli")
        log("built")
    else:
        main()
