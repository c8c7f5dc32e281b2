#!/usr/bin/env python3
"""check.py <property>      decide one property (tier from VERIF_TIER)
check.py --setup           build everything the checks need
check.py --list            print the checks

Every harness of a property is compiled by Kani together with /repo's current source, executed
symbolically by CBMC and decided by its SAT solver.  Counterexamples and the end-of-harness
witnesses are replayed natively against /repo built with its real dependencies.
Exit 0: held.  Exit 1: violated (reproduced natively).  Anything else: no answer.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS, CRATES  # noqa: E402

TARGET = os.path.join(HERE, "target")
EVIDENCE = os.path.join(HERE, "evidence")
CARGO = "/root/.cargo/bin/cargo"
GOTO_INSTRUMENT = "/root/.kani/kani-0.68.0/bin/goto-instrument"
WORKERS = int(os.environ.get("VERIF_WORKERS", "6"))
MEM_LIMIT = 12 << 30
BUDGET = {"quick": 840, "thorough": 10800}
LOCK = threading.Lock()
STOP = threading.Event()  # a violation is confirmed: harnesses not yet started are skipped


def log(msg):
    with LOCK:
        print(msg, flush=True)


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUST_LOG", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
        env.pop(k, None)
    env.update(HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin")
    return env


def run(cmd, env, cwd, timeout, mem=None):
    """Runs a command in its own process group; returns (code or None on timeout, output)."""
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def kani_dir(crate, cap):
    return os.path.join(TARGET, "kani-%s-%s" % (crate, cap))


def kani_cmd(crate, h, cap, extra):
    cmd = [CARGO, "kani", "-Z", "stubbing", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--no-memory-safety-checks", "--no-overflow-checks", "--no-assertion-reach-checks",
           "--concrete-playback=print", "--target-dir", kani_dir(crate, cap)]
    if h:
        cmd += ["--exact", "--harness", h["path"]]
    cmd += extra
    return cmd


def kani_env(cap):
    env = base_env()
    env["VERIF_BYTES_CAP"] = str(cap)
    return env


def cwd_of(crate, kind):
    return os.path.join(HERE, "harness", crate, kind)


def source_hash():
    """Digest of everything a build depends on, so that staleness never rests on time stamps."""
    h = hashlib.sha256()
    for root in ("/repo", os.path.join(HERE, "harness"), os.path.join(HERE, "models")):
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".fbs", ".mol")):
                    h.update(os.path.join(d, f).encode())
                    with open(os.path.join(d, f), "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def refresh():
    """Forgets the build state of first-party crates in every target directory older than the sources."""
    digest = source_hash()
    os.makedirs(TARGET, exist_ok=True)
    for name in os.listdir(TARGET):
        top = os.path.join(TARGET, name)
        stamp = os.path.join(top, "sources")
        if not os.path.isdir(top):
            continue
        if os.path.exists(stamp) and open(stamp).read() == digest:
            continue
        for pkg in ("tokio-yamux", "tentacle", "harness"):
            for pat in ("kani/*/debug/build/%s*/*/fingerprint", "*/.fingerprint/%s*", "*/build/%s*/*/fingerprint"):
                for d in glob.glob(os.path.join(top, pat % pkg)):
                    shutil.rmtree(d, ignore_errors=True)
        with open(stamp, "w") as f:
            f.write(digest)


def native_bin(crate, profile):
    return os.path.join(TARGET, "native-" + crate, "debug" if profile == "dev" else "release", "replay")


def build_native(crate, timeout=1500):
    env = base_env()
    env["RUSTUP_TOOLCHAIN"] = "stable"
    env["RUSTFLAGS"] = "--cfg p2p_verif -Awarnings"
    out = ""
    for flags in ([], ["--release"]):
        code, o = run([CARGO, "build", "--offline", "--bin", "replay", "--target-dir",
                       os.path.join(TARGET, "native-" + crate)] + flags,
                      env, cwd_of(crate, "native"), timeout)
        out += o
        if code != 0:
            return False, out
    return True, out


PLAYBACK = re.compile(r"/// Check for `([^`]*)`: \"(.*)\"\n(?:.*\n)*?    let concrete_vals: Vec<Vec<u8>> = vec!\[\n((?:.*\n)*?)    \];")
CHECK = re.compile(r"^Check \d+: (\S.*)\n\s+- Status: (\w+)\n\s+- Description: \"(.*)\"\n(?:\s+- Location: (.*)\n)?", re.M)


def parse(out):
    r = {"ok": False, "failed": [], "covered": False, "playbacks": []}
    for name, status, desc, loc in CHECK.findall(out):
        if status == "FAILURE":
            r["failed"].append({"check": name, "description": desc, "location": loc})
    r["ok"] = "VERIFICATION:- SUCCESSFUL" in out
    r["answered"] = "VERIFICATION:-" in out
    r["covered"] = bool(re.search(r"(\d+) of \1 cover properties satisfied", out))
    for kind, desc, body in PLAYBACK.findall(out):
        vals = [v.strip() for v in re.findall(r"vec!\[([^\]]*)\]", body)]
        r["playbacks"].append({"kind": kind, "desc": desc, "values": vals})
    def total(pat):
        return sum(float(x) for x in re.findall(pat, out))
    m = re.findall(r"Generated (\d+) VCC\(s\), (\d+) remaining", out)
    r["vccs"] = sum(int(a) for a, _ in m)
    r["vccs_to_solver"] = sum(int(b) for _, b in m)
    r["ssa_steps"] = int(total(r"size of program expression: (\d+) steps"))
    r["queries"] = len(re.findall(r"Runtime Solver: ", out))
    r["solver_s"] = round(total(r"Runtime decision procedure: ([0-9.e+-]+)s"), 3)
    r["symex_s"] = round(total(r"Runtime Symex: ([0-9.e+-]+)s"), 3)
    vs = re.findall(r"(\d+) variables, (\d+) clauses", out)
    r["variables"] = int(vs[0][0]) if vs else 0
    r["clauses"] = int(vs[0][1]) if vs else 0
    return r


def replay(crate, name, values, where):
    """Runs the harness natively; returns {profile: (code, output)}."""
    os.makedirs(os.path.dirname(where), exist_ok=True)
    with open(where, "w") as f:
        f.write("".join(v + "\n" for v in values))
    res = {}
    for profile in ("dev", "release"):
        code, out = run([native_bin(crate, profile), name, where], base_env(), HERE, 60)
        res[profile] = (code, out)
    return res


def encoded(crate, cap, name):
    """Functions of /repo that are part of the program the solver decided."""
    files = glob.glob(os.path.join(kani_dir(crate, cap), "kani", "*", "debug", "build", "harness", "*", "out", "*%d%s.out" % (len(name), name)))
    if not files:
        return []
    newest = max(files, key=os.path.getmtime)
    code, out = run([GOTO_INSTRUMENT, "--list-goto-functions", newest], base_env(), HERE, 60)
    return sorted({l.split(" /*")[0] for l in out.splitlines()
                   if re.match(r"<?&?(mut )?(tokio_yamux|tentacle\w*)::", l) and "verif_" not in l})


def decide(prop, h, deadline):
    """Decides one harness: dict with status held | violated | error."""
    crate, cap = h["crate"], h["cap"]
    started = time.time()
    if STOP.is_set():
        return None
    limit = min(h["timeout"], deadline - time.time())
    args = ["--cbmc-args", "--max-field-sensitivity-array-size", str(h["fs"]), "--slice-formula"]
    code, out = run(kani_cmd(crate, h, cap, args), kani_env(cap), cwd_of(crate, "kani"), limit, mem=MEM_LIMIT)
    raw = os.path.join(EVIDENCE, "log", "%s-%s.txt" % (prop, h["name"]))
    os.makedirs(os.path.dirname(raw), exist_ok=True)
    with open(raw, "w") as f:
        f.write(out)
    r = parse(out)
    r.update(harness=h["path"], bytes_cap=cap, wall_s=round(time.time() - started, 1), status="error", why="", replayed=0)
    where = os.path.join(EVIDENCE, "replay", "%s-%s" % (prop, h["name"]))
    if code is None:
        r["why"] = "time limit of %d s reached" % limit
    elif not r["answered"]:
        r["why"] = "no answer from Kani (see %s): %s" % (raw, " | ".join(re.findall(r"^error.*", out, re.M)[:3]))
    elif r["ok"]:
        if not r["covered"]:
            r["why"] = "vacuous: the end of the harness is not reachable"
        else:
            r["status"] = "held"
    else:
        bound = [f for f in r["failed"] if "VERIF-MODEL-BOUND" in f["description"] or "unwinding assertion" in f["description"]]
        r["why"] = "; ".join(sorted({f["description"] for f in r["failed"]}))[:400]
        if bound:
            r["why"] = "bound of the encoding exceeded: " + r["why"]
        n = 0
        for p in r["playbacks"]:
            if p["kind"] == "cover" or "VERIF-MODEL-BOUND" in p["desc"] or "unwinding" in p["desc"]:
                continue
            n += 1
            path = "%s.cex%d" % (where, n)
            res = replay(crate, h["name"], p["values"], path)
            hit = [k for k, (c, _) in res.items() if c == 101 or (c is not None and c < 0)]
            if hit:
                r.update(status="violated", cex=path, values=p["values"], profiles=hit,
                         reproduced=res[hit[0]][1].strip()[-1500:])
                if not any(n == h["name"] for n, _ in known_findings(prop)):
                    STOP.set()
                break
            r["why"] += " [counterexample not reproduced natively: %s]" % {k: c for k, (c, _) in res.items()}
    # The witness that the harness can run to its end is itself replayed: model and real
    # dependencies must agree on it.
    for p in r["playbacks"]:
        if p["kind"] == "cover" and r["status"] == "held":
            res = replay(crate, h["name"], p["values"], where + ".witness")
            r["witness"] = p["values"]
            if all(c == 0 and "VERIF-END" in o for c, o in res.values()):
                r["replayed"] += 1
            else:
                r["status"], r["why"] = "error", "witness does not replay natively: %s" % {k: (c, o[-300:]) for k, (c, o) in res.items()}
    r.pop("playbacks")
    r["crate"] = crate
    r["functions"] = encoded(crate, cap, h["name"])
    log("%-28s %-8s %6.1fs  %d VCCs, %d to the solver, %d queries, solver %.1fs %s" % (
        h["name"], r["status"], r["wall_s"], r["vccs"], r["vccs_to_solver"], r["queries"], r["solver_s"], r["why"]))
    return r


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    res = []
    for line in open(path):
        m = re.match(r"known: property=(\S+) harness=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            res.append((m.group(2), m.group(3)))
    return res


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    spec = CHECKS[prop]
    started = time.time()
    deadline = started + BUDGET[tier]
    os.makedirs(EVIDENCE, exist_ok=True)
    hs = [h for h in spec["harnesses"] if tier == "thorough" or h["tier"] == "quick"]
    hs.sort(key=lambda h: -h["cost"])
    crates = sorted({h["crate"] for h in hs})
    problems, results = [], []
    refresh()
    with cf.ThreadPoolExecutor(max_workers=WORKERS) as pool:
        builds = {c: pool.submit(build_native, c) for c in crates}
        for c, f in builds.items():
            ok, out = f.result()
            if not ok:
                problems.append("native build of %s failed" % c)
                print(out[-4000:])
        if not problems:
            results = [r for r in pool.map(lambda h: decide(prop, h, deadline), hs) if r]
    known = known_findings(prop)
    violated = []
    for r in results:
        name = r["harness"].split("::")[-1]
        texts = [t for n, t in known if n == name]
        if texts:
            # A harness that states exactly one recorded defect and nothing else.
            if r["status"] == "violated":
                r["status"] = "known"
                print("KNOWN-FINDING: property=%s %s" % (prop, texts[0]))
            elif r["status"] == "error":
                problems.append("%s: %s" % (name, r["why"]))
        elif r["status"] == "violated":
            violated.append(r)
        elif r["status"] == "error":
            problems.append("%s: %s" % (name, r["why"]))
    def total(k):
        return sum(r[k] for r in results)
    functions = sorted({f for r in results for f in r["functions"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution (Kani/CBMC) of /repo's current source; each harness is one query family over all values of its symbolic inputs within the bounds, decided by a SAT solver. No sampling: the seed is unused.",
            "bounds": spec["bounds"],
            "functions_encoded": functions,
            "harnesses": len(results),
            "harnesses_held": len([r for r in results if r["status"] == "held"]),
            "vccs_generated": total("vccs"),
            "vccs_discharged_by_solver": total("vccs_to_solver"),
            "solver_queries": total("queries"),
            "solver_s": round(total("solver_s"), 2),
            "symbolic_execution_s": round(total("symex_s"), 2),
            "ssa_steps": total("ssa_steps"),
            "witnesses_replayed_on_real_build": total("replayed"),
            "samples": [{k: r.get(k) for k in ("harness", "bytes_cap", "status", "wall_s", "vccs", "vccs_to_solver", "queries", "solver_s", "variables", "clauses", "witness")} for r in results],
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - started, 1),
        "violations": len(violated),
    }
    if problems:
        ev["coverage"]["problems"] = problems
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in violated:
        path = r["cex"] + ".json"
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": r["harness"], "values": r["values"], "failed": r["failed"],
                       "profiles": r["profiles"], "native_output": r["reproduced"],
                       "replay": "%s %s %s" % (native_bin(r["crate"], "dev"), r["harness"].split("::")[-1], r["cex"])}, f, indent=1)
        print(r["reproduced"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if violated:
        return 1
    for p in problems:
        print("NO-ANSWER property=%s %s" % (prop, p))
    return 2 if problems else 0


def setup():
    dirs = sorted({(h["crate"], h["cap"]) for c in CHECKS.values() for h in c["harnesses"]})
    crates = sorted({c for c, _ in dirs})
    bad = []
    refresh()
    def codegen(d):
        crate, cap = d
        env = kani_env(cap)
        env["CARGO_BUILD_JOBS"] = "3"
        h = next(h for c in CHECKS.values() for h in c["harnesses"] if (h["crate"], h["cap"]) == d)
        code, out = run(kani_cmd(crate, h, cap, ["--only-codegen"]), env, cwd_of(crate, "kani"), 1700)
        if code != 0:
            bad.append(d); log(out[-3000:])
        log("kani build %s cap %s: %s" % (crate, cap, code))
    def native(c):
        ok, out = build_native(c)
        if not ok:
            bad.append(c); log(out[-3000:])
        log("native build %s: %s" % (c, ok))
    with cf.ThreadPoolExecutor(max_workers=4) as pool:
        list(pool.map(lambda f: f[0](f[1]), [(codegen, d) for d in dirs] + [(native, c) for c in crates]))
    return 1 if bad else 0


def main():
    arg = sys.argv[1]
    if arg == "--setup":
        return setup()
    if arg == "--list":
        for p, c in sorted(CHECKS.items()):
            print(p, " ".join(h["name"] + ("" if h["tier"] == "quick" else "*") for h in c["harnesses"]))
        return 0
    return check(arg)


if __name__ == "__main__":
    sys.exit(main())
