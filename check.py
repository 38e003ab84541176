#!/usr/bin/env python3
"""Decide one property: build the explorer from /repo's working tree, run it, write evidence.

usage: check.py <property> [--replay FILE]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; else: error.
"""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
MC = os.path.join(HERE, "mc")
BUILD = os.path.join(HERE, ".build")
REPLAYS = os.path.join(HERE, "evidence", "replay")
SPEC = json.load(open(os.path.join(HERE, "checks.json")))


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def tree_hash(crate):
    """Contents (not times) of everything that is compiled."""
    h = hashlib.sha256()
    roots = [(REPO, ("src", "core/src", "Cargo.toml", "core/Cargo.toml")), (MC, (".",))]
    if crate != "mc":
        roots.append((os.path.join(HERE, crate), (".",)))
    for root, subs in roots:
        for sub in subs:
            p = os.path.join(root, sub)
            files = [p] if os.path.isfile(p) else sorted(
                os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs if "/target" not in d)
            for f in files:
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(os.path.relpath(f, root).encode() + b"\0")
                    h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUST_MIN_STACK", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0")
    for d in (os.path.expanduser("~/.cargo/bin"), "/usr/local/cargo/bin"):
        if os.path.exists(os.path.join(d, "cargo")):
            e["PATH"] = d + ":" + e.get("PATH", "")
    return e


def build(crate, bins, profile):
    """Build into a directory named after the contents of the tree; return it."""
    tdir = os.path.join(BUILD, tree_hash(crate))
    if crate != "mc":
        tdir += "-" + crate
    os.makedirs(tdir, exist_ok=True)
    env = cargo_env()
    env["CARGO_TARGET_DIR"] = tdir
    cmd = ["cargo", "build", "--offline", "--profile", profile]
    for b in bins:
        cmd += ["--bin", b]
    # The race explorer compiles the repository against its own `Arc`; should
    # that lack something newly used, the types of users can still be explored.
    for more in [[]] + ([["--no-default-features"]] if crate == "race" else []):
        r = subprocess.run(cmd + more, cwd=os.path.join(HERE, crate), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if r.returncode == 0:
            if more:
                print("note: built without the scheduled copy of the repository's own types")
            return os.path.join(tdir, profile)
    print(r.stdout[-6000:])
    die("the explorer does not build against /repo")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (40 << 30, 40 << 30))
    resource.setrlimit(resource.RLIMIT_DATA, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(exe, args, timeout):
    """Return (exit status or None on timeout, parsed result or None)."""
    fd, out = tempfile.mkstemp(prefix="kulmc-")
    os.close(fd)
    try:
        p = subprocess.Popen([exe] + args + ["--out", out], preexec_fn=limits, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            log, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return None, None, "timeout"
        res = None
        if p.returncode in (0, 10):
            res = json.load(open(out))
        return p.returncode, res, log
    finally:
        os.unlink(out)


def write_replay(pid, family, case, msg, profile):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, "%s-%s.txt" % (pid, hashlib.sha256((family + case).encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write("property: %s\nbuild: %s\nfamily: %s\ncase: %s\nfound: %s\nrerun: ./check.py %s --replay %s\n" % (
            pid, profile, family, case, msg.replace("\n", " "), pid, path))
    return path


CRASH = (11, -6, -11, -7, -4, -8, 134, 139)


def triage(exe, args, status, timeout):
    """The explorer died or hung: find the case by tracing, confirm it alone."""
    tdir = tempfile.mkdtemp(prefix="kulmc-trace-")
    try:
        st, res, log = run(exe, args + ["--trace", tdir], timeout)
        if st == 10:
            v = res["violation"]
            return v["family"], v["case"], v["msg"]
        for f in sorted(os.listdir(tdir)):
            path = os.path.join(tdir, f)
            txt = open(path).read()
            m = re.search(r"^family: (.*)$", txt, re.M)
            c = re.search(r"^case: (.*)$", txt, re.M)
            if not m or not c:
                continue
            st, res, log = run(exe, args + ["--replay", path, "--hang", "30"], 120)
            if st in CRASH:
                what = "hang" if st == 11 else "the process died (signal/abort): " + (log or "").strip()[-300:]
                return m.group(1), c.group(1), what
            if st == 10:
                return m.group(1), c.group(1), res["violation"]["msg"]
        return None
    finally:
        shutil.rmtree(tdir)


def passes(spec):
    return spec.get("passes", [["release", None], ["plain", "smoke"]])


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in SPEC:
        die("usage: check.py <property> [--replay FILE]; properties: " + " ".join(sorted(SPEC)))
    pid = sys.argv[1]
    spec = SPEC[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("bad VERIF_TIER")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    crate = spec.get("crate", "mc")
    budget = 800 if tier == "quick" else 7000

    if "--replay" in sys.argv:
        path = sys.argv[sys.argv.index("--replay") + 1]
        prof = re.search(r"^build: (.*)$", open(path).read(), re.M)
        prof = prof.group(1) if prof else "release"
        exe = os.path.join(build(crate, [spec["bin"]], prof), spec["bin"])
        st, res, log = run(exe, ["--tier", tier, "--replay", path], budget)
        if st == 0:
            print("replay: holds")
            sys.exit(0)
        if st == 10 or st in CRASH:
            print("replay:", res["violation"]["msg"] if res else log)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            sys.exit(1)
        die("replay failed: %s %s" % (st, log))

    total = None
    cov_builds = {}
    violation = None
    for profile, t in passes(spec):
        d = build(crate, [spec["bin"]], profile)
        args = ["--tier", t or tier]
        exe = os.path.join(d, spec["bin"])
        st, res, log = run(exe, args, budget)
        if st == 0:
            pass
        elif st == 10:
            v = res["violation"]
            violation = (v["family"], v["case"], v["msg"], profile)
        elif st in CRASH:
            found = triage(exe, args, st, budget)
            if found is None:
                die("explorer ended with %s and no single case reproduces it: %s" % (st, (log or "")[-2000:]))
            violation = found + (profile,)
            res = {"states": 0, "transitions": 0, "traces": 0, "families": {}, "extra": {}, "samples": []}
        else:
            die("explorer ended with %s: %s" % (st, (log or "")[-2000:]))
        name = {"release": "with_assertions", "plain": "as_shipped", "unopt": "unoptimized"}.get(profile, profile)
        cov_builds[name] = {"tier": t or tier, "cases_by_family": res["families"],
                            "distinct_outcomes": res["states"], "executions": res["traces"]}
        if res["extra"]:
            cov_builds[name]["counters"] = res["extra"]
        if total is None:
            total = res
        else:
            total["transitions"] += res["transitions"]
            total["traces"] += res["traces"]
            total["states"] = max(total["states"], res["states"])
        if violation:
            break

    cov = {
        "states": total["states"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "samples": total["samples"] or (["%s: %s" % violation[:2]] if violation else []),
        "exhaustive": violation is None,
        "what_is_counted": spec["counted"],
        "bounds": spec["bounds"],
        "builds": cov_builds,
    }
    if spec["level"] != "model_checking":
        cov["evaluations"] = total["traces"]
        cov["distinct_nontrivial"] = total["states"]
        cov["rule"] = spec["rule"]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if violation:
        path = write_replay(pid, *violation)
        print("counterexample: family=%s case=%s" % (violation[0], violation[1][:2000]))
        print("found: " + violation[2][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    print("%s held: %d executions, %d distinct outcomes, %d steps, %.1f s" % (
        pid, total["traces"], total["states"], total["transitions"], time.time() - t0))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except subprocess.TimeoutExpired:
        die("build timed out")
