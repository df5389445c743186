#!/usr/bin/env python3
"""Runs one property's check: python3 run.py <ID> quick|thorough

Builds the harness against /repo's current working tree, runs it, turns what the monitors recorded
into evidence/<ID>.json, and prints VIOLATION / KNOWN-FINDING lines.
"""
import json, os, re, subprocess, sys, time, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import propinfo

def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = "/root"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target")
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "1.87"
    e.pop("RUSTC_WRAPPER", None)
    return e

def build(bins=None):
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml")]
    p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("BUILD-FAILED: the harness does not build against /repo")
        sys.exit(2)

def build_cli():
    """builds the command line tool; returns the binary"""
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target", "cli")
    cmd = ["cargo", "build", "--offline", "--manifest-path", "/repo/Cargo.toml", "-p", "carcara-cli"]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("BUILD-FAILED: the command line tool does not build")
        sys.exit(2)
    return os.path.join(e["CARGO_TARGET_DIR"], "debug/carcara")

TRIPLE = "x86_64-unknown-linux-gnu"
def sanitized(kind):
    """builds the harness and the code under test with a sanitizer; returns the binary"""
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["RUSTFLAGS"] = f"-Zsanitizer={kind}"
    e["CARGO_TARGET_DIR"] = os.path.join(HERE, "target", "san-" + kind)
    cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "harness/Cargo.toml"), "--target", TRIPLE]
    if kind == "thread":
        cmd.append("-Zbuild-std")
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        print("BUILD-FAILED: the harness does not build with the sanitizer")
        sys.exit(2)
    return os.path.join(e["CARGO_TARGET_DIR"], TRIPLE, "debug/cvh")

def frames(rep):
    """functions of the code under test named in a sanitizer report, outermost accesses first"""
    return re.findall(r"#\d+ (\S.*?) (/repo/\S+?):(\d+)", rep)

def sanitizer_run(kind, binp, pid, tier, seed, out, e, limit, d):
    """runs the workload under the sanitizer and turns its reports into violations of d"""
    import glob
    log = out + "." + kind
    opts = f"exitcode=0 log_path={log} halt_on_error=0 detect_leaks=0 history_size=4"
    e = dict(e, TSAN_OPTIONS=opts, ASAN_OPTIONS=opts.replace("history_size=4", "").replace("exitcode=0 halt_on_error=0", "exitcode=66"), CVH_WORKERS="4")
    sub = out + "." + kind + ".json"
    p = subprocess.run([binp, pid, tier, str(seed), sub], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=limit, errors="replace", text=True)
    reports = []
    for f in glob.glob(log + ".[0-9]*"):
        reports += [x for x in re.split(r"={18,}\n", open(f, errors="replace").read()) if "Sanitizer" in x]
        os.remove(f)
    d["counts"][kind + "-sanitizer-reports"] = len(reports)
    seen = set()
    for r in reports:
        m = re.search(r"Sanitizer: ([\w -]+)", r)
        fr = frames(r)
        sig = (m.group(1).strip().replace(" ", "-") if m else "report") + ":" + (os.path.basename(fr[0][1]) + ":" + fr[0][0].split("::")[-1] if fr else "?")
        if sig not in seen and len(seen) < 5:
            seen.add(sig)
            d["violations"].append({"sig": sig, "what": f"{kind} sanitizer: " + " <- ".join(f"{a} ({b}:{c})" for a, b, c in fr[:6]), "input": r})
    try:
        x = json.load(open(sub))
        os.remove(sub)
    except OSError:
        cur = "".join(open(f, "rb").read().split(b"\0")[0].decode(errors="replace") + "\n====\n" for f in glob.glob(sub + ".cur*"))
        if p.returncode in (2, 3) or not cur:
            print(p.stdout[-4000:])
            print("HARNESS-ERROR")
            sys.exit(2)
        d["violations"].append({"sig": "crash", "what": f"the process died with status {p.returncode} under the {kind} sanitizer", "input": p.stdout[-5000:] + cur})
        x = None
    for f in glob.glob(sub + "*"):
        os.remove(f)
    if x:
        d["evals"] += x["evals"]
        d["distinct"] += x["distinct"]
        d["samples"] = d["samples"] or x["samples"]
        d["violations"] += x["violations"]
        for k, v in x["counts"].items():
            d["counts"][f"{kind}:{k}"] = v

def selftest(kind, binp, e, d):
    """a deliberate race must be reported, or the detector is not at work"""
    p = subprocess.run([binp, "race"], env=dict(e, TSAN_OPTIONS="exitcode=66"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if "data race" not in p.stdout:
        print(p.stdout[-2000:])
        print("HARNESS-ERROR: the race detector does not report a deliberate race")
        sys.exit(2)
    d["counts"]["deliberate-race-detected"] = 1

def known(pid):
    """signature -> description of the recorded findings (not the fixed ones)"""
    r = {}
    with open(os.path.join(HERE, "KNOWN_FINDINGS.txt")) as f:
        for ln in f:
            m = re.match(r"known: property=(\S+) sig=(\S+) :: (.*)", ln.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r

def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    info = propinfo.INFO[pid]
    build()
    san = {}
    if info.get("sanitize"):
        for kind in info["sanitize"](tier):
            san[kind] = sanitized(kind)
    cli = None
    if info.get("cli"):
        cli = build_cli()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, f".{pid}.{os.getpid()}.json")
    binp = os.path.join(HERE, "target/debug/cvh")
    e = env()
    e["RUST_BACKTRACE"] = "0"
    e["CVH_HERE"] = HERE
    if cli:
        e["CVH_CLI"] = cli
    limit = 860 - (time.time() - t0)
    crash = None
    try:
        p = subprocess.run([binp, pid, tier, str(seed), out], env=e, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=limit, errors="replace", text=True)
        if p.returncode == 3 or p.returncode == 2:
            print(p.stderr[-4000:])
            print("HARNESS-ERROR")
            sys.exit(2)
        if p.returncode != 0:
            crash = f"the harness process ended with status {p.returncode}\n" + p.stderr[-20000:]
            # the case each worker was on when the process died
            for k in range(64):
                try:
                    t = open(f"{out}.cur{k}", "rb").read().split(b"\0")[0].decode(errors="replace")
                    crash += f"\n==== case of worker {k} (one of these)\n{t}"
                except OSError:
                    break
    except subprocess.TimeoutExpired:
        print("TIMEOUT")
        sys.exit(2)
    import glob
    for x in glob.glob(out + ".cur*"):
        os.remove(x)
    if crash is None:
        d = json.load(open(out))
        os.remove(out)
    else:
        d = {"evals": 0, "distinct": 0, "counts": {}, "samples": [], "known": {},
             "violations": [{"sig": "crash", "what": "the process running the checker died", "input": crash}]}
    for kind, b in san.items():
        if kind == "thread":
            selftest(kind, b, e, d)
        try:
            sanitizer_run(kind, b, pid, tier, seed, out, e, (860 - (time.time() - t0)) / (1 if kind == list(san)[-1] else 2), d)
        except subprocess.TimeoutExpired:
            print("TIMEOUT")
            sys.exit(2)
    if info.get("extra") and crash is None:
        info["extra"](HERE, env(), tier, seed, d)
    kf = known(pid)
    bad = []
    shown = {}
    for sig, what in d["known"].items():
        if sig in kf:
            shown[sig] = what
        else:
            bad.append({"sig": sig, "what": what, "input": what})
    for v in d["violations"]:
        if v["sig"] in kf:
            shown[v["sig"]] = v["what"]
        else:
            bad.append(v)
    for sig, what in sorted(shown.items()):
        print(f"KNOWN-FINDING: property={pid} {sig}: {kf[sig]}")
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": info["level"],
          "coverage": {"evaluations": d["evals"], "distinct_nontrivial": d["distinct"], "rule": info["rule"],
                       "samples": d["samples"][:8] or ["(none: the process died)"],
                       "observed": {k: v for k, v in sorted(d["counts"].items())}},
          "assumptions": info.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": len(bad)}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if d["evals"] == 0 and not bad:
        print("HARNESS-ERROR: nothing was observed")
        sys.exit(2)
    for v in bad:
        h = hashlib.sha1((v["sig"] + v["input"]).encode("utf-8", "replace")).hexdigest()[:10]
        path = os.path.join(rdir, f"{pid}-{h}.txt")
        with open(path, "w", errors="replace") as f:
            f.write(f"{v['sig']}\n{v['what']}\n\n{v['input']}\n")
        print(f"[{v['sig']}] {v['what'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    print(f"{pid} {tier}: {d['evals']} evaluations, {d['distinct']} distinct, {len(bad)} violations, {wall:.1f}s")
    sys.exit(1 if bad else 0)

main()
