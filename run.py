#!/usr/bin/env python3
"""Builds and runs the property checks.

  run.py setup                      build everything the quick checks need
  run.py check ID quick|thorough    run one check on every build; exit 0/1 (2: could not run)
  run.py replay FILE                re-run a stored violation (exit 1 when it still fails)

Every check builds the harness against /repo's current working tree for several target CPUs,
optimised and with debug assertions, runs the generated-input search on each build in parallel,
and writes evidence/<ID>.json.
"""
import hashlib, json, os, subprocess, sys, tempfile, time, shutil
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
H = V + "/harness"
TOOLCHAIN = "nightly-2020-07-01"
# name: (target cpu, optimised, features, extra rustc flags)
BUILDS = {
    "sse2":      ("x86-64", True, [], ""),
    "sse42":     ("nehalem", True, [], ""),
    "avx":       ("ivybridge", True, [], ""),
    "avx2":      ("haswell", True, [], ""),
    "sse2-chk":  ("x86-64", False, [], ""),
    "sse42-chk": ("nehalem", False, [], ""),
    "avx2-chk":  ("haswell", False, [], ""),
    "avx2-trace": ("haswell", True, ["trace"], ""),
    "sse2-trace": ("x86-64", True, ["trace"], ""),
    "step-sse2": ("x86-64", True, ["step"], ""),
    "step-sse3": ("nocona", True, ["step"], ""),
    "step-ssse3": ("core2", True, ["step"], ""),
    "step-sse41": ("penryn", True, ["step"], ""),
    "step-sse42": ("nehalem", True, ["step"], ""),
    "step-avx":  ("ivybridge", True, ["step"], ""),
    "step-avx2": ("haswell", True, ["step"], ""),
    "avx2-asan": ("haswell", True, ["sanitize"], "-Zsanitizer=address"),
}
# The checks of the iterators run the same code on every target (only the vector widths and a few
# operations differ); those of the operations run different intrinsics or fallbacks on each.
QUICK_IT = ["sse2", "avx2", "avx2-chk"]
QUICK_OP = ["sse2", "sse42", "avx2", "avx2-chk"]
THOROUGH = ["sse2", "sse42", "avx", "avx2", "sse2-chk", "sse42-chk", "avx2-chk"]
BUILD_ENV = {"sse2-trace": {"FASTER_DEBUG_FILE": "other-debug.txt"}}   # read by the crate at compile time
# C28, tracing: with and without, not one per instruction set. C33: processors that each lack one instruction set more.
STEP = ["step-sse2", "step-sse3", "step-ssse3", "step-sse41", "step-sse42", "step-avx"]
OWN = {"C28": (["avx2", "sse2-trace", "avx2-trace"],) * 2, "C33": (STEP, STEP + ["step-avx2"])}
EXTRA = {"C25": (["sse42", "avx2-trace"], ["avx2-trace"]), "C12": ([], ["avx2-asan"])}
THOROUGH_SECS = 420.0
SCALE = {"C09": 4.0, "C12": 8.0, "C24": 4.0, "C11": 20.0, "C26": 20.0, "C02": 30.0, "C25": 6.0,
         "C27": 12.0, "C28": 20.0, "C29": 12.0, "C30": 12.0, "C31": 60.0, "C32": 12.0, "C33": 3.0}   # of the case counts, quick
QUICK_SECS = 90.0   # a ceiling: the case counts end a quick run well before it
CPUS = os.cpu_count() or 4


def builds_for(cid, tier):
    if cid in OWN:
        return OWN[cid][0 if tier == "quick" else 1]
    e = EXTRA.get(cid, ([], []))
    q = QUICK_IT if package(cid) == "fvit" else QUICK_OP
    return (q + e[0]) if tier == "quick" else (THOROUGH + e[1])


def package(cid):
    return "fv" if os.path.exists("%s/src/bin/%s.rs" % (H, cid.lower())) else "fvit"


def checks():
    return sorted(f[:-3].upper() for d in ("/src/bin", "/it/src/bin") for f in os.listdir(H + d) if f.endswith(".rs"))


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO + "/src"):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(p.encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(fh.read())
            h.update(b"\1")
    with open(REPO + "/Cargo.toml", "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()


def tdir(b):
    return V + "/target/" + b


def build(b, bins, log):
    cpu, opt, feats, extra = BUILDS[b]
    t = tdir(b)
    os.makedirs(t, exist_ok=True)
    # cargo compares time stamps; content decides here, so that an edit with an old stamp counts.
    stamp, now = t + "/repo.sha256", repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != now:
        for prof in ("release", "debug", "x86_64-unknown-linux-gnu/release"):
            d = "%s/%s/.fingerprint" % (t, prof)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith(("faster-", "fv-", "fvit-")):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO", "RUST")) and k != "LD_LIBRARY_PATH"}
    env.setdefault("HOME", "/root")
    env.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    if os.path.isdir("/root/.cargo/bin"):
        env["PATH"] = "/root/.cargo/bin:" + env["PATH"]
    for k in ("RUSTUP_HOME",):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_HOME=V + "/cargo-home", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
               **BUILD_ENV.get(b, {}))
    env.update(CARGO_TARGET_DIR=t, RUSTFLAGS=("-C target-cpu=%s -A warnings %s" % (cpu, extra)).strip())
    cmd = ["cargo", "build", "--offline", "--locked"]
    for p in sorted(set(package(x) for x in bins)):
        cmd += ["-p", p]
    for x in bins:
        cmd += ["--bin", x.lower()]
    if opt:
        cmd.append("--release")
    if feats:
        cmd += ["--features", ",".join(feats)]
    if "sanitizer" in extra:
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    r = subprocess.run(cmd, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode("utf8", "replace")
    log.append(out)
    if r.returncode == 0:
        with open(stamp, "w") as f:
            f.write(now)
    return r.returncode == 0


def binary(b, cid):
    cpu, opt, feats, extra = BUILDS[b]
    mid = "/x86_64-unknown-linux-gnu" if "sanitizer" in extra else ""
    return "%s%s/%s/%s" % (tdir(b), mid, "release" if opt else "debug", cid.lower())


def build_all(bs, bins):
    logs = {b: [] for b in bs}
    with ThreadPoolExecutor(max_workers=len(bs)) as ex:
        res = list(ex.map(lambda b: build(b, bins, logs[b]), bs))
    bad = [b for b, ok in zip(bs, res) if not ok]
    for b in bad:
        sys.stderr.write("build %s failed:\n%s\n" % (b, "".join(logs[b])[-6000:]))
    return not bad


def known():
    with open(V + "/known-findings.json") as f:
        return json.load(f)


def run_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:handle_segv=0:handle_abort=0:allocator_may_return_null=1"
    return e


def cmd_check(cid, tier):
    cid = cid.upper()
    seed = os.environ.get("VERIF_SEED", "1")
    if not seed.isdigit():
        seed = "1"
    t0 = time.time()
    bs = builds_for(cid, tier)
    if not build_all(bs, [cid]):
        sys.stderr.write("%s: the harness could not be built\n" % cid)
        return 2
    tb = time.time() - t0
    kf = [k for k in known()["findings"] if k["property"] == cid]
    known_sigs = sorted(set(k["signature"] for k in kf))
    work = tempfile.mkdtemp(prefix="fv-%s-" % cid)
    try:
        return run_all(cid, tier, seed, bs, kf, known_sigs, work, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_all(cid, tier, seed, bs, kf, known_sigs, work, t0, tb):
    shards = 2 if tier == "quick" else 4
    jobs = [(b, s) for s in range(shards) for b in bs]

    def one(job):
        b, s = job
        out = "%s/%s.%d.json" % (work, b, s)
        d = "%s/cwd.%s.%d" % (work, b, s)   # the tracing feature appends to a file in its directory
        os.makedirs(d)
        scale = SCALE.get(cid, 12.0 if package(cid) == "fvit" else 20.0) if tier == "quick" else 1.0
        if BUILDS[b][1] is False:
            scale *= 0.1    # not optimised
        cmd = [binary(b, cid), "run", "--seed", seed, "--tier", tier, "--scale", str(scale), "--shard", str(s), "--shards", str(shards),
               "--out", out, "--build", b]
        if known_sigs:
            cmd += ["--known", ",".join(known_sigs)]
        cmd += ["--max-secs", str((THOROUGH_SECS if tier == "thorough" else QUICK_SECS) * CPUS / max(CPUS, len(jobs)))]
        if cid == "C25":
            cmd += ["--digests", out + ".dig"]
        r = subprocess.run(cmd, cwd=d, env=run_env(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        return job, r.returncode, res, r.stderr.decode("utf8", "replace")[-2000:]

    with ThreadPoolExecutor(max_workers=CPUS) as ex:
        results = list(ex.map(one, jobs))
    trouble = [(j, rc, e) for j, rc, res, e in results if res is None]
    fails = [(j, res) for j, rc, res, e in results if res is not None and not res["ok"]]
    oks = [(j, res) for j, rc, res, e in results if res is not None and res["ok"]]
    viol = []
    os.makedirs(V + "/replays", exist_ok=True)
    seen = set()
    for (b, s), res in fails:
        key = (res["signature"], res["variant"])
        if key in seen:
            continue
        seen.add(key)
        path = "%s/replays/%s-%s-%d.json" % (V, cid, b, len(viol))
        res.update(property=cid, command="python3 %s/run.py replay %s" % (V, path))
        with open(path, "w") as f:
            json.dump(res, f, indent=1)
        viol.append((path, res))
    cross = None
    if cid == "C25" and not fails and not trouble:
        names = [l.rsplit(" ", 1)[0] for l in subprocess.run([binary(bs[0], cid), "list"], stdout=subprocess.PIPE).stdout.decode().splitlines()]
        cross = compare_digests(cid, bs, work, shards, viol, seed, names)
    write_evidence(cid, tier, seed, bs, oks, fails, viol, kf, t0, tb, cross)
    seen_known = {}
    for j, res in oks:
        for k, n in res.get("known", {}).items():
            seen_known[k] = seen_known.get(k, 0) + n
    for k in kf:
        if seen_known.get(k["signature"]):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (cid, k["what"], seen_known[k["signature"]]))
        else:
            print("KNOWN-FINDING: property=%s %s (listed; not reached in this run)" % (cid, k["what"]))
    for path, res in viol:
        print("VIOLATION property=%s replay=%s" % (cid, path))
        print("  build %s, %s [%s]: %s" % (res["build"], res["variant"], res["signature"], res["message"][:600]))
        print("  input: %s" % res["input"][:600])
    if viol:
        return 1
    if trouble:
        for j, rc, e in trouble:
            sys.stderr.write("%s on %s: no result (status %s) %s\n" % (cid, j, rc, e))
        return 2
    n = sum(r["evaluations"] for _, r in oks)
    print("%s %s: held on %d generated cases (%d distinct non-trivial) over %d builds, %.0f s (build %.0f s)" % (
        cid, tier, n, sum(r["distinct_nontrivial"] for _, r in oks), len(bs), time.time() - t0, tb))
    return 0


def compare_digests(cid, bs, work, shards, viol, seed, names):
    """The same generated program must give the same result on every build."""
    base = {}
    compared = 0
    for b in bs:
        for s in range(shards):
            with open("%s/%s.%d.json.dig" % (work, b, s)) as f:
                for line in f:
                    vi, case, dg = line.split()
                    k = (vi, case)
                    if k not in base:
                        base[k] = (dg, b)
                    else:
                        compared += 1
                        if base[k][0] != dg and len(viol) < 3:
                            path = "%s/replays/%s-cross-%d.json" % (V, cid, len(viol))
                            res = {"property": cid, "build": b, "other_build": base[k][1], "variant": names[int(vi)], "case": int(case), "seed": int(seed),
                                   "signature": "builds-differ", "message": "results on builds %s and %s differ" % (base[k][1], b), "input": cross_input(cid, b, names[int(vi)], case, seed),
                                   "choices": [], "command": "python3 %s/run.py replay %s" % (V, path)}
                            with open(path, "w") as f2:
                                json.dump(res, f2, indent=1)
                            viol.append((path, res))
    return {"programs": len(base), "comparisons": compared}


def cross_input(cid, b, variant, case, seed):
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([binary(b, cid), "digest", "--seed", seed, "--variant", variant, "--case", case], cwd=d, env=run_env(), stdout=subprocess.PIPE)
    return "%s case %s: %s" % (variant, case, p.stdout.decode("utf8", "replace").partition("\n")[2].strip())


def write_evidence(cid, tier, seed, bs, oks, fails, viol, kf, t0, tb, cross):
    rule = oks[0][1]["rule"] if oks else ""
    per_build = {}
    labels, variants, samples, knownc = {}, {}, [], {}
    for (b, s), r in oks:
        p = per_build.setdefault(b, {"evaluations": 0, "distinct_nontrivial": 0, "time_limit_hit": False})
        p["evaluations"] += r["evaluations"]
        p["distinct_nontrivial"] += r["distinct_nontrivial"]
        p["time_limit_hit"] = p["time_limit_hit"] or r["time_limit_hit"]
        for k, n in r["labels"].items():
            labels[k] = labels.get(k, 0) + n
        for k, n in r["known"].items():
            knownc[k] = knownc.get(k, 0) + n
        for k, (n, d) in r["variants"].items():
            a = variants.setdefault(k, [0, 0])
            a[0] += n
            a[1] += d
        if len(samples) < 12:
            samples += ["[%s] %s" % (b, x) for x in r["samples"][:3]]
    for (b, s), r in fails:
        samples.append("[%s] FAILING %s: %s" % (b, r["variant"], r["input"][:1000]))
    ev = {
        "property": cid, "tier": tier, "level": "exploration", "seed": int(seed), "violations": len(viol),
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in per_build.values()),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in per_build.values()),
            "rule": rule + " A case counts once per build: builds run different code (vector widths, intrinsics or fallbacks).",
            "samples": samples[:14],
            "per_build": per_build, "labels": labels,
            "per_generator": {k: {"evaluations": v[0], "distinct_nontrivial": v[1]} for k, v in sorted(variants.items())},
        },
        "builds": {b: {"target_cpu": BUILDS[b][0], "profile": "optimised" if BUILDS[b][1] else "debug assertions and overflow checks", "features": BUILDS[b][2]} for b in bs},
        "known_findings": [{"what": k["what"], "cases": knownc.get(k["signature"], 0)} for k in kf],
        "wall_s": round(time.time() - t0, 1), "build_s": round(tb, 1),
        "repo_sha256": repo_hash(),
    }
    if cross:
        ev["coverage"]["cross_build"] = cross
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, cid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def cmd_replay(path):
    with open(path) as f:
        r = json.load(f)
    cid, b = r["property"], r["build"]
    bs = [b] + ([r["other_build"]] if "other_build" in r else [])
    if not build_all(bs, [cid]):
        return 2
    if "other_build" in r:
        out = []
        for x in bs:
            with tempfile.TemporaryDirectory() as d:
                cmd = [binary(x, cid), "digest", "--seed", str(r["seed"]), "--variant", r["variant"], "--case", str(r["case"])]
                p = subprocess.run(cmd, cwd=d, env=run_env(), stdout=subprocess.PIPE)
                txt = p.stdout.decode("utf8", "replace").strip()
                out.append(txt.partition("\n")[0])
                print("%s: %s" % (x, txt))
        return 0 if out[0] == out[1] else 1
    with tempfile.TemporaryDirectory() as d:
        cmd = [binary(b, cid), "replay", "--variant", r["variant"], "--choices", ",".join(str(c) for c in r["choices"])]
        return subprocess.run(cmd, cwd=d, env=run_env()).returncode


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        return 0 if build_all(["sse2", "sse42", "avx2", "avx2-chk"], [c for c in checks() if c not in OWN]) and build_all(["avx2-trace"], ["C25"]) and all(build_all(b[0], [c]) for c, b in sorted(OWN.items())) else 1
    if a[:1] == ["check"] and len(a) == 3 and a[2] in ("quick", "thorough"):
        return cmd_check(a[1], a[2])
    if a[:1] == ["replay"] and len(a) == 2:
        return cmd_replay(a[1])
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
