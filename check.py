#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--replay FILE] | --setup

Exit 0: the property held on everything explored. Exit 1 and a VIOLATION line: it is broken.
Exit 2: the check could not decide (build failure, out of memory, time limit, ...)."""
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
RACE = {"C20", "C25"}
SHARDS = 8
GRACE = 45
LIMIT = {"quick": 840, "thorough": 6 * 3600}


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.setdefault("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOSUMDB="off")
    for k in ("GODEBUG", "GORACE", "GOMAXPROCS", "GOGC", "GOMEMLIMIT", *[x for x in e if x.startswith("RAPID_")]):
        e.pop(k, None)
    return e


def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)


def build(work, race):
    """Builds the test binary from /repo's working tree and a private copy of the harness."""
    src = os.path.join(work, "src")
    shutil.copytree(HARNESS, src)
    out = os.path.join(work, "h.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=src, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        die("build failed:\n" + p.stdout[-6000:])
    return out


def run_shards(binary, work, prop, tier, seed, shards, limit, extra=()):
    stats = os.path.join(work, "stats")
    os.makedirs(stats, exist_ok=True)
    procs = []
    for i in shards:
        cwd = os.path.join(work, f"shard{i}")
        os.makedirs(cwd, exist_ok=True)
        e = env()
        e.update(VERIF_SEED=str(seed), VERIF_TIER=tier, VERIF_SHARD=str(i), VERIF_SHARDS=str(SHARDS),
                 VERIF_STATS=stats, TMPDIR=cwd, GOTRACEBACK="all")
        if prop in RACE:
            e["GORACE"] = "halt_on_error=1 exitcode=66"
        log = open(os.path.join(cwd, "log"), "w")
        run = next((a for a in extra if a.startswith("-test.run=")), f"-test.run=^Test{prop}$")
        p = subprocess.Popen([binary, run, "-test.timeout=0", "-test.failfast",
                              *[a for a in extra if not a.startswith("-test.run=")]],
                             cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((i, p, log, cwd))
    end = time.time() + limit
    failed = None
    pending = list(procs)
    results = {}
    while pending:
        for item in list(pending):
            i, p, log, cwd = item
            if p.poll() is not None:
                results[i] = p.returncode
                pending.remove(item)
                if failed is None and classify(p.returncode, read_log(work, i))[0] == "violation":
                    failed = time.time()
        for item in list(pending):
            i, p, log, cwd = item
            try:
                stuck = time.time() > os.path.getmtime(os.path.join(cwd, "failed")) + 2 * GRACE
            except OSError:
                continue
            if stuck:  # shrinking the failure takes too long
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                results[i] = "failed"
                failed = failed or time.time()
                pending.remove(item)
        if pending and failed is not None and time.time() > failed + GRACE:
            # One failure decides; the others had some time to find and shrink theirs
            for i, p, log, cwd in pending:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                results[i] = "stopped"
            pending = []
        if pending and time.time() > end:
            for i, p, log, cwd in pending:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                results[i] = "timeout"
            pending = []
        time.sleep(0.05)
    for _, _, log, _ in procs:
        log.close()
    return results


def read_log(work, i):
    with open(os.path.join(work, f"shard{i}", "log"), errors="replace") as f:
        return f.read()


def classify(rc, log):
    """Returns 'ok', 'violation' or 'error' and a reason."""
    if rc == 0:
        return "ok", ""
    if rc == "stopped":
        return "ok", "stopped after another shard's failure"
    if rc == "failed":
        return "violation", "property failed, not shrunk"
    if rc == "timeout":
        return "error", "time limit"
    if isinstance(rc, int) and rc < 0:
        return "error", f"killed by signal {-rc}"
    if "out of memory" in log or "cannot allocate memory" in log or "errno=12" in log:
        return "error", "out of memory"
    if rc == 97:
        return "violation", "deadlock"
    if rc == 96:
        return "violation", "endless"
    if rc == 66 or "WARNING: DATA RACE" in log:
        # a race counts if the code under test takes part in it
        return ("violation", "data race") if "/repo/" in log else ("error", "race in the harness")
    if rc == 1 and re.search(r"^\s*--- FAIL", log, re.M):
        return "violation", "property failed"
    if rc == 2 and re.search(r"^(panic|fatal error):", log, re.M) and "/repo/" in log:
        return "violation", "crash"
    return "error", f"exit code {rc}"


def evidence(work, prop, tier, seed, level, wall, violations):
    subs, hashes = {}, set()
    for f in sorted(glob.glob(os.path.join(work, "stats", "stats-*.json"))):
        for name, s in json.load(open(f)).items():
            t = subs.setdefault(name, {"evaluations": 0, "nontrivial": 0, "rule": s["rule"], "labels": {}, "samples": []})
            t["evaluations"] += s["evaluations"]
            t["nontrivial"] += s["nontrivial"]
            for k, v in (s["labels"] or {}).items():
                t["labels"][k] = t["labels"].get(k, 0) + v
            t["samples"] += s["samples"] or []
    for f in glob.glob(os.path.join(work, "stats", "hashes-*.bin")):
        b = open(f, "rb").read()
        hashes.update(struct.unpack(f"<{len(b)//8}Q", b))
    samples = []
    for name, s in sorted(subs.items()):
        s["labels"] = dict(sorted(s["labels"].items()))
        samples += [f"{name}: {x}" for x in s.pop("samples")[:3]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
          "coverage": {
              "evaluations": sum(s["evaluations"] for s in subs.values()),
              "distinct_nontrivial": len(hashes),
              "rule": "Cases are drawn by rapid's generators, seeded by VERIF_SEED, the shard and the sub-property's name; "
                      "two cases are the same if their full descriptions are. Non-trivial, per sub-property: " +
                      "; ".join(f"{n.split('/')[-1]}: {s['rule']}" for n, s in sorted(subs.items()) if s["rule"] != "saved regression input"),
              "samples": samples,
              "sub_properties": dict(sorted(subs.items())),
          },
          "assumptions": ["image sides of up to 13106 pixels (see DESIGN.md)"],
          "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def known(prop):
    """Lines of known_findings.txt for the property that are findings, not repairs."""
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                yield m.group(2)


def main():
    args = sys.argv[1:]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if not args:
        die(__doc__)
    start = time.time()
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        if args[0] == "--setup":
            build(work, False)
            shutil.rmtree(os.path.join(work, "src"))
            build(work, True)
            print("setup done")
            return 0
        prop = args[0]
        if "--replay" in args:
            return replay(work, prop, args[args.index("--replay") + 1])
        binary = build(work, prop in RACE)
        results = run_shards(binary, work, prop, tier, seed, range(SHARDS), LIMIT[tier])
        verdicts = {i: classify(rc, read_log(work, i)) for i, rc in results.items()}
        bad = [i for i, v in sorted(verdicts.items()) if v[0] == "violation"]
        evidence(work, prop, tier, seed, "exploration", time.time() - start, len(bad))
        for f in known(prop):
            print(f"KNOWN-FINDING: property={prop} {f}")
        if bad:
            # Prefer a shrunk failure over a crash
            bad.sort(key=lambda i: verdicts[i][1] != "property failed")
            i = bad[0]
            log = read_log(work, i)
            out = os.path.join(ROOT, "replays", f"{prop}-{tier}-{seed}-{int(start)}")
            os.makedirs(out, exist_ok=True)
            shutil.copy(os.path.join(work, f"shard{i}", "log"), os.path.join(out, "log"))
            fails = glob.glob(os.path.join(work, f"shard{i}", "testdata", "rapid", "*", "*.fail"))
            meta = {"property": prop, "tier": tier, "seed": seed, "shard": i, "reason": verdicts[i][1]}
            if fails:
                shutil.copy(fails[0], os.path.join(out, "case.fail"))
                meta["failfile"] = "case.fail"
            m = re.findall(r"^\s*--- FAIL: (\S+)", log, re.M)
            if m:
                meta["test"] = max(m, key=len)
            with open(os.path.join(out, "replay.json"), "w") as f:
                json.dump(meta, f, indent=1)
            print(log[-5000:])
            print(f"VIOLATION property={prop} replay={os.path.relpath(os.path.join(out, 'replay.json'), ROOT)}", flush=True)
            return 1
        errs = [(i, v[1]) for i, v in verdicts.items() if v[0] == "error"]
        if errs:
            print(read_log(work, errs[0][0])[-3000:])
            print("ERROR: " + "; ".join(f"shard {i}: {r}" for i, r in errs))
            return 2
        print(f"{prop}: held ({tier}, seed {seed}, {time.time()-start:.1f} s)")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(work, prop, path):
    """Reruns a saved failure: the shrunk case if there is one, else the shard that failed."""
    if os.path.isdir(path):
        path = os.path.join(path, "replay.json")
    meta = json.load(open(path))
    binary = build(work, prop in RACE)
    extra = []
    if meta.get("failfile") and meta.get("test"):
        extra = ["-test.run=^" + "$/^".join(re.escape(x) for x in meta["test"].split("/")) + "$",
                 "-rapid.failfile=" + os.path.join(os.path.dirname(os.path.abspath(path)), meta["failfile"])]
    results = run_shards(binary, work, prop, meta["tier"], meta["seed"], [meta["shard"]], LIMIT["quick"], extra)
    rc = results[meta["shard"]]
    log = read_log(work, meta["shard"])
    print(log[-8000:])
    kind, why = classify(rc, log)
    if kind == "violation":
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if kind == "error":
        print("ERROR: " + why)
        return 2
    print("the saved case passes")
    return 0


if __name__ == "__main__":
    sys.exit(main())
