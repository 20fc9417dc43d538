#!/usr/bin/env python3
"""Run the check of one property: check.py ID [--replay FILE]

Builds the harness against /repo's current working tree, runs the property's
tests in several processes with seeds derived from VERIF_SEED, merges what they
covered into evidence/<ID>.json and reports:
  exit 0  the property held on everything explored
  exit 1  VIOLATION property=<ID> replay=<path>
  exit 2  the check itself could not decide (build failure, time-out, lost worker)
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
CONF = json.load(open(os.path.join(HERE, "checks.json")))
GO = "/opt/veriftools/go1.27.3/bin"
LIMIT = {"quick": 780, "thorough": 3000}


def go_env():
    e = dict(os.environ)
    e["PATH"] = GO + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=readonly", GOPROXY="off", GOWORK="off", GOSUMDB="off")
    e.setdefault("HOME", "/root")
    return e


def build(scratch, race=False):
    out = os.path.join(scratch, "props-race.test" if race else "props.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", out] + (["-race"] if race else []) + ["./props"]
    p = subprocess.run(cmd, cwd=HARNESS, env=go_env(), capture_output=True, text=True)
    if p.returncode or not os.path.exists(out):
        print(p.stdout + p.stderr)
        print("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return out


NOBODY = 65534


def start(cmd, d, env, out):
    """Starts a test process as an unprivileged user that owns only its own scratch directory, where that is possible."""
    kw = dict(cwd=os.path.join(d, "cwd"), env=env, stdout=out, stderr=subprocess.STDOUT, start_new_session=True)
    if os.geteuid() == 0 and not os.environ.get("VERIF_AS_ROOT"):
        for root, _, files in os.walk(d):
            for p in [root] + [os.path.join(root, f) for f in files]:
                os.chown(p, NOBODY, NOBODY)
        try:
            return subprocess.Popen(cmd, user=NOBODY, group=NOBODY, extra_groups=[], **kw)
        except (PermissionError, subprocess.SubprocessError):
            pass
    return subprocess.Popen(cmd, **kw)


def build_cli(scratch):
    """Builds the command-line client of /repo (for the checks that run it)."""
    out = os.path.join(scratch, "tuf-client")
    p = subprocess.run(["go", "build", "-buildvcs=false", "-o", out, "./examples/cli/tuf-client"], cwd="/repo", env=go_env(), capture_output=True, text=True)
    if p.returncode or not os.path.exists(out):
        print(p.stdout + p.stderr)
        print("ERROR: the command-line client does not build")
        sys.exit(2)


def run_shards(prop, conf, tier, seed, binary, scratch, only=None, failfile=None, shards=None, scale=None, tag="w"):
    procs = []
    shards = shards or conf.get("shards", 8)
    sel = range(shards) if only is None else [only]
    for i in sel:
        d = os.path.join(scratch, f"{tag}{i}")
        os.makedirs(os.path.join(d, "cwd"))
        os.makedirs(os.path.join(d, "tmp"))
        e = go_env()
        e.update(VERIF_SHARD=str(i), VERIF_SHARDS=str(shards), VERIF_SCALE=str(scale), VERIF_TIER=tier, VERIF_SEED=str(seed),
                 VERIF_EV_OUT=os.path.join(d, "ev.json"), VERIF_SCRATCH=os.path.join(d, "tmp"), TMPDIR=os.path.join(d, "tmp"),
                 VERIF_CLI=os.path.join(scratch, "tuf-client"), GOTRACEBACK="all", GOMEMLIMIT="2GiB")
        e["GOMAXPROCS"] = "2" if shards > 1 else "8"
        rseed = (seed * 1000003 + i * 7919 + 17) % (2**63 - 1) or 1
        cmd = [binary, "-test.run", conf.get("run", f"^Test{prop}"), "-test.v", "-test.count=1", "-test.timeout=0",
               f"-rapid.seed={rseed}", "-rapid.shrinktime=20s", "-rapid.steps=30"]
        if failfile:
            cmd.append(f"-rapid.failfile={failfile}")
        out = open(os.path.join(d, "out"), "wb")
        procs.append((i, d, start(cmd, d, e, out)))
    end = time.time() + LIMIT[tier]
    res = []
    for i, d, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            rc = "timeout"
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        text = open(os.path.join(d, "out"), "rb").read().decode("utf-8", "replace")
        res.append((i, d, rc, text))
    return res


def build_fuzz(scratch, target):
    out = os.path.join(scratch, target + ".test")
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-fuzz=" + target, "-o", out, "./props"], cwd=HARNESS, env=go_env(), capture_output=True, text=True)
    if p.returncode or not os.path.exists(out):
        print(p.stdout + p.stderr)
        print("ERROR: the fuzz target does not build against /repo")
        sys.exit(2)
    return out


def run_fuzz(target, seconds, scratch):
    """Coverage-guided fuzzing; returns (executions, interesting inputs, failing input or None, output)."""
    binary = build_fuzz(scratch, target)
    d = os.path.join(scratch, "fuzz-" + target)
    os.makedirs(os.path.join(d, "cache"))
    os.makedirs(os.path.join(d, "tmp"))
    e = go_env()
    e.update(TMPDIR=os.path.join(d, "tmp"), VERIF_SCRATCH=os.path.join(d, "tmp"), GOMEMLIMIT="2GiB")
    e.pop("VERIF_EV_OUT", None)
    p = subprocess.Popen([binary, "-test.run=^$", f"-test.fuzz=^{target}$", f"-test.fuzztime={seconds}s", "-test.fuzzminimizetime=20x",
                          "-test.fuzzcachedir=" + os.path.join(d, "cache"), "-test.parallel=8"], cwd=d, env=e, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        text, _ = p.communicate(timeout=seconds + 300)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
        text = ""
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    m = re.findall(r"execs: (\d+).*?total: (\d+)", text)
    execs, total = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    failing = None
    for root, _, files in os.walk(os.path.join(d, "testdata", "fuzz")):
        for f in files:
            failing = open(os.path.join(root, f)).read()
    return rc, execs, total, failing, text


def replay_fuzz(target, failing, scratch):
    binary = build_fuzz(scratch, target)
    d = os.path.join(scratch, "replay")
    os.makedirs(os.path.join(d, "testdata", "fuzz", target))
    open(os.path.join(d, "testdata", "fuzz", target, "input"), "w").write(failing)
    p = subprocess.run([binary, f"-test.run=^{target}$/^input$", "-test.v"], cwd=d, env=go_env(), capture_output=True, text=True, errors="replace")
    return p.returncode, p.stdout + p.stderr


ENV_TROUBLE = re.compile(r"no space left on device|cannot allocate memory|HARNESS-ERROR")


def verdict(rc, text):
    """ok / violation / error for one worker."""
    if rc == 0:
        return "ok"
    if rc == "timeout" or (isinstance(rc, int) and rc < 0):
        return "error"
    if rc == 97 and "NONTERMINATION" in text:
        return "violation"
    if ENV_TROUBLE.search(text):
        return "error"
    if rc == 1 and "--- FAIL" in text:
        return "violation"
    if rc in (2, 66) and "go-tuf-metadata/" in text and re.search(r"^(panic:|fatal error:|WARNING: DATA RACE)|DATA RACE", text, re.M):
        if "out of memory" in text:
            return "error"
        return "violation"
    return "error"


def known_ids(prop):
    """Identifiers of the findings listed for the property."""
    out = set()
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\w+) \[([\w-]+)\]", l)
        if m and m.group(1) == prop:
            out.add(m.group(2))
    return out


def failing_test(text):
    m = re.findall(r"^\s*--- FAIL: (\S+)", text, re.M)
    if m:
        return m[0].split("/")[0]
    m = re.findall(r"^=== RUN\s+(\S+)", text, re.M)
    return m[-1].split("/")[0] if m else ""


def save_replay(prop, tier, seed, scale, shards, worker, d, text, race):
    test = failing_test(text)
    failfile = None
    for root, _, files in os.walk(os.path.join(d, "cwd", "testdata")):
        for f in files:
            if f.endswith(".fail"):
                failfile = open(os.path.join(root, f), encoding="utf-8", errors="replace").read()
    rd = os.path.join(HERE, "replays", prop)
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, f"{tier}-seed{seed}-{'race-' if race else ''}worker{worker}.json")
    text = "\n".join(l for l in text.splitlines() if "[rapid] draw " not in l)
    json.dump({"property": prop, "test": test, "tier": tier, "seed": seed, "scale": scale, "shards": shards, "worker": worker,
               "race": race, "rapid_failfile": failfile, "log": text[-20000:]}, open(path, "w"), indent=1)
    return path


def summarise(text):
    lines = [l for l in text.splitlines() if l.strip()]
    lines = [l for l in lines if "[rapid] draw " not in l]
    keep = [l for l in lines if re.search(r"--- FAIL|\[rapid\]|panic|Error|_test\.go:|NONTERMINATION|fatal error|DATA RACE", l)]
    return "\n".join(l[:1500] for l in (keep or lines)[:25])


def main():
    prop = sys.argv[1]
    conf = CONF[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if tier not in LIMIT:
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed) % (2**40)
    scale = float(os.environ.get("VERIF_SCALE", 0)) or (conf.get("thorough_scale", 30) if tier == "thorough" else conf.get("quick_scale", 1))
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    os.chmod(scratch, 0o755)
    try:
        binary = build(scratch)
        if conf.get("cli"):
            build_cli(scratch)
        if "--replay" in sys.argv:
            r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            if r.get("fuzz_input"):
                rc, text = replay_fuzz(r["test"], r["fuzz_input"], scratch)
                print(text[-8000:])
                if rc:
                    print(f"VIOLATION property={prop} replay={sys.argv[sys.argv.index('--replay') + 1]}")
                sys.exit(1 if rc else 0)
            ff = None
            if r.get("rapid_failfile"):
                ff = os.path.join(scratch, "replay.fail")
                open(ff, "w").write(r["rapid_failfile"])
            c = dict(conf, run="^" + r["test"] + "$")
            if r.get("race"):
                binary = build(scratch, race=True)
            res = run_shards(prop, c, r["tier"], r["seed"], binary, scratch, only=r["worker"], failfile=ff, shards=r["shards"], scale=r["scale"])
            print(res[0][3][-8000:])
            v = verdict(res[0][2], res[0][3])
            print("replay:", v)
            if v == "violation":
                print(f"VIOLATION property={prop} replay={sys.argv[sys.argv.index('--replay') + 1]}")
            sys.exit({"ok": 0, "violation": 1, "error": 2}[v])
        shards = conf.get("shards", 8)
        res = run_shards(prop, conf, tier, seed, binary, scratch, scale=scale)
        if conf.get("race") and all(verdict(rc, text) == "ok" for _, _, rc, text in res):
            # the same histories under the race detector, fewer of them
            rscale = scale * conf["race"]
            res += run_shards(prop, conf, tier, seed + 500000, build(scratch, race=True), scratch, scale=rscale, tag="race")
        tot = {"evaluations": 0, "nontrivial": 0}
        classes, hashes, samples, notes, known = {}, set(), [], [], []
        tests = set()
        bad, errors = [], []
        for i, d, rc, text in res:
            v = verdict(rc, text)
            if v == "violation":
                bad.append((i, d, text))
            elif v == "error":
                errors.append((i, rc, text))
            tests.update(re.findall(r"^\s*--- PASS: (Test\S+)", text, re.M))
            p = os.path.join(d, "ev.json")
            if os.path.exists(p):
                e = json.load(open(p))
                tot["evaluations"] += e["evaluations"]
                tot["nontrivial"] += e["nontrivial"]
                for k, n in (e["classes"] or {}).items():
                    classes[k] = classes.get(k, 0) + n
                hashes.update(e["hashes"] or [])
                for s in e["samples"] or []:
                    if len(samples) < 12 and sum(1 for x in samples if x["test"] == s["test"]) < 3:
                        samples.append(s)
                notes += [n for n in e["notes"] or [] if n not in notes]
                known += [n for n in e["known"] or [] if n not in known]
        fuzzed = {}
        for target in conf.get("fuzz", []) if tier == "thorough" and not bad and not errors else []:
            rc, execs, total, failing, text = run_fuzz(target, conf.get("fuzz_seconds", 150), scratch)
            fuzzed[target] = {"executions": execs, "inputs_with_new_coverage": total}
            tot["evaluations"] += execs
            if failing is not None and "--- FAIL" in text:
                rd = os.path.join(HERE, "replays", prop)
                os.makedirs(rd, exist_ok=True)
                fuzz_replay = os.path.join(rd, f"fuzz-{target}.json")
                json.dump({"property": prop, "test": target, "fuzz_input": failing, "log": text[-20000:]}, open(fuzz_replay, "w"), indent=1)
                bad.append((0, None, text))
            elif rc not in (0,):
                errors.append((target, rc, text))
        ev = {"property": prop, "tier": tier, "seed": seed, "level": conf.get("level", "exploration"),
              "coverage": {"evaluations": tot["evaluations"], "distinct_nontrivial": len(hashes), "rule": conf["rule"],
                           "samples": samples, "nontrivial_evaluations": tot["nontrivial"],
                           "classes": dict(sorted(classes.items())), "tests": sorted(tests), "worker_processes": len(res)},
              "assumptions": conf.get("assumptions", []) + notes, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
        if fuzzed:
            ev["coverage"]["coverage_guided_fuzzing"] = fuzzed
        if known:
            ev["coverage"]["findings_observed"] = known
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, ensure_ascii=True)
        listed = known_ids(prop)
        for n in known:
            m = re.match(r"\[([\w-]+)\]", n)
            if m and m.group(1) in listed:
                print(f"KNOWN-FINDING: property={prop} {n}")
            elif not bad:
                bad.append((0, res[0][1], "--- FAIL: a finding that known_findings.txt does not list: " + n + "\n"))
        if bad:
            i, d, text = bad[0]
            race = bool(d) and os.path.basename(d).startswith("race")
            path = save_replay(prop, tier, seed + 500000 * race, scale * conf["race"] if race else scale, shards, i, d, text, race) if d else fuzz_replay
            print(summarise(text))
            print(f"{len(bad)} of {len(res)} workers found a violation; reproduce with: python3 {HERE}/check.py {prop} --replay {path}")
            print(f"VIOLATION property={prop} replay={path}")
            sys.exit(1)
        if errors:
            i, rc, text = errors[0]
            print(text[-6000:])
            print(f"ERROR: worker {i} ended with {rc}")
            sys.exit(2)
        if not tests or tot["evaluations"] == 0:
            print("ERROR: nothing was run")
            sys.exit(2)
        print(f"{prop}: held on {tot['evaluations']} cases ({len(hashes)} distinct non-trivial), {ev['wall_s']} s")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
