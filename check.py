#!/usr/bin/env python3
"""check.py ID quick|thorough            decide a property on /repo's working tree
check.py ID --replay FILE                re-execute a saved case

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken.
Exit 2: no answer (the tree does not build, a worker died, time ran out)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")  # another tree only while developing
MODULE = "github.com/mem-memov/semnet"
HOME = "internal/verifharness"  # where the overlay puts the harness inside /repo
WORKERS = 8

# per property: [(package, part, quick cases per worker)], thorough factor
PLAN = {
    "C01": [("pub", "main", 2500), ("pub", "sweep", 1500)],
    "C02": [("pub", "main", 700)],
    "C03": [("pub", "main", 700)],
    "C04": [("pub", "main", 3000)],
    "C05": [("pub", "main", 300)],
    "C06": [("pub", "main", 1500), ("mid06", "parents", 1000)],
    "C07": [("pub", "main", 450)],
    "C08": [("pub", "main", 2200)],
    "C09": [("pub", "main", 220), ("mid09", "parts", 900)],
    "C10": [("pub", "main", 48), ("pub", "soak", 2000)],
    "C11": [("pub", "main", 3000)],
    "C12": [("pub", "main", 1500)],
    "C13": [("mid13", "main", 2500)],
    "C14": [("pub", "main", 700)],
    "C15": [("pub", "main", 450)],
    "C16": [("pub", "main", 550)],
    "C17": [("mid17", "main", 2500)],
    "C18": [("mid18", "main", 1500)],
    "C19": [("pub", "main", 6000)],
    "C20": [("pub", "main", 4000)],
    "C21": [("pub", "main", 700)],
    "C22": [("pub", "main", 6000)],
    "C23": [("pub", "main", 600)],
    "C24": [("pub", "main", 250)],
    "C25": [("pub", "main", 1200)],
    "C26": [("pub", "main", 1200)],
    "C27": [("par", "main", 350)],
}
RACE = {"par"}  # packages built with the race detector
LEVEL = {"C09": "fault_enumeration", "C10": "fault_enumeration"}
THOROUGH = 12          # times the quick cases, half of them with longer histories
FUZZ_SECONDS = 120     # coverage-guided search per part, thorough only
LIMIT = {"quick": 780, "thorough": 5400}
ENOUGH = {"quick": 420, "thorough": 2000}  # seconds after which a worker stops drawing cases


class NoAnswer(Exception):
    pass


def environment():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOSUMDB="off",
               PATH="/opt/veriftools/go1.27.3/bin:" + env.get("PATH", "/usr/bin:/bin"))
    for k in list(env):
        if k.startswith(("RAPID", "VERIF_")):
            del env[k]
    return env


def build(pkgs, work, fuzz=False):
    """Builds test binaries of /repo's working tree with the harness laid over it.
    Returns {package: binary}; a package that does not build maps to its error."""
    env = environment()
    replace = {}
    root = os.path.join(VERIF, "harness")
    for d in sorted(os.listdir(root)):
        for f in sorted(os.listdir(os.path.join(root, d))):
            if f.endswith(".go"):
                replace[f"{REPO}/{HOME}/{d}/{f}"] = os.path.join(root, d, f)
    overlay = os.path.join(work, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": replace}, f)
    mod = os.path.join(work, "go.mod")
    with open(os.path.join(REPO, "go.mod")) as f:
        text = f.read()
    with open(mod, "w") as f:
        f.write(re.sub(r"^go .*$", "go 1.21", text, flags=re.M) + "\nrequire pgregory.net/rapid v1.3.0\n")
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(work, "go.sum"))
    out = {}
    for p in pkgs:
        binary = os.path.join(work, p + (".fuzz" if fuzz else ".test"))
        cmd = ["go", "test", "-c", "-vet=off", "-modfile", mod, "-overlay", overlay, "-o", binary]
        if fuzz:
            cmd += ["-fuzz=."]
        elif p in RACE:
            cmd += ["-race"]
        r = subprocess.run(cmd + [f"./{HOME}/{p}"], cwd=REPO, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode and "-race" in cmd:  # without the race detector results are still compared
            cmd.remove("-race")
            r = subprocess.run(cmd + [f"./{HOME}/{p}"], cwd=REPO, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode == 0 and os.path.exists(binary):
            out[p] = (binary, None)
        else:
            out[p] = (None, (r.stdout + r.stderr).strip())
    return out


def start(binary, cwd, args, extra):
    env = environment()
    env.update(extra)
    env["GOMAXPROCS"] = "2"
    env["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 log_path=" + os.path.join(cwd, "race")  # counted anew for every case
    log = open(os.path.join(cwd, "log"), "w")
    return subprocess.Popen([binary] + args, cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT, start_new_session=True)


def fatal(cwd):
    """What the Go runtime ended a worker for that the code under test can cause."""
    with open(os.path.join(cwd, "log"), errors="replace") as f:
        m = re.search(r"^fatal error: (stack overflow|concurrent map .*|sync: .*|all goroutines are asleep.*)", f.read(), re.M)
    return m.group(0) if m else None


def keep(prop, path):
    """Copies a failing case to where it outlives the run."""
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    with open(path) as f:
        case = json.load(f)
    n = 1
    while os.path.exists(os.path.join(d, f"{prop}-{n}.json")):
        n += 1
    out = os.path.join(d, f"{prop}-{n}.json")
    shutil.copy(path, out)
    return out, case.get("message", "")


def known_findings(prop):
    """{regress file: what fails} of the recorded, unrepaired findings."""
    out = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def replay(prop, path, work, bins, parts):
    """Runs a saved case. Returns None when it holds, else the message."""
    with open(path) as f:
        part = json.load(f)["part"]
    for pkg, p, _ in parts:
        if p != part:
            continue
        if bins[pkg][0] is None:
            return None
        cwd = tempfile.mkdtemp(dir=work)
        fail = os.path.join(cwd, "fail.json")
        proc = start(bins[pkg][0], cwd, ["-test.run", f"^Test{prop}$"], {"VERIF_REPLAY": os.path.abspath(path), "VERIF_FAIL": fail})
        try:
            code = proc.wait(timeout=300)
        except subprocess.TimeoutExpired:
            proc.kill()
            raise NoAnswer(f"replay of {path} takes too long")
        with open(os.path.join(cwd, "log"), errors="replace") as f:
            log = f.read()
        if "REPLAYED " + part not in log:
            raise NoAnswer(f"replay of {path} did not run:\n{log[-3000:]}")
        if code == 0:
            return None
        m = re.search(r"^FAILED (.*)", log, re.M)
        if not m and fatal(cwd):
            return fatal(cwd)
        if not m:
            raise NoAnswer(f"replay of {path} died:\n{log[-3000:]}")
        return m.group(1)
    raise NoAnswer(f"{path} belongs to no part of {prop}")


def main():
    prop = sys.argv[1]
    parts = PLAN[prop]
    began = time.time()
    work = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    procs = []
    try:
        if sys.argv[2] == "--replay":
            bins = build({p for p, _, _ in parts}, work)
            message = replay(prop, sys.argv[3], work, bins, parts)
            if message is not None:
                print(message)
                print(f"VIOLATION property={prop} replay={sys.argv[3]}")
                return 1
            print("holds")
            return 0
        return run(prop, sys.argv[2], parts, work, began, procs)
    except NoAnswer as e:
        print(f"no answer: {e}")
        return 2
    except subprocess.TimeoutExpired as e:
        print(f"no answer: {e}")
        return 2
    finally:
        for p in procs:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier, parts, work, began, procs):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    bins = build(sorted({p for p, _, _ in parts}), work)
    skipped = []
    for p, (binary, error) in bins.items():
        if binary is None:
            print(f"{p} does not build:\n{error[-3000:]}")
            skipped.append(p)
    if "pub" in skipped or len(skipped) == len(bins):
        raise NoAnswer("the harness does not build against the tree")

    violations = []   # (path, message)
    regress, known = [], known_findings(prop)
    d = os.path.join(VERIF, "regress", prop)
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        regress.append(f)
        message = replay(prop, os.path.join(d, f), work, bins, parts)
        if message is not None and f in known:
            print(f"KNOWN-FINDING: property={prop} {known[f]}")
        elif message is not None:
            violations.append((os.path.join(d, f), message))

    total = {"cases": 0, "executions": 0, "labels": {}, "nontrivial": set(), "samples": [], "rules": []}
    fuzzed = {}
    if not violations:
        jobs = []
        for pkg, part, cases in parts:
            if bins[pkg][0] is None:
                continue
            rounds = 1 if tier == "quick" else 2
            for deep in range(rounds):
                for w in range(WORKERS):
                    s = ((seed * 1000003 + w * 7919 + deep * 104729 + 17) & 0x7FFFFFFFFFFFFFFF) or 1
                    n = cases if tier == "quick" else max(1, cases * THOROUGH // (6 if deep else 2))
                    jobs.append((pkg, part, n, s, deep))
        violations += generated(prop, tier, jobs, bins, work, began, procs, total)
        if tier == "thorough" and not violations:
            violations += guided(prop, parts, bins, work, procs, fuzzed)

    reported = []
    for path, message in violations[:1]:
        out, _ = keep(prop, path)
        reported.append((out, message))

    coverage = {
        "evaluations": total["executions"] + len(regress),
        "cases": total["cases"],
        "distinct_nontrivial": len(total["nontrivial"]),
        "rule": " || ".join(total["rules"]) or "saved cases only: one of them fails",
        "samples": total["samples"][:6] or regress[:1],
        "labels": dict(sorted(total["labels"].items())),
        "saved_cases_replayed": len(regress),
    }
    if fuzzed:
        coverage["coverage_guided_executions"] = fuzzed
    if skipped:
        coverage["parts_skipped"] = skipped
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": coverage,
        "assumptions": assumptions(prop),
        "wall_s": round(time.time() - began, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    print(f"{prop} {tier} seed {seed}: {total['cases']} cases, {coverage['evaluations']} executions, "
          f"{len(total['nontrivial'])} distinct non-trivial, {len(regress)} saved cases, {evidence['wall_s']} s")
    for path, message in reported:
        print(message[:2000])
        print(f"VIOLATION property={prop} replay={path}")
    return 1 if reported else 0


def assumptions(prop):
    out = ["the storage keeps its contract: nodes, one forward and one backward reference per node, sets of links"]
    if prop in ("C09", "C10", "C19", "C22"):
        out.append("one storage access either fails or takes full effect")
    return out


def generated(prop, tier, jobs, bins, work, began, procs, total):
    """Runs the jobs, WORKERS at a time, and merges what they covered."""
    found, queue, running = [], list(enumerate(jobs)), []
    dead = None
    while queue or running:
        while queue and len(running) < WORKERS and not found:
            i, (pkg, part, n, s, deep) = queue.pop(0)
            cwd = os.path.join(work, f"job{i}")
            os.makedirs(cwd)
            extra = {"VERIF_STATS": os.path.join(cwd, "stats.json"), "VERIF_FAIL": os.path.join(cwd, "fail.json"), "VERIF_PART": part,
                     "VERIF_SECONDS": str(ENOUGH[tier])}
            if deep:
                extra["VERIF_DEEP"] = "1"
            p = start(bins[pkg][0], cwd, ["-test.run", f"^Test{prop}$", f"-rapid.checks={n}", f"-rapid.seed={s}", "-rapid.nofailfile"], extra)
            procs.append(p)
            running.append((p, cwd, part))
        if found:
            queue = []
        for item in list(running):
            p, cwd, part = item
            code = p.poll()
            if code is None:
                continue
            running.remove(item)
            stats, fail = os.path.join(cwd, "stats.json"), os.path.join(cwd, "fail.json")
            if os.path.exists(stats):
                merge(total, stats)
            if code != 0:
                if os.path.exists(fail):
                    with open(fail) as f:
                        found.append((fail, json.load(f).get("message", "")))
                elif fatal(cwd) and os.path.exists(fail + ".pending"):
                    found.append((fail + ".pending", fatal(cwd)))
                else:
                    with open(os.path.join(cwd, "log"), errors="replace") as f:
                        dead = f"a worker died with code {code}:\n{f.read()[-3000:]}"
            elif not os.path.exists(stats):
                dead = "a worker left no statistics"
        if time.time() - began > LIMIT[tier]:
            for p, cwd, part in running:
                os.killpg(p.pid, 9)
                p.wait()
                fail = os.path.join(cwd, "fail.json")
                if os.path.exists(fail):  # found, only its reduction was cut short
                    with open(fail) as f:
                        found.append((fail, json.load(f).get("message", "")))
            if not found:
                raise NoAnswer("out of time")
            break
        time.sleep(0.05)
    if dead and not found:
        raise NoAnswer(dead)
    return sorted(found, key=lambda x: os.path.getsize(x[0]))


def merge(total, path):
    with open(path) as f:
        s = json.load(f)
    total["cases"] += s["cases"]
    total["executions"] += s["executions"]
    for k, v in s["labels"].items():
        total["labels"][k] = total["labels"].get(k, 0) + v
    total["nontrivial"] |= {s["part"] + h for h in s["nontrivial"] or []}
    if s["rule"] not in total["rules"]:
        total["rules"].append(s["rule"])
    for x in (s["samples"] or [])[:1]:
        total["samples"].append(x)


def guided(prop, parts, bins, work, procs, fuzzed):
    """Coverage-guided search over the same generators. Not reproducible from the
    seed; a failure it finds is saved as a case and re-executed."""
    fb = build(sorted({p for p, _, _ in parts if bins[p][0]}), work, fuzz=True)
    for pkg, part, _ in parts:
        if bins[pkg][0] is None or fb[pkg][0] is None:
            continue
        cwd = os.path.join(work, f"fuzz-{pkg}-{part}")
        os.makedirs(cwd)
        fail = os.path.join(cwd, "fail.json")
        p = start(fb[pkg][0], cwd, ["-test.run", "^$", "-test.fuzz", f"^Fuzz{prop}$", f"-test.fuzztime={FUZZ_SECONDS}s",
                                    "-test.fuzzcachedir", os.path.join(cwd, "cache"), f"-test.parallel={WORKERS}", "-test.fuzzminimizetime=10s"],
                  {"VERIF_FAIL": fail, "VERIF_PART": part})
        procs.append(p)
        try:
            p.wait(timeout=FUZZ_SECONDS + 300)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
        with open(os.path.join(cwd, "log"), errors="replace") as f:
            log = f.read()
        n = re.findall(r"execs: (\d+)", log)
        fuzzed[part] = int(n[-1]) if n else 0
        if os.path.exists(fail):
            message = replay(prop, fail, work, bins, parts)
            if message is not None:
                return [(fail, message)]
    return []


if __name__ == "__main__":
    sys.exit(main())
