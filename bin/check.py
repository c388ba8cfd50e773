#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--tier quick|thorough] [--replay FILE TEST]

Builds the property's test binary against /repo's working tree, runs every
test of it in its own process (in parallel), merges what they covered into
evidence/<ID>.json and prints the verdict.

exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: no verdict.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on",
             GOFLAGS="-mod=mod", GOSUMDB="off", GONOSUMDB="*", GONOSUMCHECK="1",
             GOCACHE=e.get("VERIF_GOCACHE", "/root/.cache/go-build"), GOMODCACHE="/root/go/pkg/mod")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:" + e.get("PATH", "")
    return e

def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def prop_text(pid):
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == pid:
            return d
    die("unknown property " + pid)

def findings(pid):
    """The listed (unrepaired) findings of this property: [(key, text)]."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def build(pid, work, env):
    # the module is copied, so that nothing the go command does touches /verif
    mod = os.path.join(work, "harness")
    shutil.copytree(os.path.join(VERIF, "harness"), mod)
    binp = os.path.join(work, "check.test")
    r = subprocess.run(["go", "test", "-vet=off", "-c", "-o", binp, "./" + pid.lower()], cwd=mod, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
    if r.returncode != 0 or not os.path.exists(binp):
        print(r.stdout[-4000:])
        die("the check does not build against /repo")
    return binp

ENVIRONMENT = ("cannot allocate memory", "out of memory", "too many open files", "no space left on device",
               "address already in use", "resource temporarily unavailable", "test timed out after",
               "cannot assign requested address")

def run_test(binp, name, work, env, tier, limit, known, extra=()):
    d = os.path.join(work, "run-" + name)
    os.makedirs(d)
    e = dict(env)
    e.update(VERIF_STATS=os.path.join(d, "stats.json"), VERIF_JOURNAL=os.path.join(d, "journal.txt"),
             VERIF_TIER=tier, VERIF_KNOWN="\n".join(k for k, _ in known), TMPDIR=d,
             CONN_TIMEOUT="10m", DEBUG_LVL="0")
    e.setdefault("VERIF_SEED", "1")
    args = [binp, "-test.run", "^" + name + "$", "-test.v", "-test.timeout", "%ds" % limit, *extra]
    t0 = time.time()
    logp = os.path.join(d, "out.txt")
    with open(logp, "wb") as f:
        p = subprocess.Popen(args, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=limit + 30)
            timed = False
        except subprocess.TimeoutExpired:
            timed = True
            os.killpg(p.pid, 9)
            p.wait()
            rc = -9
    try:
        os.killpg(p.pid, 9)   # whatever it left running
    except ProcessLookupError:
        pass
    out = open(logp, errors="replace").read()
    stats = {}
    try:
        stats = json.load(open(os.path.join(d, "stats.json")))
    except Exception:
        pass
    res = {"name": name, "rc": rc, "out": out, "stats": stats, "dir": d, "wall": time.time() - t0, "verdict": "ok"}
    if rc == 0 and not timed:
        if not stats:
            res["verdict"] = "error"; res["why"] = "no statistics written"
        return res
    low = out.lower()
    if timed or rc < 0 or rc == 3 or stats.get("infra") or any(s in low for s in ENVIRONMENT):
        res["verdict"] = "error"
        res["why"] = stats.get("infra") or ("time limit" if timed else "exit %d" % rc)
        return res
    res["verdict"] = "violation"
    return res

def save_replay(pid, tier, r):
    base = os.path.join(VERIF, "replays", pid)
    os.makedirs(base, exist_ok=True)
    stem = os.path.join(base, r["name"])
    text = ["property: " + pid, "test: " + r["name"], "tier: " + tier,
            "seed: " + os.environ.get("VERIF_SEED", "1"),
            "replay: bin/check.py %s --replay <file.fail> %s   (or run the check again with this seed)" % (pid, r["name"]), ""]
    j = os.path.join(r["dir"], "journal.txt")
    if os.path.exists(j):
        text += ["last generated case:", open(j, errors="replace").read()]
    fails = []
    for root, _, files in os.walk(os.path.join(r["dir"], "testdata")):
        fails += [os.path.join(root, f) for f in files if f.endswith(".fail")]
    for f in fails[:1]:
        shutil.copy(f, stem + ".fail")
        text += ["rapid failure file: " + stem + ".fail", ""]
    text += ["output:", r["out"][-12000:]]
    with open(stem + ".txt", "w") as f:
        f.write("\n".join(text))
    return stem + ".txt"

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    prop_text(pid)
    t0 = time.time()
    env = go_env()
    known = findings(pid)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        binp = build(pid, work, env)
        names = subprocess.run([binp, "-test.list", "^Test"], stdout=subprocess.PIPE, text=True, env=dict(env, VERIF_STATS=""), timeout=120).stdout.split()
        names = [n for n in names if n.startswith("Test")]
        if not names:
            die("no tests")
        if "--replay" in sys.argv:
            i = sys.argv.index("--replay")
            fail, name = os.path.abspath(sys.argv[i + 1]), sys.argv[i + 2]
            r = run_test(binp, name, work, env, tier, 600, known, ("-rapid.failfile=" + fail,))
            print(r["out"][-6000:])
            sys.exit(0 if r["verdict"] == "ok" else 1)
        budget = 780 if tier == "quick" else 5400
        limit = int(max(60, budget - (time.time() - t0)))
        workers = int(os.environ.get("VERIF_JOBS", "6"))
        with ThreadPoolExecutor(max_workers=workers) as ex:
            results = list(ex.map(lambda n: run_test(binp, n, work, env, tier, limit, known), names))
        bad = [r for r in results if r["verdict"] == "violation"]
        errs = [r for r in results if r["verdict"] == "error"]
        evals, hashes, classes, samples, notes, kn, assumptions, rule = 0, 0, {}, [], {}, set(), [], ""
        for r in results:
            s = r["stats"]
            evals += s.get("evaluations", 0)
            hashes += len(s.get("nontrivial") or [])
            for k, v in (s.get("classes") or {}).items(): classes[k] = classes.get(k, 0) + v
            for k, v in (s.get("notes") or {}).items(): notes[k] = notes.get(k, 0) + v
            ss = s.get("samples") or []
            samples += ss[:2] + ss[-1:] if len(ss) > 2 else ss
            kn |= set(s.get("known") or [])
            rule = s.get("rule") or rule
            assumptions = s.get("assumptions") or assumptions
        ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": hashes, "rule": rule, "samples": samples[:40],
                           "distribution": dict(sorted(classes.items())), "notes": notes,
                           "tests": {r["name"]: {"evaluations": r["stats"].get("evaluations", 0), "wall_s": round(r["wall"], 1), "verdict": r["verdict"]} for r in results},
                           "known_findings_reproduced": sorted(kn)},
              "assumptions": assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r in results:
            print("%-44s %-9s %6d cases %6.1fs" % (r["name"], r["verdict"], r["stats"].get("evaluations", 0), r["wall"]))
        for k, text in known:
            if k in kn:
                print("KNOWN-FINDING: property=%s %s" % (pid, text))
            else:
                print("note: listed finding %s was not reproduced by this run" % k)
        if bad:
            paths = []
            for r in bad:
                print("---- " + r["name"])
                print(r["out"][-5000:])
                paths.append(save_replay(pid, tier, r))
            for p in paths[:1]:
                print("VIOLATION property=%s replay=%s" % (pid, p))
            sys.exit(1)
        if errs:
            for r in errs:
                print("---- " + r["name"] + ": " + r.get("why", ""))
                print(r["out"][-3000:])
            die("no verdict: " + ", ".join(r["name"] for r in errs))
        print("OK property=%s tier=%s cases=%d nontrivial=%d wall=%.1fs" % (pid, tier, evals, hashes, time.time() - t0))
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept " + work)
        else:
            shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    try:
        main()
    except subprocess.TimeoutExpired as e:
        die("time limit: %s" % e)
