#!/usr/bin/env python3
"""check.py ID quick|thorough            explore a property and write its evidence
   check.py ID --replay FILE            re-run one recorded counterexample
   check.py --build                     only compile the harness (setup)"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ, HOME=os.environ.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off",
           GOFLAGS="-mod=mod", CGO_ENABLED="1")
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/go/bin:" + ENV.get("PATH", "")
for k in ("VERIF_SHARD", "VERIF_REPLAY", "VERIF_OUT", "VERIF_DEBUG"):
    ENV.pop(k, None)
META = json.load(open(os.path.join(HERE, "harness", "meta.json")))
QUICK_BUDGET = 420      # seconds of exploration before the rest is skipped (and reported)
THOROUGH_BUDGET = 3 * 3600


def build(tmp, programs=False):
    exe = os.path.join(tmp, "verif.test")
    p = subprocess.run(["go", "test", "-c", "-vet=off", "-tags", "verif", "-o", exe, "./props"],
                       cwd=os.path.join(HERE, "harness"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout)
        print("check.py: the harness does not build against /repo: no verdict", file=sys.stderr)
        sys.exit(2)
    if programs:
        # the programs themselves, for the properties about them
        os.makedirs(os.path.join(tmp, "bin"), exist_ok=True)
        p = subprocess.run(["go", "build", "-o", os.path.join(tmp, "bin") + "/"] + ["codeberg.org/emersion/soju/cmd/" + n for n in ("soju", "sojuctl", "sojudb")],
                           cwd=os.path.join(HERE, "harness"), env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print(p.stdout)
            print("check.py: /repo does not build: no verdict", file=sys.stderr)
            sys.exit(2)
        ENV["VERIF_BIN"] = os.path.join(tmp, "bin")
    return exe


def run_shards(exe, tmp, pid, tier, n, budget, replay=None, hang=60, tag=""):
    out = os.path.join(tmp, "out" + tag)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    procs = []
    for i in range(n):
        scratch = os.path.join(out, "scratch-%d" % i)
        os.makedirs(scratch)
        env = dict(ENV, VERIF_TIER=tier, VERIF_SHARD="%d/%d" % (i, n), VERIF_OUT=out, VERIF_BUDGET=str(budget),
                   VERIF_KNOWN=os.path.join(HERE, "known-findings.json"), VERIF_HANG=str(hang),
                   GOMAXPROCS="2", TMPDIR=scratch, VERIF_DATA=os.path.join(HERE, "harness"))
        if replay is not None:
            env["VERIF_REPLAY"] = replay
        log = open(os.path.join(out, "log-%d" % i), "w")
        procs.append((i, subprocess.Popen([exe, "-test.run", "^Test%s$" % pid, "-test.timeout", "0"], cwd=scratch, env=env,
                                          stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
    results = []
    limit = time.time() + budget + 240
    for i, p in procs:
        try:
            rc = p.wait(timeout=max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -99
        resf = os.path.join(out, "res-%d.json" % i)
        res = json.load(open(resf)) if os.path.exists(resf) else None
        if res is not None:
            for k in ("violations", "known"):
                res[k] = res.get(k) or []
        log = open(os.path.join(out, "log-%d" % i), errors="replace").read()
        if res is None or (rc not in (0, 4) and not (res and res.get("violations"))):
            key = ""
            cur = os.path.join(out, "cur-%d" % i)
            if os.path.exists(cur):
                key = open(cur, errors="replace").read().split("\n")[0]
            if rc == -99:
                results.append(dict(stats={}, violations=[], known=[], done=False, timeout=True))
                continue
            if not key:
                print(log[-6000:])
                print("check.py: harness failure (exit %d)" % rc, file=sys.stderr)
                sys.exit(2)
            m = re.search(r"(panic: .*|fatal error: .*)", log)
            msg = "the process crashed: %s\n%s" % (m.group(1) if m else "exit %d" % rc,
                                                    log[m.start():m.start() + 3000] if m else log[-3000:])
            results.append(dict(stats=(res or {}).get("stats", {}), violations=[dict(key=key, msg=msg)], known=[], done=False))
        else:
            hf = os.path.join(out, "hang-%d.txt" % i)
            if os.path.exists(hf):
                res["hang"] = open(hf, errors="replace").read()[:200000]
            results.append(res)
    return results


def main():
    if sys.argv[1:] == ["--build"]:
        tmp = tempfile.mkdtemp(prefix="verif-")
        try:
            build(tmp, True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    pid = sys.argv[1]
    meta = dict(META["_default"], **META[pid])
    tmp = tempfile.mkdtemp(prefix="verif-")
    t0 = time.time()
    try:
        exe = build(tmp, meta.get("programs", False))
        if sys.argv[2] == "--replay":
            rec = json.load(open(sys.argv[3]))
            res = run_shards(exe, tmp, pid, rec["tier"], 1, 600, replay=rec["key"])
            for v in res[0]["violations"]:
                print("reproduced: %s\n%s" % (v["key"], v["msg"]))
            return 1 if res[0]["violations"] else 0
        tier = sys.argv[2]
        n = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 1))
        budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
        results = run_shards(exe, tmp, pid, tier, n, budget)
        confirmed, unconfirmed = [], []
        seen = set()
        for res in results:
            for v in res["violations"]:
                if v["key"] in seen or len(confirmed) >= 3 or len(seen) >= 8:
                    continue
                seen.add(v["key"])
                ok = None
                for attempt in range(3):
                    rr = run_shards(exe, tmp, pid, tier, 1, 600, replay=v["key"], hang=120, tag="-replay")
                    if rr[0]["violations"]:
                        ok = rr[0]
                        break
                if ok:
                    confirmed.append(dict(ok["violations"][0], hang=ok.get("hang", "")))
                else:
                    unconfirmed.append(v)
        known = sorted({k for r in results for k in (r.get("known") or [])})
        # aggregate
        st = dict(states=0, transitions=0, scenarios=0, traces=0, steps=0, checks=0, nontrivial=0, skipped=0)
        bounds, samples = [], []
        for r in results:
            s = r.get("stats") or {}
            for k in ("states", "transitions", "scenarios"):
                st[k] = max(st[k], s.get(k, 0))
            for k in ("traces", "steps", "checks", "nontrivial", "skipped"):
                st[k] += s.get(k, 0)
            if len(s.get("bounds") or []) > len(bounds):
                bounds = s["bounds"]
            samples += (s.get("samples") or [])[:2]
        complete = all(r.get("done") for r in results) and st["skipped"] == 0 and not any(r.get("timeout") for r in results)
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 1), level=meta["level"],
                  coverage=dict(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=st["traces"],
                                samples=samples[:10], oracle_comparisons=st["checks"],
                                implementation_steps=st["steps"], scenarios=st["scenarios"], skipped_for_time=st["skipped"],
                                bounds=bounds, exhaustive=bool(complete)),
                  wall_s=round(time.time() - t0, 1), violations=len(confirmed), assumptions=meta["assumptions"])
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        for v in unconfirmed:
            print("note: not reproduced on re-run, not counted: %s: %s" % (v["key"], v["msg"][:300]))
        if st["nontrivial"] == 0 and not confirmed:
            print("check.py: nothing was checked", file=sys.stderr)
            return 2
        for i, v in enumerate(confirmed):
            rp = os.path.join(HERE, "evidence", "replay-%s-%d.json" % (pid, i))
            json.dump(dict(property=pid, tier=tier, key=v["key"], msg=v["msg"], hang=v.get("hang", "")), open(rp, "w"), indent=1)
            print("counterexample: %s\n%s" % (v["key"], v["msg"][:3000]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("%s %s: %d model states/prefixes, %d transitions, %d traces run on the implementation, %d comparisons, exhaustive=%s, %.0f s"
              % (pid, tier, st["states"], st["transitions"], st["traces"], st["checks"], complete, time.time() - t0))
        return 1 if confirmed else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
