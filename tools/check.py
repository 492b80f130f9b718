#!/usr/bin/env python3
"""Decides one property: builds from /repo, explores, confirms, reports. Usage: check.py ID [--tier quick|thorough]"""
import json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build
from checks import CHECKS, targets

def known_findings(pid):
    """Lines 'finding: property=ID | signature | text'. A trailing * in the signature is not a wildcard."""
    out = []
    for l in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) \| (.*?) \| (.*)$", l.rstrip("\n"))
        if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = int(os.environ.get("VP_JOBS", "8"))
    c = CHECKS[pid]
    t0 = time.time()
    variant = {t[0]: t[2] for t in targets(pid)}
    try: bins = build.build(targets(pid))
    except build.BuildError as e:
        print("BUILD FAILED\n" + str(e)); return 2
    tb = time.time() - t0
    outd = os.path.join(build.BUILD, "run", f"{pid}.{tier}"); shutil.rmtree(outd, ignore_errors=True); os.makedirs(outd)
    budget = c["budget"][1 if tier == "thorough" else 0] / len(bins)
    env = dict(os.environ, TMPDIR=outd, HDF5_USE_FILE_LOCKING="FALSE")
    scen, vios, samples, outcomes, harness_error = [], [], [], set(), False
    nstates = 0; total_vio = 0; notes = []; extra = {}
    for name, b in bins.items():
        procs = []
        cpus = sorted(os.sched_getaffinity(0)); sched = variant.get(name) == "sched"
        for k in range(jobs):
            # one thread runs at a time: handing over is much cheaper on one processor
            pin = (lambda c=cpus[k % len(cpus)]: os.sched_setaffinity(0, {c})) if sched else None
            pre = os.path.join(outd, f"{name}.{k}")
            procs.append(subprocess.Popen([b, "--shard", f"{k}/{jobs}", "--tier", tier, "--seed", str(seed), "--out", pre, "--tmp", pre + ".tmp", "--budget", str(budget)],
                                          env=env, cwd=outd, preexec_fn=pin, stdout=open(pre + ".log", "w"), stderr=subprocess.STDOUT))
        hard = budget + 120
        end = time.time() + hard
        for k, p in enumerate(procs):
            try: rc = p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); rc = -9
            if rc != 0:
                harness_error = True
                print(f"harness {name} shard {k} exit {rc}: " + open(os.path.join(outd, f"{name}.{k}.log")).read()[-2000:])
        agg = {}
        for k in range(jobs):
            pre = os.path.join(outd, f"{name}.{k}")
            try: r = json.load(open(pre + ".json"))
            except (OSError, ValueError): harness_error = True; continue
            total_vio += r.get("violating", 0)
            for s in r["scenarios"]:
                g = agg.setdefault(s["name"], dict(name=s["name"], executions=0, steps=0, truncated=False, crashes=0, wall=0.0))
                g["executions"] += s["execs"]; g["steps"] += s["steps"]; g["truncated"] |= s["truncated"]; g["crashes"] += s["crashes"]; g["wall"] = round(max(g["wall"], s["wall"]), 2)
            for kk, vv in r.get("extra", {}).items():
                if isinstance(vv, (int, float)): extra[kk] = extra.get(kk, 0) + vv
                else: extra[kk] = vv
            if os.path.exists(pre + ".vio"):
                for l in open(pre + ".vio"):
                    try: v = json.loads(l)
                    except ValueError: continue
                    v["bin"] = b; v["name"] = name; v["shard"] = k; vios.append(v)
            if os.path.exists(pre + ".outcomes"):
                outcomes.update(open(pre + ".outcomes", errors="replace").read().split("\n"))
            if os.path.exists(pre + ".samples"):
                for l in open(pre + ".samples"):
                    try: samples.append(json.loads(l))
                    except ValueError: pass
        scen += list(agg.values())
        r = subprocess.run([b, "--merge-states"] + [os.path.join(outd, f"{name}.{k}.states") for k in range(jobs)], capture_output=True, text=True)
        nstates += int(r.stdout or 0)
    outcomes.discard("")
    # ---- confirm violations in fresh processes; first (shortest) witness per signature
    kf = dict(known_findings(pid))
    best = {}
    for v in vios:
        b = best.get(v["sig"])
        if b is None or len(v["choices"]) < len(b["choices"]): best[v["sig"]] = v
    confirmed, known, dropped = [], [], []
    rdir = os.path.join(build.BUILD, "replay", pid); shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
    for i, (sig, v) in enumerate(sorted(best.items())):
        if sig in kf: known.append(sig); continue
        if len(confirmed) >= 12: continue
        cmd = [v["bin"], "--tier", tier, "--seed", str(seed), "--tmp", os.path.join(outd, "replay.tmp"), "--replay", f"{v['scenario']}@{v['choices']}"]
        try: r = subprocess.run(cmd, env=env, cwd=outd, capture_output=True, text=True, timeout=400, errors="replace"); txt = r.stdout; rc = r.returncode
        except subprocess.TimeoutExpired: txt = "timeout"; rc = 1
        how = "replay"
        ok = rc == 1 and ("VIO " in txt)
        if not ok:
            # needs the history of its worker process: run that shard's scenario again
            pre = os.path.join(outd, "again")
            try: subprocess.run([v["bin"], "--shard", f"{v['shard']}/{jobs}", "--tier", tier, "--seed", str(seed), "--out", pre, "--tmp", pre + ".tmp", "--scenario", v["scenario"], "--budget", str(min(budget, 200))], env=env, cwd=outd, capture_output=True, timeout=budget + 60)
            except subprocess.TimeoutExpired: pass
            again = [json.loads(l) for l in open(pre + ".vio")] if os.path.exists(pre + ".vio") else []
            ok = any(x["sig"] == sig for x in again); how = "shard rerun"
            txt += f"\n(reproduced only with the history of shard {v['shard']})"
        if not ok: dropped.append(sig); continue
        rp = os.path.join(rdir, f"{i:02d}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}\nsignature {sig}\ndetail {v['detail']}\nscenario {v['scenario']}\nchoices {v['choices']}\nconfirmed by {how}\ncommand {' '.join(cmd)}\n\n{txt[-20000:]}\n")
        confirmed.append((sig, v, rp))
    execs = sum(s["executions"] for s in scen); steps = sum(s["steps"] for s in scen)
    trunc = [s["name"] for s in scen if s["truncated"]]
    samp = []
    seen = {}
    for s in samples:
        k = seen.get(s["scenario"], 0)
        if k < 3: samp.append(s); seen[s["scenario"]] = k + 1
    samp = samp[:24]
    cov = dict(scenarios=scen, distinct_outcomes=len(outcomes), executions=execs, truncated_scenarios=trunc, exhaustive=not trunc, samples=samp,
               known_findings=known, unreproduced=dropped, build_s=round(tb, 1), **extra)
    if c["level"] == "model_checking":
        cov.update(states=nstates, transitions=steps, traces_validated_against_impl=execs)
    else:
        cov.update(evaluations=execs, distinct_nontrivial=nstates, rule=c["rule"])
    ev = dict(property=pid, tier=tier, seed=seed, level=c["level"], coverage=cov, assumptions=c["assumptions"], wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid} [{tier}] executions={execs} steps={steps} states={nstates} outcomes={len(outcomes)} build={tb:.0f}s total={time.time()-t0:.0f}s"
          + (f" TRUNCATED: {trunc}" if trunc else " (complete within bounds)"))
    if "-v" in a:
        for s in scen: print("   ", s)
    for s in known: print(f"KNOWN-FINDING: property={pid} {s} -- {kf[s]}")
    for s in dropped: print(f"note: not reproduced, ignored: {s}")
    for s, v, rp in confirmed:
        print(f"  {s} :: {v['detail'][:300]}")
        print(f"VIOLATION property={pid} replay={rp}")
    if confirmed: return 1
    if harness_error: return 2
    if execs == 0 or nstates == 0:
        print("nothing explored"); return 2
    if "--keep" not in a: shutil.rmtree(outd, ignore_errors=True)
    return 0

sys.exit(main())
