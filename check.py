#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--secs S]
Rebuilds the simulated program from /repo's working tree, searches schedules and
faults by seed, minimises and re-verifies a violation, writes evidence/<id>.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer."""
import argparse, json, os, struct, subprocess, sys, time, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
from spec import CHECKS, INFO

def known_kinds(prop):
    """known-findings file: 'known: property=C11 kind=<violation kind> scenario=<name> <what fails>'"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        if not line.startswith("known:"):
            continue
        f = dict(x.split("=", 1) for x in line.split() if "=" in x)
        if f.get("property") == prop:
            out.append((f.get("scenario", ""), f["kind"], line.split("kind=", 1)[1].split(None, 1)[-1].strip()))
    return out

def load_hashes(path, into):
    try:
        with open(path, "rb") as f:
            b = f.read()
        into.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        os.unlink(path)
    except OSError:
        pass

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--secs", type=float); ap.add_argument("--scenario")
    ap.add_argument("--jobs", type=int, default=0)
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    t0 = time.time()
    prop = a.prop
    checks = [c for c in CHECKS[prop] if not a.scenario or c[1] == a.scenario]
    variants = sorted(set(c[0] for c in checks))
    if B.build(variants):
        print("check %s: the tree does not build" % prop)
        return 2
    build_s = time.time() - t0
    ncpu = a.jobs or max(1, len(os.sched_getaffinity(0)))
    budget = a.secs or (55.0 if a.tier == "quick" else 540.0)
    tmp = tempfile.mkdtemp(prefix="k52sim_")
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_kinds(prop)
    total_w = float(sum(c[3] for c in checks))
    res, verdict, errors = [], None, []
    sched, fault, state, trace = set(), set(), set(), set()
    cpus = sorted(os.sched_getaffinity(0))
    try:
        for ci, (variant, scen, ranks, w) in enumerate(checks):
            secs = budget * w / total_w
            procs = []
            for j in range(ncpu):
                out = "%s/%d.%d" % (tmp, ci, j)
                rp = "%s/%d.%d.replay" % (tmp, ci, j)
                cmd = [B.OUT + "/simrun", "--so", "%s/k52%s.so" % (B.OUT, variant), "--scenario", scen, "--prop", prop,
                       "--seed0", str(a.seed * 100000000 + ci * 10000000 + j), "--stride", str(ncpu), "--count", "10000000",
                       "--secs", "%.1f" % secs, "--min-secs", "30" if a.tier == "quick" else "120", "--out", out,
                       "--replay-out", rp, "--selftest", "--cpu", str(cpus[j % len(cpus)]),
                       "--known", ",".join(k for s, k, _ in known if s in ("", scen))]
                if ranks:
                    cmd += ["--ranks", str(ranks)]
                env = dict(os.environ, LC_ALL="C", TZ="UTC", MALLOC_ARENA_MAX="1")
                procs.append((subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"), env=env, cwd=tmp), out, rp))
            pending = list(range(ncpu))
            hard = time.time() + secs + 200
            found_at = None
            while pending:
                time.sleep(0.05)
                for j in list(pending):
                    if procs[j][0].poll() is not None:
                        pending.remove(j)
                        if procs[j][0].returncode == 1 and found_at is None:
                            found_at = time.time()
                if pending and ((found_at and time.time() > found_at + 1) or time.time() > hard):
                    for j in pending:
                        procs[j][0].kill(); procs[j][0].wait()
                    if not found_at:
                        errors.append("search of %s did not end" % scen)
                    pending = []
            for p, out, rp in procs:
                if p.returncode == -9 and found_at:
                    continue
                try:
                    r = json.load(open(out))
                except (OSError, ValueError):
                    errors.append("%s: worker ended with %s: %s" % (scen, p.returncode, open(out + ".err").read()[-300:])); continue
                r["scenario"], r["variant"], r["ranks"] = scen, variant, ranks
                res.append(r)
                for suf, into in ((".sched", sched), (".fault", fault), (".state", state), (".trace", trace)):
                    load_hashes(out + suf, into)
                if r["rc"] == 2:
                    errors.append("%s seed %s: %s %s" % (scen, r["seed"], r["kind"], r["message"][:300]))
                if r["rc"] == 1 and verdict is None:
                    verdict = (r, rp)
            if verdict:
                break
        rc = 0
        if verdict:
            r, rp = verdict
            dst = os.path.join(HERE, "replays", "%s-%d.replay" % (prop, r["seed"]))
            text = open(rp).read()
            with open(dst, "w") as f:
                f.write(text.replace("property ", "variant %s\nranks %d\nproperty " % (r["variant"], r["ranks"]), 1))
            code = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), "--no-build", dst],
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print("scenario %s seed %d: %s: %s" % (r["scenario"], r["seed"], r["kind"], r["message"]))
            print("minimised: " + " ".join(l for l in text.split("\n") if l.startswith("minimised")))
            if code.returncode == 1:
                rc = 1
                print("replayed in a fresh process: reproduces exactly")
                print("VIOLATION property=%s replay=%s" % (prop, dst))
            else:
                rc = 2
                print("replay of %s in a fresh process did not reproduce it:\n%s" % (dst, code.stdout[-1500:]))
        elif errors:
            rc = 2
            print("check %s: no answer: %s" % (prop, "; ".join(errors[:4])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # ----------------------------------------------------------------- evidence
    S = lambda k: sum(r[k] for r in res)
    probes, faults, kh, per = {}, {}, {}, {}
    for r in res:
        for k, (v, n) in r["probes"].items():
            o = probes.setdefault(k, [0, 0]); o[0] += v; o[1] += n
        for k, (v, d, n) in r["faults"].items():
            o = faults.setdefault(k, [0, 0, 0]); o[0] += v; o[1] += d; o[2] += n
        for k, v in r["known"].items():
            kh[k] = kh.get(k, 0) + v
        key = r["scenario"] + ("/ranks=%d" % r["ranks"] if r["ranks"] else "")
        o = per.setdefault(key, {"runs": 0, "cpu_s": 0.0, "seeds": []})
        o["runs"] += r["runs"]; o["cpu_s"] = round(o["cpu_s"] + r["wall"], 1)
        o["seeds"].append("%d..%d step %d" % (r["first_seed"], r["last_seed"], r["stride"]))
    wall = time.time() - t0
    search_wall = max(0.001, wall - build_s)
    runs = S("runs")
    info = INFO.get(prop, {})
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {
              "evaluations": runs,
              "distinct_nontrivial": len(trace),
              "rule": "One evaluation is one simulated run from one seed. Distinct: by the hash of the run's complete sequence of events "
                      "(every scheduling decision taken with the operation it was taken at, every fault and every value of the workload), "
                      "two runs with the same hash count once. Non-trivial: at least one operation of the simulated program was executed under the scheduler; "
                      "the hash set is the union over all workers.",
              "samples": [{"scenario": r["scenario"], "ranks": r["ranks"], "case": r["sample"]} for r in
                          [next(x for x in res if x["scenario"] == k[0] and x["ranks"] == k[1]) for k in sorted(set((x["scenario"], x["ranks"]) for x in res))]][:8],
              "runs_per_hour": int(runs / search_wall * 3600), "seeds_per_hour": int(runs / search_wall * 3600),
              "simulated_time_s": round(S("sim_ns") / 1e9, 3),
              "scheduler_events": S("steps"), "longest_run_events": max([r["max_steps"] for r in res] or [0]), "longest_run_synchronisation_events": max([r["max_syncs"] for r in res] or [0]), "context_switches": S("switches"), "preemptions": S("preemptions"), "simulated_threads": S("threads"),
              "distinct_interleavings": len(sched), "distinct_fault_sequences": len(fault), "distinct_abstract_states": len(state),
              "runs_with_faults": S("faulted_runs"),
              "faults_injected": {k: {"fired": v[0], "opportunities": v[1], "runs": v[2]} for k, v in sorted(faults.items())},
              "probes": {k: {"total": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
              "same_seed_twice_checks": S("determinism_checks"),
              "per_scenario": per,
              "real_code": info.get("real", ""), "stubbed": info.get("stub", ""),
          },
          "assumptions": info.get("assumptions", []),
          "wall_s": round(wall, 2), "violations": 1 if verdict and rc == 1 else 0}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 0:
        for s, k, what in known:
            print("KNOWN-FINDING: property=%s %s (%d of %d runs)" % (prop, what, kh.get(k, 0), runs))
        print("check %s: held on %d simulated runs (%d distinct interleavings, %d fault sequences, %d faults fired), %.0f s" %
              (prop, runs, len(sched), len(fault), sum(v[0] for v in faults.values()), wall))
    return rc

if __name__ == "__main__":
    sys.exit(main())
