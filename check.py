#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] [--replay FILE]

Builds thermofun from /repo's working tree, explores the state space of the
property exhaustively within its bounds and reports.  Exit 0: held on everything
explored (known findings are listed).  Exit 1: a VIOLATION line per property.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import vb
from registry import CHECKS


def known_findings(pid):
    known = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if not line.startswith("KNOWN-FINDING: "): continue
            parts = line.split(" ", 3)  # KNOWN-FINDING: property=X key=K text
            if parts[1] == "property=" + pid and parts[2].startswith("key="):
                known[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return known


def run_once(c, pid, tier, scratch, limit):
    """All runs of the harnesses of a check, merged."""
    total = {"states": 0, "transitions": 0, "traces": 0, "nontrivial": 0, "samples": [], "counters": {}, "violations": []}
    for i, h in enumerate(c["runs"]):
        exe = vb.harness(h["harness"], h.get("variant", "o2"), h.get("defs", ()))
        sc = os.path.join(scratch, "r%d" % i); os.makedirs(sc, exist_ok=True)
        out = os.path.join(scratch, "out%d.json" % i)
        if os.path.exists(out): os.unlink(out)
        env = dict(os.environ, TMPDIR=sc, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:quarantine_size_mb=32:malloc_context_size=3:log_path=" + os.path.join(sc, "asan"),
                   UBSAN_OPTIONS="print_stacktrace=1:log_path=" + os.path.join(sc, "ubsan"))
        cmd = [exe, "--tier", tier, "--out", out, "--scratch", sc, "--data", os.path.join(HERE, "data"), "--repo", vb.REPO,
               "--jobs", str(vb.JOBS), "--mode", h.get("mode", pid)]
        with open(os.path.join(scratch, "log%d" % i), "wb") as log:
            try:
                r = subprocess.run(cmd, cwd=sc, stdout=log, stderr=log, env=env, timeout=limit)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        if not os.path.exists(out):
            tail = open(os.path.join(scratch, "log%d" % i), "rb").read()[-1500:].decode(errors="replace")
            if isinstance(rc, int) and (rc < 0 or rc == 99):
                # the code under test brought the explorer down outside a guarded visit
                total["violations"].append({"key": "died:%s:%s" % (h["harness"], h.get("mode", pid)), "what": "the process died (%d) while computing reference answers; %s" % (rc, tail[-300:]), "state": "", "count": 1})
                continue
            raise RuntimeError("explorer %s ended with %s and no report\n%s" % (h["harness"], rc, tail))
        j = json.load(open(out))
        for k in ("states", "transitions", "traces", "nontrivial"): total[k] += j[k]
        total["samples"] += j["samples"]
        for k, v in j["counters"].items(): total["counters"][k] = total["counters"].get(k, 0) + v
        for v in j["violations"]:
            v["key"] = re.sub(r"\s+", "_", v["key"]); total["violations"].append(v)
    return total


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--keys", action="store_true", help="print the keys of all violations")
    a = ap.parse_args()
    pid = a.id; c = CHECKS[pid]; t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    known = known_findings(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        limit = 800 if tier == "quick" else 6 * 3600
        try:
            res = run_once(c, pid, tier, scratch, limit)
        except vb.BuildError as e:
            print("BUILD-ERROR\n" + str(e)); return 2
        new = {v["key"]: v for v in res["violations"] if v["key"] not in known}
        if new and time.time() - t0 < 380 and not a.keys:
            # replay before report: the exploration is deterministic, so it has to come again
            again = run_once(c, pid, tier, scratch, limit)
            new2 = {v["key"]: v for v in again["violations"] if v["key"] not in known}
            both = {k: v for k, v in new.items() if k in new2}
            if both: new = both
            elif not new2:
                print("note: not reproduced on a second exploration: " + ", ".join(sorted(new)[:5]))
                new = {}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = round(time.time() - t0, 2)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if c["level"] == "fault_enumeration":
        cov = {"evaluations": res["transitions"], "distinct_nontrivial": res["nontrivial"], "rule": c["rule"], "samples": res["samples"][:8],
               "states": res["states"], "exhaustive": True}
    else:
        cov = {"states": res["states"], "transitions": res["transitions"], "traces_validated_against_impl": res["traces"],
               "samples": res["samples"][:8], "exhaustive": True}
    cov["counters"] = res["counters"]
    hit = sorted(k for k in known if any(v["key"] == k for v in res["violations"]))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "wall_s": wall,
          "violations": len(new), "assumptions": c.get("assumptions", [])}
    if hit: ev["coverage"]["known_findings"] = hit
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in hit: print("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[k], k))
    gone = sorted(k for k in known if k not in hit)
    for k in gone: print("note: known finding not met on this tree: " + k)
    if a.keys:
        for k in sorted(new): print("KEY", k, "|", new[k]["what"][:300])
    print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs violations=%d known=%d" %
          (pid, tier, res["states"], res["transitions"], res["traces"], wall, len(new), len(hit)))
    if a.replay:
        want = json.load(open(a.replay))["key"]
        print("replay of %s: %s" % (want, "reproduced" if want in new else "NOT reproduced"))
    if new:
        rd = os.path.join(HERE, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
        for n, k in enumerate(sorted(new)):
            v = new[k]
            if n < 12: print("  %s: %s" % (k, v["what"][:400]))
            if n < 50:
                with open(os.path.join(rd, "%s-%d.json" % (pid, n)), "w") as f:
                    json.dump({"property": pid, "tier": tier, "key": k, "what": v["what"], "state": v["state"], "count": v["count"],
                               "rerun": "./check.py %s --tier %s --replay evidence/replay/%s-%d.json" % (pid, tier, pid, n)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, os.path.join("evidence", "replay", pid + "-0.json")))
        return 1
    if not new and (res["states"] == 0 or res["transitions"] == 0):
        print("the exploration was vacuous"); return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
