#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]      decide one property on /repo's working tree
   check.py --setup                                 build everything the quick checks need
   check.py <PROPERTY> --replay RUN UNIT MODE CASE  re-run one recorded case, verbosely
Exit 0: held on everything explored.  Exit 1: violated (VIOLATION line).  Other: the check failed."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import build
from checks import CHECKS

def build_run(r):
    return build.build_driver(r["drv"], r.get("variant", "plain"), r["src"], r.get("hflags", ()), r.get("golden", False), libs=r.get("libs", ("-lm",)), own=r.get("own", ()))

def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) unit=(\S+) case=\{(.*?)\} (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay", nargs=4, metavar=("RUN", "UNIT", "MODE", "CASE"))
    ap.add_argument("--only-run")
    a = ap.parse_args()
    if a.setup:
        for pid, c in CHECKS.items():
            for r in c["runs"]:
                if "quick" in r.get("tiers", ("quick", "thorough")):
                    build_run(r)
        print("setup done")
        return 0
    c = CHECKS[a.prop]
    if a.replay:
        rid, unit, mode, case = a.replay
        r = [x for x in c["runs"] if x["id"] == rid][0]
        exe = build_run(r)
        tmpd = tempfile.mkdtemp(prefix="vfr-")
        env = dict(os.environ, VF_DIGEST_DIR=tmpd)
        try:
            base = [x for x in c["runs"] if x.get("writes")]
            if base and not r.get("writes"):    # results of the reference build for this unit
                subprocess.run([build_run(base[0]), "--opt", base[0]["opt"], "--filter", unit], env=env, stdout=subprocess.DEVNULL)
            cmd = [exe, "--opt", r["opt"], "--unit", unit, "--" + mode, case] + (["--thorough"] if a.tier == "thorough" else [])
            return subprocess.run(cmd, env=env).returncode
        finally:
            shutil.rmtree(tmpd, ignore_errors=True)
    tier = a.tier
    t0 = time.time()
    budget = 560.0 if tier == "quick" else 6 * 3600.0
    tot = dict(cases=0, states=0, transitions=0, validated=0, nontrivial=0, units=0, units_skipped=0, unreproduced=0)
    samples, runs, viol, err = [], [], [], None
    evp = os.path.join(HERE, "evidence", a.prop + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    can32 = None
    scratch = os.path.join(HERE, "build", "run-%s-%d" % (a.prop, os.getpid()))
    for r in c["runs"]:
        if tier not in r.get("tiers", ("quick", "thorough")) or (a.only_run and a.only_run != r["id"]):
            continue
        exe = build_run(r)
        if r.get("variant") == "m32":
            if can32 is None:
                can32 = build.runs_m32()
            if not can32:
                runs.append(dict(run=r["id"], variant="m32", family=r["what"], left_out="this kernel runs no 32-bit executables"))
                print("LEFT OUT: %s (this kernel runs no 32-bit executables)" % r["id"])
                continue
        os.makedirs(scratch, exist_ok=True)
        st = os.path.join(scratch, "stats.json")
        left = budget - (time.time() - t0)
        cmd = [exe, "--opt", r["opt"], "--stats", st, "--deadline", str(max(5.0, min(left, r.get("deadline", 1e9)))),
               "--jobs", str(r.get("jobs", 8)), "--case-limit", str(r.get("case_limit", 20))]
        if tier == "thorough":
            cmd.append("--thorough")
        dd = os.path.join(scratch, "digests")
        os.makedirs(dd, exist_ok=True)
        p = subprocess.run(cmd, env=dict(os.environ, VF_DIGEST_DIR=dd), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=HERE, errors="replace")
        if p.returncode not in (0, 1) or not os.path.exists(st):
            err = "run %s ended with %d: %s %s" % (r["id"], p.returncode, p.stdout[-1500:], p.stderr[-1500:])
            break
        d = json.load(open(st)); os.unlink(st)
        for k in tot:
            tot[k] += d[k]
        runs.append(dict(run=r["id"], variant=r.get("variant", "plain"), family=r["what"], **{k: d[k] for k in tot}, wall_s=round(d["wall"], 2)))
        samples += d["samples"][:max(4, 24 // len(c["runs"]))]
        for f in d["failures"]:
            viol.append((r, f))
        if p.stderr.strip():
            sys.stderr.write(p.stderr[-3000:])
    shutil.rmtree(scratch, ignore_errors=True)
    if err:
        print("ERROR: " + err)
        return 2
    kf = known_findings()
    new, known = [], []
    for r, f in viol:
        hit = [k for k in kf if k[0] == a.prop and k[1] == f["unit"] and k[2] == f["desc"]]
        (known if hit else new).append((r, f))
    for r, f in known:
        print("KNOWN-FINDING: property=%s %s {%s}: %s" % (a.prop, f["unit"], f["desc"], f["what"]))
    rd = os.path.join(HERE, "replays")
    os.makedirs(rd, exist_ok=True)
    for old in os.listdir(rd):
        if old.startswith(a.prop + "-"):
            os.unlink(os.path.join(rd, old))
    for i, (r, f) in enumerate(new[:20]):
        rp = os.path.join(rd, "%s-%d.sh" % (a.prop, i + 1))
        with open(rp, "w") as o:
            o.write("#!/bin/sh\n# %s: %s\n# run %s (%s), unit %s, case %d {%s}\n# %s\ncd %s && exec python3 check.py %s --tier %s --replay %s '%s' %s %d\n" % (
                a.prop, c["title"], r["id"], r.get("variant", "plain"), f["unit"], f["case"], f["desc"].replace("\n", " "), f["what"].replace("\n", " "),
                HERE, a.prop, tier, r["id"], f["unit"], f["mode"], f["case"]))
        os.chmod(rp, 0o755)
        print("  %s case %d {%s}: %s" % (f["unit"], f["case"], f["desc"], f["what"]))
        print("VIOLATION property=%s replay=%s" % (a.prop, rp))
    if len(new) > 20:
        print("  (%d more failing units)" % (len(new) - 20))
    wall = time.time() - t0
    complete = tot["units_skipped"] == 0
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"],
                            executions=tot["cases"], nontrivial_executions=tot["nontrivial"], units=tot["units"],
                            units_cut_by_time=tot["units_skipped"], unreproduced_failures=tot["unreproduced"], exhaustive=complete,
                            bounds=c["bounds"], runs=runs, samples=samples[:40] or ["(none)"]),
              assumptions=c.get("assumptions", []), wall_s=round(wall, 2), violations=len(new))
    with open(evp + ".tmp", "w") as o:
        json.dump(ev, o, indent=1)
    os.replace(evp + ".tmp", evp)
    print("%s %s: %d executions, %d states, %d transitions, %d comparisons, %d units (%d cut by time), %.1f s: %s" % (
        a.prop, tier, tot["cases"], tot["states"], tot["transitions"], tot["validated"], tot["units"], tot["units_skipped"], wall,
        "VIOLATED" if new else "held"))
    if tot["cases"] == 0:
        print("ERROR: nothing was explored")
        return 2
    return 1 if new else 0

if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
