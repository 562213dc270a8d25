#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: turns planted-bug specifications into /verif/seeded/<id>/ after confirming
each in a scratch copy that is bind-mounted over /repo in a private mount namespace: the patch
applies, builds, passes the stable tests, the demo exits 0 without and nonzero with it.
A spec file defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=C source)]."""
import importlib.util, json, os, shutil, subprocess, sys
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO_SH = """#!/bin/sh
# cwd /repo, after the build: exit 0 if the property holds here
D=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$D"' EXIT
${CC:-gcc} -std=gnu11 -O1 -w -DKRIPTO_UNIX -I include -o "$D/demo" "$(dirname "$0")/demo.c" _build/libkripto.a -lm -lpthread || exit 98
"$D/demo"
"""
def inner(d, mode):
    base = json.load(open("/opt/vp/BASELINE.json"))
    if mode in ("build",):
        r = sh("bash /opt/vp/build.sh"); 
        if r.returncode: print(r.stdout[-1500:]); return 3
        return 0
    if mode == "test":
        r = sh("bash /opt/vp/test.sh /tmp/w/seedtest.json"); o = json.load(open("/tmp/w/seedtest.json"))
        want = base["stable"]
        miss = set(want) - set(o["passed"])
        if miss: print("tests no longer passing:", sorted(miss)[:6]); return 4
        return 0
    r = subprocess.run(["timeout", "300", "sh", os.path.join(d, "demo.sh")], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print("   demo exit", r.returncode, r.stdout.strip()[:200]); return r.returncode
if len(sys.argv) > 2 and sys.argv[1] == "--inner":
    sys.exit(inner(sys.argv[2], sys.argv[3]))
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
SR = "/tmp/w/sr"
def ns(cmd): return sh("unshare -m sh -c 'mount --bind %s /repo && cd /repo && %s'" % (SR, cmd))
for s in m.S:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
    d = "/verif/seeded/" + s["id"]
    if os.path.isdir(SR): shutil.rmtree(SR)
    sh("cp -a /repo " + SR)
    ok = True
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.c", "w").write(s["demo"]); open(d + "/demo.sh", "w").write(s.get("demo_sh", DEMO_SH))
    for n, t in s.get("files", {}).items(): open(os.path.join(d, n), "w").write(t)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    me = os.path.abspath(__file__)
    r = ns("python3 %s --inner %s build && python3 %s --inner %s demo" % (me, d, me, d))
    if r.returncode: print(s["id"], "REJECTED: demo fails on the unchanged tree:", r.stdout[-800:]); ok = False
    if ok:
        for f, old, new in s["edits"]:
            p = os.path.join(SR, f); t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1: print(s["id"], "REJECTED: old text occurs", t.count(old), "times in", f); ok = False; break
            open(p, "w", newline="").write(t.replace(old, new))
    if ok:
        df = sh("git -C %s diff" % SR).stdout
        # as bytes: keep CR
        df = subprocess.run(["git", "-C", SR, "diff"], stdout=subprocess.PIPE).stdout
        open(d + "/patch.diff", "wb").write(df)
        # removed lines must be original
        for f in sorted({e[0] for e in s["edits"]}):
            bl = sh("git -C %s blame -s HEAD -- %s" % (SR, f)).stdout.split("\n")
            hd = sh("git -C %s diff -U0 -- %s" % (SR, f)).stdout
            import re
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hd, re.M):
                a, n = int(h[1]), int(h[2] or 1)
                if n == 0: print(s["id"], "NOTE: pure addition at", f, a)
                for k in range(a, a + n):
                    if not re.match(r"^\^?dd5566c", bl[k - 1]): print(s["id"], "NOTE: not original:", f, k, bl[k - 1][:80])
        r = ns("python3 %s --inner %s build && python3 %s --inner %s test" % (me, d, me, d))
        if r.returncode: print(s["id"], "REJECTED:", r.stdout[-800:]); ok = False
    if ok:
        r = ns("python3 %s --inner %s demo" % (me, d))
        if r.returncode == 0: print(s["id"], "REJECTED: demo passes with the change"); ok = False
        elif r.returncode in (98, 99, 124): print(s["id"], "REJECTED: demo broken", r.stdout[-400:]); ok = False
    if not ok:
        shutil.rmtree(d, ignore_errors=True); continue
    print(s["id"], "kept;", r.stdout.strip()[:160])
    if not os.environ.get("NOCHECK"):
        r = ns("cd /verif && cp -a evidence/%s.json /tmp/w/ev.keep; timeout 900 python3 check.py %s --tier quick; rc=$?; cp -a /tmp/w/ev.keep evidence/%s.json; exit $rc" % (s["prop"], s["prop"], s["prop"]))
        print("   ", "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + s["prop"] in r.stdout else "MISSED (%d)" % r.returncode, "by", s["prop"], "|", "\n".join(l for l in r.stdout.split("\n") if not l.startswith("VIOL"))[:170])
    sys.stdout.flush()
if os.path.isdir(SR): shutil.rmtree(SR)
