#!/usr/bin/env python3
"""Development helper: DESIGN.md from dev/DESIGN.in.md, the checks table, the evidence files and the planted bugs."""
import json, os, re, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
from checks import CHECKS
WHY = {
"H01": "All fill levels of the block buffer times all next lengths occur; the tests have one call per digest.  A length that depends on two cooperating sites (input's buffer and finish's padding) shows as a difference to the one-call value.",
"H02": "Each padding length, length-field position, salt length and truncated digest is compared with an independent implementation instead of one vector.",
"H03": "No test reaches 2^29 bytes.  Reached either really (256 MiB pieces) or by moving the length counter found in the object.",
"M01": "As H01 for MACs, whose last block is treated differently; plus exactness of verification under every small alteration.",
"M02": "Composition of definitions: every (MAC, inner primitive) pair and every key length around the hash block is decided, tests sample a dozen.",
"B01": "Inversion over every key length and round count: key schedules have separate code for each; tests use the default one.",
"B02": "As B01, against frozen models; boundary words (0, 1, 7F.., 80.., FF..) in every position find carry and zero special cases (IDEA's multiplication, RC5 key words).",
"B03": "The tweak is object state between calls: all short histories of set-tweak, re-creation and use against the model state (key, rounds, tweak).",
"S01": "As H01; modes keep a feedback block and a position, updated by four functions that must agree with each other.",
"S02": "All carries of CTR's counter and every IV length, for each of 43 block sizes/ciphers.",
"S03": "Counter carries at 2^8..2^56 blocks cannot be reached by tests; the explored states are reached by moving the counter.",
"A01": "Cuts on both sides, in place, header and data interleaved; every single-bit alteration of everything transmitted must be detected.",
"A02": "EAX/EAX2 for every nonce, header, key and tag length against the composition of the models.",
"K01": "Block counters, last partial block, iteration counts; each failing inner call must be reported and leave nothing.",
"K02": "Every small (N, r, p) and all size overflows: the tests have the four RFC vectors.",
"K03": "Complete for the lengths and block sizes listed.",
"X01": "Stale state survives re-creation only after particular histories and parameter pairs; all pairs are run.",
"X02": "Shared state between objects shows only when lives interleave; all interleavings at call granularity of two short lives are executed.",
"X03": "Dynamic partial-order argument: tasks whose access sets do not conflict are independent, so one schedule represents all; schedules with switches are executed as a check of the instrumentation.",
"X04": "A read one byte beyond an input or a write to it does not change any test's result; inaccessible pages and read-only views make it fatal.",
"X05": "Every allocation in every entry point is failed in turn; tests never fail one.",
"X06": "Noninterference: three secrets, equal released memory.",
"X07": "Instruction and address traces of all contents in a family must coincide.",
"X08": "An uninitialised byte that matters shows as a difference between fills of heap, stack and output.",
"X09": "The source is replaced below stdio: short reads, errors, end of file at every byte.",
"X10": "The test accepts or rejects one source; here all members of flaw families with independently computed statistics.",
"X11": "All lengths and alignments, four compilers' builds, including whether a dying buffer's wipe survives optimisation.",
"X12": "The helpers are macros/inline functions with compile-time variants; each variant is compiled and compared over all values.",
"X13": "Each advertised maximum is used, each explicit default compared with zero.",
"X15": "Every kind of excessive request is made to every primitive, each in a process of its own; tests make none.",
"X16": "The end of a counter is explored by moving the counter; no amount of testing time reaches it.",
"X17": "Toy primitives of any size watch their caller; no primitive of the library reaches those sizes, table entries and error paths.",
"X18": "Lengths beyond 32 bits are really passed to every kind of call; no test passes more than a few kilobytes.",
"X19": "The configurations for Windows and for no system source are compiled against monitored stand-ins; tests cannot build them.",
"X20": "The same explorations in an executable whose sizes have 32 bits; tests run with 64 bits only.",
"X21": "Every small number of rounds and all around the sizes that overflow; tests pass only 0 or published numbers.",
"X14": "The heap is monitored through whole lives with all pairs of parameter sets; tests never look at it.",
}
def oracle(p):
    t = CHECKS[p]["technique"]
    return t[0].upper() + t[1:]
tab = []
for p, c in CHECKS.items():
    ev = os.path.join(V, "evidence", p + ".json"); cost = ""
    if os.path.exists(ev):
        d = json.load(open(ev))
        if d["tier"] == "quick": cost = "%d executions, %d transitions, about %.0f s" % (d["coverage"]["executions"], d["coverage"]["transitions"], max(1, d["wall_s"]))
    tab.append("**%s %s.**  %s.\n  *Bounds:* %s.\n  *Why:* %s\n  *Strength:* %s\n  *Runs:* %s.  *Cost:* %s.\n" % (
        p, c["title"], oracle(p), c["bounds"], WHY[p], c["note"], "; ".join("%s (%s build)" % (r["what"], r.get("variant", "plain")) for r in c["runs"]), cost))
fixed = ["* %s `%s` %s" % m.groups() for m in (re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip()) for l in open(os.path.join(V, "known-findings.txt"))) if m]
ca = {}
cf = os.path.join(V, "dev", "catches.txt")
if os.path.exists(cf):
    for l in open(cf):
        a = l.split()
        if a: ca[a[0]] = a[1:]
sd = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    sd.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], ", ".join(ca.get(i, ["(not run)"]))))
s = open(os.path.join(V, "dev", "DESIGN.in.md")).read()
s = s.replace("@TABLE@", "\n".join(tab)).replace("@FIXED@", "\n".join(fixed)).replace("@SEEDS@", "\n".join(sd)).replace("36 commits", "%d commits" % len(fixed))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
