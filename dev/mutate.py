#!/usr/bin/env python3
"""Development tool: mutation campaign.  mutate.py FILE... [--ops N] [--max M] [--seed S] [--jobs J]
Enumerates small changes of library sources, builds each against prebuilt drivers and reports those that no driver notices.
Everything happens under /tmp/w/camp; /repo is only read."""
import argparse, hashlib, json, os, random, re, subprocess, sys, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib")); sys.dont_write_bytecode = True
import build
from checks import HASH, BLOCK, MAC, STREAM, AE, OBJ, KDF, MISC, OBJS
C = "/tmp/w/camp"
R = build.REPO
def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
NOG = ("-DNO_GOLD",)
DRV = {  # name: (sources, hflags, golden, variant)
 "hash": (HASH, NOG, 0, "plain"), "block": (BLOCK, (), 1, "plain"), "mac": (MAC, (), 1, "plain"), "stream": (STREAM, (), 1, "plain"),
 "ae": (AE, (), 1, "plain"), "obj": (OBJ, NOG, 0, "plain"), "kdf": (KDF, (), 1, "plain"), "misc": (MISC, (), 0, "plain"),
 "bounds": (["harness/drv_bounds.c"] + OBJS[0:1] + OBJS[2:], NOG, 0, "asan"),
 "conc": (["harness/drv_conc.c"] + OBJS[0:1] + OBJS[2:], NOG, 0, "tsan"), "misuse": (["harness/drv_misuse.c"] + OBJS[0:1] + OBJS[2:], NOG, 0, "plain"), "long": (["harness/drv_long.c", "harness/cat.c", "ref/refhash.c"], NOG, 0, "plain"),
}
def prep():
    """compile harness objects and the libraries"""
    os.makedirs(C, exist_ok=True)
    gold = build.build_golden()
    out = {}
    for n, (srcs, hf, g, var) in DRV.items():
        lib = build.build_lib(var)
        cc, flags = build.VARIANTS[var]
        san = [f for f in flags if f == "-fsanitize=address"]
        objs = []
        for s in ["harness/vf.c"] + list(srcs):
            p = os.path.join(V, s)
            k = hashlib.sha1((p + open(p).read() + var + str(hf) + "".join(open(x).read() for x in build.glob.glob(V + "/harness/*.h"))).encode()).hexdigest()[:12]
            o = "%s/%s-%s.o" % (C, os.path.basename(s)[:-2], k)
            if not os.path.exists(o):
                r = sh(["gcc", "-std=gnu11", "-O2", "-g1", "-w", "-DKRIPTO_UNIX", "-DVF_VARIANT_" + var] + san + list(hf) + ["-I" + V + "/harness", "-I" + V + "/ref", "-I" + R + "/include", "-c", p, "-o", o])
                if r.returncode: raise SystemExit(r.stdout)
            objs.append(o)
        out[n] = (objs, lib, gold if g else None, var, san)
    return out
def plan(f):
    """drivers to run for a file: (driver, opt, filter, seconds)"""
    st = os.path.basename(f)[:-2]; P = []
    def allobj(flt, b=True, conc=False):
        P.append(("misuse", "all", flt, 60))
        for o in ("recreate", "indep", "oom", "wipe", "det", "meta", "own"): P.append(("obj", o, flt, 60))
        P.append(("bounds", "bounds", flt, 90))
        if conc: P.append(("conc", "threads", flt, 60))
    if f.startswith("hash/"):
        n = {"keccak1600": "/keccak1600/,/sha3/"}.get(st, "/%s/" % st); h = n.replace("/", "")
        P += [("hash", "conf", n, 60), ("hash", "split", n, 60), ("long", "move", n, 60), ("long", "exhaust", n, 60)]
        allobj(",".join("hash/" + x for x in h.split(",")))
        P += [("mac", "conf", ",".join("hmac/" + x for x in h.split(",")), 60)]
        if st.startswith("keccak") or st.startswith("skein"): P += [("mac", "conf", "mac/" + st, 60), ("mac", "split", "mac/" + st, 60), ("stream", "ciphers", st, 60)]
    elif f.startswith("block/"):
        n = {"gost": "gost_", "rijndael": "aes,rijndael", "safer": "safer"}.get(st, st)
        P += [("block", "bconf", n, 90), ("block", "inv", n, 90), ("block", "tweak", n, 60)]
        allobj(",".join("block/" + x for x in n.split(",")))
    elif f.startswith("mac/"):
        n = {"hmac": "hmac/md5,hmac/sha2_512,hmac/sha3,hmac/skein512,hmac/keccak800", "omac": "omac/3way,omac/rijndael256,omac/aes,omac/threefish1024,omac/simon32,omac/xtea,omac/threefish512", "xcbc": "xcbc/3way,xcbc/rijndael256,xcbc/aes,xcbc/threefish1024,xcbc/simon32",
             "keccak": "mac/keccak"}.get(st, "mac/" + st)
        P += [("mac", "conf", n, 90), ("mac", "split", n, 90)]; allobj(n)
        P += [("kdf", "pbkdf2", "hmac/md5,omac/aes,hmac/sha2_256", 60), ("ae", "conf", "eax/aes,eax2", 60)]
    elif f.startswith("stream/"):
        if st in ("cbc", "cfb", "ctr", "ecb", "ofb"):
            n = ",".join(st + "/" + x for x in ("3way", "aes", "threefish1024", "simon32", "xtea"))
            P += [("stream", "modes", n, 90), ("stream", "split", n, 90)]
        else:
            n = "stream/" + st; P += [("stream", "ciphers", st, 120), ("stream", "split", st, 90), ("stream", "exhaust", st, 60)]
        allobj(n)
        P += [("ae", "conf", "eax2/" + st + ",eax2/stream", 60)] if st != "rc4" else []
    elif f.startswith("ae/"):
        n = "eax/aes,eax/3way,eax/threefish256,eax/simon32" if st == "eax" else "eax2/"
        P += [("ae", "conf", n, 120), ("ae", "rt", n, 120)]; allobj(n)
    elif st in ("pbkdf2", "scrypt"):
        P += [("kdf", st, "tiny,hmac,memory,small" if st == "scrypt" else None, 40)]
        for o in ("oom", "wipe", "det"): P.append(("obj", o, st, 60))
        P.append(("bounds", "bounds", "kdf,pbkdf2,scrypt", 60))
    elif st in ("pkcs7", "memory", "random"):
        P += [("misc", x, None, 120) for x in {"pkcs7": ["pkcs7"], "memory": ["memory"], "random": ["source", "selftest"]}[st]]
        if st == "memory": P += [("obj", "wipe", "hash/,block/", 60), ("mac", "split", "hmac/md5,omac/aes", 60)]
    else:
        k = {"hash": "hash", "mac": "mac", "block": "block", "stream": "stream", "ae": "ae"}[st]
        if k == "hash": P += [("hash", "conf", "/md5/,/tiger/,/skein256/", 60), ("hash", "split", "/md5/,/tiger/,/skein256/", 60)]; n = "hash/md5,hash/tiger,hash/skein256,hash/blake256"
        if k == "mac": P += [("mac", "conf", "hmac/md5,omac/aes", 60), ("mac", "split", "hmac/md5,omac/aes,mac/skein256", 60)]; n = "hmac/md5,omac/aes,xcbc/3way,mac/skein256"
        if k == "block": P += [("block", "bconf", "/aes,/threefish,/xtea", 60), ("block", "inv", "/aes,/threefish,/xtea", 60), ("block", "tweak", None, 60)]; n = "block/aes,block/threefish256,block/xtea"
        if k == "stream": P += [("stream", "split", "ctr/aes,cbc/aes,stream/chacha,stream/rc4,ofb/xtea", 90), ("stream", "modes", "ctr/aes,cbc/aes,ofb/xtea", 60), ("stream", "ciphers", "chacha,rc4", 60)]; n = "ctr/aes,cbc/aes,stream/chacha,stream/rc4,ofb/xtea"
        if k == "ae": P += [("ae", "conf", "eax/aes,eax2/stream", 60), ("ae", "rt", "eax/aes,eax2/stream", 90)]; n = "eax/aes,eax2/stream"
        allobj(n)
    return P
OPS = [("<", "<="), ("<=", "<"), (">", ">="), (">=", ">"), ("==", "!="), ("!=", "=="), ("+", "-"), ("-", "+"), ("&&", "||"), ("||", "&&"), ("<<", ">>"), (">>", "<<"), ("^", "|"), ("&", "|"), ("|", "&"), ("++", "--"), ("--", "++"), ("+=", "="), ("-=", "="), ("^=", "="), ("|=", "="), ("%", "/"), ("*", "+"), ("/", "*")]
TOK = re.compile(r"0[xX][0-9a-fA-F]+[uUlL]*|\d+[uUlL]*|[A-Za-z_]\w*|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/^|&%]=|\"[^\"]*\"|'[^']*'|\s+|.", re.S)
def blank(src):
    src = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group()), src, flags=re.S)
    return re.sub(r"//[^\n]*", lambda m: " " * len(m.group()), src)
def mutants(path, every):
    raw = open(path, newline="").read(); b = blank(raw); out = []
    pos = 0; lines = b.split("\n"); tab = 0; intable = False
    for ln, l in enumerate(lines):
        s = l.strip()
        skip = not s or s.startswith("#include") or re.match(r"assert\(\s*[\w>.-]+\s*\);$", s) or s.startswith("#if") or s.startswith("#e") or s.startswith("typedef") or s.startswith("static const") and "{" not in s
        nlit = len(re.findall(r"0[xX][0-9a-fA-F]+|\b\d+\b", s))
        istab = bool(re.match(r"^[{}\s]*(0[xX][0-9a-fA-F]+[UL]*|\d+)\s*,", s)) and not re.search(r"[()=]", s)
        if istab:
            tab += 1
            if tab % 40 == 1:
                m = re.search(r"0[xX]([0-9a-fA-F]+)|\b\d+\b", l); t = m.group()
                v = int(t, 0) ^ 1
                out.append((ln, pos + m.start(), pos + m.end(), hex(v) if t[:2].lower() == "0x" else str(v)))
            pos += len(l) + 1; continue
        if not skip:
            # statement deletion
            if s.endswith(";") and not re.match(r"^(static |const |unsigned|int |size_t|uint\w+ |struct |kripto_\w+ \*|goto|break|continue|return [^;]*;$|u8|u32)", s) and s.count("(") == s.count(")") and not s.startswith("for") and not s.startswith("}") and not l.rstrip("\r").endswith("\\"):
                st = pos + len(l) - len(l.lstrip())
                out.append((ln, st, pos + len(l.rstrip()), ";"))
            p = pos; toks = []
            for m in TOK.finditer(l): toks.append((m.group(), pos + m.start(), pos + m.end()))
            for i, (t, a, e) in enumerate(toks):
                prev = next((x[0] for x in reversed(toks[:i]) if x[0].strip()), ""); nxt = next((x[0] for x in toks[i+1:] if x[0].strip()), "")
                if re.match(r"^\d|^0x", t):
                    m = re.match(r"(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$", t); v = int(m.group(1), 0) if not re.match(r"^0\d", m.group(1)) else int(m.group(1), 8)
                    for d in (1, -1):
                        if v + d >= 0: out.append((ln, a, e, (hex(v + d) if t[:2].lower() == "0x" else str(v + d)) + m.group(2)))
                else:
                    for x, y in OPS:
                        if t == x:
                            if x in "*&-+" and (prev in ("(", ",", "=", "return", "{", "[", "==", "!=", "&&", "||", "") or prev in ("uint8_t", "void", "const", "char", "kripto_desc", "size_t") or prev.startswith("kripto_") or prev.startswith("struct")): continue
                            if x == "*" and (nxt == ")" or nxt == ";" or s.startswith("static") or s.startswith("const") or re.match(r"^(uint|size_t|unsigned|int|struct|void|kripto)", s)): continue
                            out.append((ln, a, e, y))
            m = re.match(r"^(\s*(?:else )?if\s*\()(.*)\)([^()]*)$", l.rstrip("\r"))
            if m and m.group(2).count("(") == m.group(2).count(")"):
                a = pos + len(m.group(1)); e = a + len(m.group(2))
                out.append((ln, a, e, "0")); out.append((ln, a, e, "1"))
        pos += len(l) + 1
    return raw, out
def compile_one(src, variant, dst, inc):
    cc, flags = build.VARIANTS[variant]
    fl = [x for x in flags if not x.startswith("-g")]
    r = sh([cc] + fl + ["-DNDEBUG_NOT", "-w", "-I" + R + "/include", "-iquote", inc, "-c", src, "-o", dst], timeout=120)
    if r.returncode: return False
    red = []
    for x in build.REDEF + build.REDEF_IO + (build.REDEF_STR if variant in ("tracepc", "tsan") else []): red += ["--redefine-sym", "%s=vf_%s" % (x, x)]
    return sh(["objcopy"] + red + [dst]).returncode == 0
def text_of(o):
    r = subprocess.run(["objdump", "-d", "-s", "-r", "-j", ".text", "-j", ".rodata", "-j", ".data", "-j", ".text.unlikely", "--no-show-raw-insn", o], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    t = re.sub(rb"^.*file format.*$", b"", r.stdout, flags=re.M)
    return hashlib.sha1(t).hexdigest()
def trial(job):
    f, raw, m, base, prepd, pl = job
    ln, a, e, new = m
    d = tempfile.mkdtemp(prefix="m", dir=C); T0 = time.time()
    line = raw[:a].count("\n") + 1
    txt = raw.split("\n")[line - 1].strip()
    desc = "%s:%d: [%s -> %s]  %s" % (f, line, raw[a:e].strip()[:60], new, txt[:110])
    try:
        src = os.path.join(d, os.path.basename(f)); open(src, "w", newline="").write(raw[:a] + new + raw[e:])
        inc = os.path.dirname(os.path.join(R, "lib", f)); objs = {}
        o = os.path.join(d, "plain.o")
        if not compile_one(src, "plain", o, inc): return ("nocompile", desc, "")
        if text_of(o) == base: return ("same", desc, "")
        objs["plain"] = o
        for drv, opt, flt, sec in pl:
            ob, lib, gold, var, san = prepd[drv]
            if var not in objs:
                objs[var] = os.path.join(d, var + ".o")
                if not compile_one(src, var, objs[var], inc): return ("nocompile", desc, var)
            exe = os.path.join(d, drv)
            if not os.path.exists(exe):
                r = sh(["gcc"] + san + ["-no-pie", "-o", exe] + ob + [objs[var], lib] + ([gold] if gold else []) + ["-lm"])
                if r.returncode: return ("link", desc, r.stdout[-300:])
            st = os.path.join(d, "s.json")
            try:
                r = subprocess.run([exe, "--opt", opt, "--stats", st, "--jobs", "1", "--first", "--deadline", str(sec), "--case-limit", "10"] + (["--filter", flt] if flt else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=sec * 2 + 60, cwd=d)
            except subprocess.TimeoutExpired:
                return ("timeout", desc, drv + " " + opt)
            if r.returncode == 1:
                fl = json.load(open(st))["failures"]
                if [x for x in fl if "fips202" not in x["unit"]]: return ("killed", desc, drv + " " + opt)
            elif r.returncode != 0: return ("odd", desc, "%s %s %d" % (drv, opt, r.returncode))
        return ("SURVIVED", desc, "%.0fs" % (time.time() - T0))
    finally:
        shutil.rmtree(d, ignore_errors=True)
def main():
    os.nice(10)
    ap = argparse.ArgumentParser(); ap.add_argument("files", nargs="+"); ap.add_argument("--max", type=int, default=10**9); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--lines")
    a = ap.parse_args()
    pp = prep(); rnd = random.Random(a.seed); jobs = []
    for f in a.files:
        path = os.path.join(R, "lib", f); raw, ms = mutants(path, 1)
        if a.lines:
            lo, hi = map(int, a.lines.split("-")); ms = [m for m in ms if lo <= m[0] + 1 <= hi]
        if len(ms) > a.max: ms = sorted(rnd.sample(ms, a.max))
        o = os.path.join(C, "base-" + f.replace("/", "_") + ".o"); d = tempfile.mkdtemp(dir=C); src = os.path.join(d, os.path.basename(f)); shutil.copy(path, src)
        compile_one(src, "plain", o, os.path.dirname(path)); base = text_of(o); shutil.rmtree(d)
        pl = plan(f)
        jobs += [(f, raw, m, base, pp, pl) for m in ms]
    print(len(jobs), "mutants", flush=True); cnt = {}; 
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(trial, jobs):
            cnt[r[0]] = cnt.get(r[0], 0) + 1
            if r[0] not in ("killed", "same", "nocompile"): print("%s %s  (%s)" % r, flush=True)
    print("TOTAL", " ".join(a.files), cnt, flush=True)
main()
