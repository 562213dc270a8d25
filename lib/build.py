"""Builds the library under test (from /repo's working tree), the golden block ciphers and the
drivers into /verif/build, keyed by content."""
import glob, hashlib, os, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
BASE = ["-std=c99", "-O2", "-g1", "-DKRIPTO_UNIX"]
M32 = ["-m32", "-fno-pie", "-fno-stack-protector", "-U_FORTIFY_SOURCE", "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", os.path.join(VERIF, "harness", "m32")]
VARIANTS = {
    "plain": ("gcc", BASE),
    "asan":  ("gcc", ["-std=c99", "-O1", "-g1", "-DKRIPTO_UNIX", "-fsanitize=address", "-fno-omit-frame-pointer"]),
    "le":    ("gcc", BASE + ["-DKRIPTO_LITTLE_ENDIAN"]),
    "port":  ("gcc", BASE + ["-include", os.path.join(VERIF, "harness", "portable.h")]),
    "o0":    ("gcc", ["-std=c99", "-O0", "-DKRIPTO_UNIX"]),
    "o3":    ("gcc", ["-std=c99", "-O3", "-march=native", "-DKRIPTO_UNIX"]),
    "clang": ("clang", ["-std=c99", "-O2", "-DKRIPTO_UNIX"]),
    "tracepc": ("clang", ["-std=c99", "-O2", "-DKRIPTO_UNIX", "-fsanitize-coverage=trace-pc,trace-loads,trace-stores"]),
    # 32-bit sizes and pointers; no 32-bit C library is installed: harness/m32/mini.c stands in for it
    "m32":   ("gcc", M32 + ["-std=c99", "-O2", "-g1", "-DKRIPTO_UNIX"]),
    "ndebug": ("gcc", BASE + ["-DNDEBUG"]),
    "tsan":  ("clang", ["-std=c99", "-O0", "-g1", "-DKRIPTO_UNIX", "-fsanitize=thread", "-fno-builtin"]),
}
# what the compiler of the build only warns about must not stop the others
LAX = {"clang": ["-Wno-error=" + x for x in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-pointer-types", "incompatible-function-pointer-types")]}
REDEF = ["malloc", "calloc", "realloc", "free"]
REDEF_IO = ["fopen", "fread", "fclose", "getenv", "fgetc", "getc", "open", "read", "close", "setvbuf", "ferror", "feof", "fopen64", "fread_unlocked", "setbuf", "clearerr", "fileno", "secure_getenv", "getrandom", "getentropy"]

REDEF_STR = ["memcmp", "bcmp", "strcmp", "strncmp", "memchr", "memcpy", "memmove", "memset"]  # variants that trace accesses

class BuildError(Exception):
    pass

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

def repo_sources():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "lib")):
        for f in files:
            if f.endswith(".c"):
                out.append(os.path.join(root, f))
    return sorted(out)

def repo_headers():
    out = []
    for d in ("include", "lib"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(root, f) for f in files if f.endswith((".h", ".inc"))]
    return out

def _publish(tmp, dst):
    try:
        os.rename(tmp, dst)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.path.isdir(dst):
            raise

def prune(prefix, keep):
    """drop older build directories of the same kind (bounded disk use)"""
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "-*")), key=os.path.getmtime)
    for d in ds[:-4]:
        if d != keep and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)

def build_lib(variant):
    cc, flags = VARIANTS[variant]
    srcs = repo_sources()
    key = digest(srcs + repo_headers(), variant + cc + " ".join(flags) + "v4" + REPO)
    dst = os.path.join(BUILD, "lib-%s-%s" % (variant, key))
    lib = os.path.join(dst, "libk.a")
    if os.path.exists(lib):
        return lib
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        objs = []
        def one(s):
            o = os.path.join(tmp, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            run([cc] + flags + LAX.get(cc, []) + ["-w", "-I" + os.path.join(REPO, "include"), "-c", s, "-o", o])
            red = []
            for x in REDEF + REDEF_IO + (REDEF_STR if variant in ("tracepc", "tsan") else []):
                red += ["--redefine-sym", "%s=vf_%s" % (x, x)]
            run(["objcopy"] + red + [o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        run(["ar", "rcs", os.path.join(tmp, "libk.a")] + objs)
        _publish(tmp, dst)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    prune("lib-" + variant, dst)
    return lib

def build_golden(m32=False):
    g = os.path.join(VERIF, "ref", "golden")
    files = []
    for root, d, fs in os.walk(g):
        files += [os.path.join(root, f) for f in fs]
    key = digest(files, "goldv3" + ("m32" if m32 else ""))
    dst = os.path.join(BUILD, "gold-" + key)
    lib = os.path.join(dst, "libgold.a")
    if os.path.exists(lib):
        return lib
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        def one(s):
            o = os.path.join(tmp, os.path.relpath(s, g).replace("/", "_")[:-2] + ".o")
            run(["gcc"] + (M32 if m32 else []) + ["-std=c99", "-O2", "-w", "-DKRIPTO_UNIX", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-I" + os.path.join(g, "include"), "-c", s, "-o", o])
            run(["objcopy", "--prefix-symbols=g_", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, [f for f in sorted(files) if f.endswith(".c")]))
        run(["ar", "rcs", os.path.join(tmp, "libgold.a")] + objs)
        _publish(tmp, dst)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    prune("gold", dst)
    return lib

MINI = M32 + ["-std=gnu11", "-O2", "-w", "-ffreestanding", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]
def runs_m32():
    """whether this kernel runs 32-bit executables"""
    H = os.path.join(VERIF, "harness", "m32")
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        exe = os.path.join(tmp, "probe")
        run(["gcc"] + MINI + ["-static", "-nostdlib", "-no-pie", "-o", exe, os.path.join(H, "probe.c"), os.path.join(H, "mini.c")])
        return subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0
    except (OSError, subprocess.SubprocessError):
        return False
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def build_driver(name, variant="plain", sources=(), hflags=(), golden=False, libs=("-lm",), own=()):
    """links harness/<sources> + vf.c + the library of that variant"""
    lib = build_lib(variant)
    H = os.path.join(VERIF, "harness"); R = os.path.join(VERIF, "ref")
    srcs = [os.path.join(H, "vf.c")] + [os.path.join(VERIF, s) for s in sources]
    deps = srcs + glob.glob(H + "/*.h") + glob.glob(H + "/m32/*.c") + glob.glob(R + "/*.h") + repo_headers()
    gl = build_golden(variant == "m32") if golden else None
    key = digest(deps + [os.path.join(VERIF, x[0]) for x in own], "%s %s %s %s %s %s" % (name, variant, lib, gl, " ".join(hflags), own))
    dst = os.path.join(BUILD, "drv-%s-%s-%s" % (name, variant, key))
    exe = os.path.join(dst, name)
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        cc, flags = VARIANTS[variant]
        m32 = variant == "m32"
        san = [f for f in flags if f == "-fsanitize=address"]
        objs = []
        def one(s):
            o = os.path.join(tmp, os.path.basename(s)[:-2] + ".o")
            run(["gcc", "-std=gnu11", "-O2", "-g1", "-w", "-DKRIPTO_UNIX", "-DVF_VARIANT_" + variant] + san + list(hflags) +
                (M32 if m32 else []) + ["-I" + H, "-I" + R, "-I" + os.path.join(REPO, "include"), "-c", s, "-o", o])
            return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, srcs))
        for x in own:   # (source, compiler, flags...): harness sources with flags of their own
            o = os.path.join(tmp, os.path.basename(x[0])[:-2] + "-own.o")
            run([x[1]] + LAX.get(x[1], []) + [f.replace("@REPO@", REPO) for f in x[2:]] + ["-w", "-DKRIPTO_UNIX", "-I" + H, "-I" + R, "-I" + os.path.join(REPO, "include"), "-c", os.path.join(VERIF, x[0]), "-o", o])
            objs.append(o)
        if m32:
            o = os.path.join(tmp, "mini.o")
            run(["gcc"] + MINI + ["-c", os.path.join(H, "m32", "mini.c"), "-o", o])
            objs.append(o); libs = ()
            san = ["-m32", "-static", "-nostdlib"]
        run(["gcc"] + san + ["-no-pie", "-o", os.path.join(tmp, name)] + objs + [lib] + ([gl] if gl else []) + list(libs))
        _publish(tmp, dst)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    prune("drv-%s-%s" % (name, variant), dst)
    return exe
