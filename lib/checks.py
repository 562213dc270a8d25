"""What each property's check runs: drivers, variants, options, and the bounds they explore."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TITLES = {}
for l in open(os.path.join(VERIF, "properties.jsonl")):
    d = json.loads(l); TITLES[d["id"]] = d["title"]
CHECKS = {}
def check(pid, bounds, technique, note, runs, assumptions=()):
    CHECKS[pid] = dict(title=TITLES[pid], bounds=bounds, technique=technique, note=note, runs=runs, assumptions=list(assumptions))
def run(id, what, drv, src, opt, **kw):
    return dict(id=id, what=what, drv=drv, src=src, opt=opt, **kw)

HASH = ["harness/drv_hash.c", "harness/cat.c", "ref/refhash.c"]
NOGOLD = ("-DNO_GOLD",)
check("H01",
      "16 hashes, 2-3 digest sizes, with and without salt; every length 0..2 blocks+2 with every cut into two; every cut into three at 6 (quick) or 8 lengths around block boundaries; every sequence of up to 5 (6) pieces from {0,1,B-1,B,B+1,(B/2,2B)}; every cut of the digest into three and bytewise; large pieces: one piece of 2^k-1..2^k+1 bytes (k to 16 (19)) from 4 positions in a block, against short pieces; Skein digests of up to 70000 bytes in one call and in pieces",
      "stateless exhaustive exploration of call histories on the real code, differential oracle (one call)",
      "Every cut/piece sequence within the stated bounds is executed on the compiled library; contents are fixed patterns, so data-dependent splitting faults outside them are not excluded.",
      [run("split", "input/output splitting", "drv_hash", HASH, "split", hflags=NOGOLD)])
check("H02",
      "16 hashes; every length 0..4 blocks (12 thorough) for 4 contents; every digest length x 8 boundary lengths; every salt length 0..max (300/600 for Skein); supported round counts; every value of every byte of a one-block message; chains of 2000 (20000) digests",
      "exhaustive enumeration of bounded inputs/configurations on the real code against an independent executable model",
      "Agreement with reference implementations written from the specifications (validated at development time against libgcrypt, OpenSSL and Go x/crypto) on every enumerated configuration; not a proof for other contents.",
      [run("conf", "conformance to the reference model", "drv_hash", HASH, "conf", hflags=NOGOLD)],
      ["the reference models in /verif/ref follow the published specifications"])
BLOCK = ["harness/drv_block.c", "harness/cat.c", "ref/refhash.c"]
BB = "43 block ciphers; every key length x 6 (12) keys x families of blocks; every supported round count x every key length; every value of every byte of a maximal key and of a block; every combination of 5 boundary values over 4 words of 2, 4, 8 bytes in block and key; chains of 20000 (200000) blocks and of 4000 (40000) keys; for 32-bit blocks 2^22 blocks (thorough: the whole block space)"
check("B01", BB,
      "exhaustive enumeration of bounded inputs/configurations on the real code; inversion and in-place oracle",
      "Encrypt/decrypt inversion and in-place equality executed for every enumerated key, round count and block; other keys are not covered.",
      [run("inv", "inversion", "drv_block", BLOCK, "inv", golden=True)])
check("B02", BB,
      "exhaustive enumeration of bounded inputs/configurations on the real code against an executable model",
      "Agreement with frozen reference models of each cipher (cross-validated at development time against published vectors and independent libraries) on every enumerated key, round count and block.",
      [run("bconf", "conformance to the reference model", "drv_block", BLOCK, "bconf", golden=True)],
      ["the frozen models in /verif/ref/golden compute the published ciphers"])
check("B03",
      "5 tweakable ciphers; every tweak length x every single-bit tweak x 4 key lengths x 2 round counts; every pair of successive tweak lengths; every history of up to 5 (6) operations from {3 tweaks, 3 re-creations, encrypt, decrypt}",
      "stateless exhaustive exploration of call histories on the real code against a state model (key, rounds, current tweak)",
      "After every history within the bounds the cipher behaves as the model object with the last key and tweak; Threefish is modelled independently from its specification, TRAX by a frozen model.",
      [run("tweak", "tweak histories", "drv_block", BLOCK, "tweak", golden=True)])
OBJS = ["harness/objs.c", "harness/model.c", "harness/cat.c", "ref/refhash.c"]
MAC = ["harness/drv_mac.c"] + OBJS
check("M01",
      "107 MACs (HMAC over 16 hashes, OMAC and XCBC over 43 block ciphers, 5 keyed modes); every length 0..2 blocks+2 with every cut into two, every cut into three at 3-6 lengths, every sequence of up to 4 (5) pieces from {0,1,B-1,B,B+1,(2B,B/2)}, one-shot call; verification of the tag and of every single-bit change, byte changes, pairs of equal or opposite changes, swaps, altered heads and tails, for up to 7 parameter sets; large pieces of 2^k-1..2^k+1 bytes, k to 16 (19), from 4 positions in a block; tags (not HMAC's) read in every three pieces and bytewise after 6 lengths",
      "stateless exhaustive exploration of call histories on the real code, differential oracle (one call)",
      "Every cut/piece sequence and tag alteration within the bounds is executed on the compiled library; contents are fixed patterns.",
      [run("split", "message splitting and verification", "drv_mac", MAC, "split", golden=True)])
check("M02",
      "107 MACs; every message length 0..3 (9) blocks+3 for 3 keys; every key length (HMAC: to 2 blocks+5, thorough 900) x 6 lengths; every tag length x 6 lengths x short/long key; every supported round count x 3 key lengths; 48 (400) keys; byte values of a message",
      "exhaustive enumeration of bounded inputs/configurations on the real code against an executable model",
      "Agreement with models written from the definitions over reference hashes and frozen reference ciphers; HMAC's hash block is the one the library advertises (200/100 bytes for the Keccak family, recorded as a known finding for SHA-3).",
      [run("conf", "conformance to the definitions", "drv_mac", MAC, "conf", golden=True)],
      ["the reference models in /verif/ref follow the published specifications"])
STREAM = ["harness/drv_stream.c"] + OBJS
SB = "223 streams (5 modes over 43 block ciphers, 8 stream ciphers)"
check("S01",
      SB + ", 1-2 (7) parameter sets; both directions; every length 0..2 blocks+3 (whole-block modes: 7 (10) blocks) with every cut into two, each piece in place or not; every cut into three at one length; every sequence of up to 3 (4) pieces over {0,1,B-1,B,B+1,(2B)} x {separate, in place}; every sequence of up to 4 (5) keystream/encrypt calls against encrypting zeros; every position in the first blocks x every next length x {encrypt, in place, keystream} x alignments; inversion with every cut; 6000 (65536) bytes bytewise, by 61, by 1024; large pieces of 2^k-1..2^k+1 bytes, k to 16 (19), from 4 positions in a block",
      "stateless exhaustive exploration of call histories on the real code, differential oracle (one call; encrypting zeros; inversion)",
      "Every cut/piece/keystream sequence within the bounds is executed on the compiled library; contents are fixed patterns.",
      [run("split", "splitting, in place, inversion, keystream", "drv_stream", STREAM, "split", golden=True)])
check("S02",
      "5 modes over 43 block ciphers; both directions and the raw keystream; every length up to 5 blocks+3 (3 for 128-byte blocks) x 3 contents; every key length x IV lengths; every IV length; every supported round count; every run of trailing FF bytes in the IV, reached at each of the first 4 blocks, with three fillings of the rest; 700 (70000) blocks; IV byte values; 20 (200) keys",
      "exhaustive enumeration of bounded inputs/configurations on the real code against an executable model of the modes",
      "Agreement with models of the five modes over frozen reference ciphers on every enumerated configuration.",
      [run("modes", "mode definitions", "drv_stream", STREAM, "modes", golden=True)],
      ["the frozen models in /verif/ref/golden compute the published ciphers"])
check("S03",
      "ChaCha, Salsa20, RC4, Keccak (2) and Skein (3) streams; every length to 3-5 blocks; every key length x IV lengths; every IV length (to 300) x 3 key lengths; round counts 1..40 (RC4 drop counts 1..399 and larger); the first 2^16+ (2^18..2^20) blocks one by one; every counter carry 2^8..2^56 from 1-4 blocks before it x {keystream, encryption, decryption, all three in turn, pieces across blocks}, by moving the counter found in the object",
      "exhaustive enumeration of bounded inputs/configurations and of counter-carry states on the real code against an executable model",
      "Agreement with models of the stream ciphers on every enumerated configuration and position; positions beyond the first blocks are reached by moving the counter, validated at positions that were also really reached, and are left out if the counter cannot be identified.",
      [run("ciphers", "stream cipher definitions and positions", "drv_stream", STREAM, "ciphers", golden=True)],
      ["the reference models in /verif/ref follow the published specifications"])
AE = ["harness/drv_ae.c"] + OBJS
AB = "73 authenticated modes (EAX over 43 block ciphers, EAX2 over 30 stream/MAC pairs)"
check("A01",
      AB + "; every data length 0..2 blocks+2 with every cut on the sending and the receiving side, separate and in place; every header length 0..2 blocks+2 with every cut around the data; every sequence of up to 4 (5) header/data calls; every single-bit alteration of tag, ciphertext, header, nonce and key, equal/opposite changes of two tag bytes, whole-tag changes, block swaps, truncations, extensions and moves between header and data, for 4 (7) parameter sets and 2x2 (4x4) data and header lengths; large headers and data of 2^k-1..2^k+1 bytes, k to 15 (18), with a bit altered in the middle",
      "stateless exhaustive exploration of call histories and alterations on the real code",
      "Every history and alteration within the bounds is executed on the compiled library with tags of at least 4 bytes; alterations are judged for fixed contents.",
      [run("rt", "round trip and alterations", "drv_ae", AE, "rt", golden=True)])
check("A02",
      AB + "; every data length to 4 blocks+3 x 4 header lengths; every header length to 3 blocks+2; every nonce length (to 300); every key length; every tag length x 4 nonce lengths; every supported round count; 30 (300) keys and nonces; 700 (70000) blocks; encryption, tag, decryption and verification",
      "exhaustive enumeration of bounded inputs/configurations on the real code against an executable model",
      "Agreement with models of EAX and EAX2 over frozen reference ciphers, reference hashes and stream models on every enumerated configuration.",
      [run("conf", "conformance to the definitions", "drv_ae", AE, "conf", golden=True)],
      ["the reference models in /verif/ref follow the published specifications"])
OBJ = ["harness/drv_obj.c"] + [x for x in OBJS if "model" not in x]
PB = "453 primitives (16 hashes, 43 block ciphers, 98+ MACs, 223 streams, 73 authenticated modes)"
check("X01", PB + "; from each of 7 parameter sets, after every sequence of up to 2 (3) operations, re-creation with each of the 7 sets; every chain of three sets, used or unused in between; every continuation of up to 2 operations after a re-creation; every pair of key, IV and tag lengths (up to 40 x 12 x 12 values, one or two changing at a time), every pair of representative round counts",
      "stateless exhaustive exploration of call histories on the real code, differential oracle (fresh object)",
      "Every history and pair of parameter sets within the bounds is executed on the compiled library and its later outputs compared with those of a fresh object.",
      [run("recreate", "re-creation", "drv_obj", OBJ, "recreate", hflags=NOGOLD)])
check("X02", PB + "; two objects of one primitive: every interleaving at call granularity of two whole lives (create, 3-4 calls incl. re-creation, destroy), 2x2 lives x up to 7x7 parameter sets; each primitive with every other one under three schedules (alternating, nested both ways); every sequence of up to 5 (7) encrypt/decrypt calls on a block cipher object; sequences of tag and verification actions over two keys x two messages, nested or not",
      "stateless exhaustive exploration of interleavings of call histories on the real code, differential oracle (object alone)",
      "Every schedule within the bounds is executed on the compiled library; three and more objects at a time are not explored.",
      [run("indep", "independence", "drv_obj", OBJ, "indep", hflags=NOGOLD)])
check("X05", PB + " and PBKDF2/scrypt over every MAC; creation with 7 parameter sets, re-creation for every pair of sets from unused and used objects, one-shot calls, key derivation, descriptor constructors: the k-th allocation fails, or all from the k-th on, for every k; after each: heap empty, canaries, and a later object computes the same values; every use also runs with no memory left",
      "exhaustive fault injection: every allocation of every call fails, on the real code",
      "Complete for the entry points, parameter sets and histories listed: every allocation of each is failed.",
      [run("oom", "allocation failure", "drv_obj", OBJ, "oom", hflags=NOGOLD)])
check("X06", PB + " and PBKDF2/scrypt over every MAC; 7 parameter sets, every sequence of up to 2 (3) operations, then destruction or re-creation with each set; one-shot calls; every failing allocation in creation, re-creation and key derivation; each run with three different keys, IVs and data: the contents of every released heap block must be equal in the three",
      "stateless exhaustive exploration of call histories and allocation faults on the real code, noninterference of released memory",
      "Decides heap blocks only (the statement's scope); a block is judged secret-dependent if its released contents differ between three secrets.",
      [run("wipe", "released memory", "drv_obj", OBJ, "wipe", hflags=NOGOLD)])
check("X08", PB + " and PBKDF2/scrypt over every MAC; 7 parameter sets: 4 heap fills x 3 address shifts x 4 stack fills x 2 output fills; every sequence of up to 3 (4) operations followed by re-creation and use under 3 memories; optimised and unoptimised builds",
      "stateless exhaustive exploration of call histories x memory environments on the real code, differential oracle",
      "A dependence on uninitialised memory is seen if it changes an output under one of the explored fills.",
      [run("det", "stale memory", "drv_obj", OBJ, "det", hflags=NOGOLD), run("det0", "stale memory, unoptimised build", "drv_obj", OBJ, "det", hflags=NOGOLD, variant="o0")])
check("X13", PB + "; advertised sizes against the definitions' table; reported origin after creation, use and re-creation for 7x7 sets; every key (or salt), IV, tag (digest) and tweak length up to the advertised maximum, alone and with the others at their maxima; explicit default rounds against zero for every key length",
      "exhaustive enumeration of bounded configurations on the real code",
      "Complete over the lengths listed; unlimited keys are explored to 300-1000 bytes.",
      [run("meta", "limits and defaults", "drv_obj", OBJ, "meta", hflags=NOGOLD)])
check("X14", PB + " and PBKDF2/scrypt over every MAC; 7 parameter sets: every sequence of up to 2 (3) operations, destroyed directly or after re-creation with each set; 40 re-creations alternating between each two sets; one-shot calls, verification, two objects destroyed in both orders, descriptors, key derivation of boundary output lengths", "stateless exhaustive exploration of call histories on the real code with a monitored heap (blocks live, released twice, foreign)",
      "Every history within the bounds is executed with the library's allocator replaced by a monitored one; descriptors are released with free() as the headers say.",
      [run("own", "ownership of memory", "drv_obj", OBJ, "own", hflags=NOGOLD)])
check("X15", "453 primitives: keys, salts, IVs, tags and digests over the maximum by 1, 2, 7, 8, 64, 1000 and UINT_MAX, empty and absent keys, absent IVs of 6 lengths, at creation, re-creation and in one-shot calls; 7 parameter sets: every length below 3 blocks that is no number of blocks, after 0 or 1 blocks; digests overrun after every number of bytes; tags over the maximum by 7 amounts, EAX2 tags over 10+ lengths asked for by 9 amounts; tweaks of every length absent, over the maximum by 11 amounts; absent blocks, objects and descriptors in every call; scrypt N of 0..300, 2^k-1..2^k+1 and 2^64-64..2^64-1, r and p of zero, zero iterations, over 98 MACs; the same requests within the limits", "exhaustive enumeration of excessive requests on the real code, each in a process of its own; the monitored outcome is how the process ends", "Complete over the families of requests listed; numbers of rounds are X21's.",
      [run("limits", "excessive requests", "drv_misuse", ["harness/drv_misuse.c"] + OBJS[0:1] + OBJS[2:], "all", hflags=NOGOLD)], ["the library is built with assertions, as its build files do by default"])
KDF = ["harness/drv_kdf.c"] + OBJS
check("K01", "98 MACs with a fixed longest tag (HMAC over Keccak and Skein must be refused) and 6 tiny monitored MACs with tags of 1..64 bytes; every output length to 3 tags+2 (more tags, fewer iterations), every password length, every salt length to 3 blocks+5 and around powers of two to 20000 (69000) bytes, iterations 1..40 (300) and 255..65537, every supported round count, byte values at the ends; every failing allocation and every failing MAC (re-)creation; block counter to 2^24+3 (tiny MAC)", "exhaustive enumeration of bounded inputs, configurations and fault sequences on the real code against an executable model; monitored call protocol",
      "Agreement with a model of RFC 8018 over the reference MACs on every enumerated configuration; every allocation and every MAC (re-)creation of the explored calls is failed.", [run("pbkdf2", "PBKDF2", "drv_kdf", KDF, "pbkdf2", golden=True)], ["the reference models in /verif/ref follow the published specifications"])
check("K02", "every (N<=64 (1024), r<=9 (17), p<=5) for HMAC-SHA-256 and 6 tiny monitored MACs, (N<=4, r<=2, p<=2) for every other MAC; r to 257, p to 70 (1100), N to 2^12 (2^18) one at a time; every N=2^a, r=2^b or 2^b+1, p=2^c or 2^c+1 with a+b+c to 20 (23); every output length to 3 tags+2, password and salt lengths; every failing allocation and MAC (re-)creation; every (N=2^1..2^63, r and p within 1 of each power of two) whose memory exceeds a 64 KiB (1 MiB) limit must fail", "exhaustive enumeration of bounded inputs, configurations and fault sequences on the real code against an executable model; monitored call protocol",
      "Agreement with a model of RFC 7914 over the reference MACs on every enumerated configuration; the size arithmetic is decided for all power-of-two neighbourhoods by limiting the memory.", [run("scrypt", "scrypt", "drv_kdf", KDF, "scrypt", golden=True)], ["the reference models in /verif/ref follow the published specifications"])
MISC = ["harness/drv_misc.c"]
LTO = dict(own=(("harness/lto.c", "gcc", "-std=gnu11", "-O3", "-DMEMORY_C=\"@REPO@/lib/memory.c\""),), hflags=("-DLTO",))
LTOC = dict(own=(("harness/lto.c", "clang", "-std=gnu11", "-O3", "-DMEMORY_C=\"@REPO@/lib/memory.c\""),), hflags=("-DLTO",))
check("K03", "every message length to 530 (1100) x every block size 1..255 x 12 capacities around the limits (every capacity for short messages), buffers flush against inaccessible pages on both sides; removal: every last byte x fillings of the rest for every length, every value of the last two bytes for lengths to 20", "exhaustive enumeration of bounded inputs on the real code", "Complete over lengths, block sizes and last bytes listed; the round trip needs one removal per padded message.", [run("pkcs7", "PKCS#7", "drv_misc", MISC, "pkcs7")])
check("X09", "source opening refused or named by the environment; every request of 0..90 (300) bytes x every count delivered or error, every sequence of up to 3-4 requests with short reads, end of file and errors in between, requests to 70001 bytes; requested buffers flush against inaccessible pages", "exhaustive enumeration of fault sequences of the system source on the real code", "Every fault sequence within the bounds is injected below the library's input/output calls (stdio and POSIX calls redirected).", [run("source", "random source", "drv_misc", MISC, "source")])
check("X10", "12000 (120000) uniform samples of three generators; every stuck bit, constant byte, bit copied from another bit, bias, period 1..1024, counter, permutation, missing values, truncation; 8 families of flaws x 12 strengths x 2 directions x seeds judged against independently computed statistics", "exhaustive enumeration of families of sources on the real code", "A flawed sample is required to be refused only where an independently computed statistic is far out (above 4 standard deviations of a uniform sample), a uniform one to be accepted where all statistics are ordinary (2 standard deviations).", [run("selftest", "self-test", "drv_misc", MISC, "selftest")])
check("X11", "every length to 1100 (4200) for wiping and 700 (2100) for equality at both page ends x fillings, every length to 200 at every alignment mod 64, lengths to 2^20 (thorough 2^32+5); equality: every position x differences (every value at boundary positions), pairs of differing bytes, every pair of alignments mod 16; a wiped dying buffer of 1..512 bytes with link-time visible source in two optimising compilers", "exhaustive enumeration of bounded inputs on the real code in four builds", "Complete over the lengths and alignments listed, for gcc -O0/-O2/-O3 and clang.",
      [run("memory", "wipe and equality", "drv_misc", MISC, "memory+lto", **LTO), run("memory-o3", "wipe and equality, -O3", "drv_misc", MISC, "memory+lto", variant="o3", **LTOC),
       run("memory-clang", "wipe and equality, clang", "drv_misc", MISC, "memory", variant="clang"), run("memory-o0", "wipe and equality, -O0", "drv_misc", MISC, "memory", variant="o0")])
def H(id, what, cc, *fl): return run("helpers-" + id, "helpers, " + what, "drv_var", ["harness/drv_var.c"] + OBJS[0:1] + OBJS[2:], "helpers", hflags=NOGOLD + ("-DHELPERS",), own=(("harness/helpers.c", cc, "-std=gnu11") + fl,))
UB = ("-fsanitize=shift-exponent", "-fsanitize-undefined-trap-on-error")
def D(v): return run("lib-" + v, "whole library, build " + v, "drv_var", ["harness/drv_var.c"] + OBJS[0:1] + OBJS[2:], "digest", hflags=NOGOLD, variant=v)
check("X12", "7 families of helpers x 10 builds (gcc, clang, -O0..-O3, assembly or portable rotation, byte-wise, KRIPTO_LITTLE_ENDIAN or KRIPTO_BIG_ENDIAN load/store): every 8- and 16-bit value and 1800-5000 patterns of 32 and 64 bits for every rotation amount; every byte position, value, alignment; array load/store for every count 0..64 and every starting byte; the whole library (453 primitives, PBKDF2, scrypt): parameter sets, every key, IV, tag length, every sequence of three operations, alignments, compared between 7 builds (gcc -O0, -O2, -O3, clang, little-endian, portable, without assertions)", "exhaustive enumeration of bounded inputs in every build configuration on the real code; differential oracle between configurations", "The big-endian configuration is explored in mirror image (its word copies yield little-endian values on this machine); the whole library cannot run in it here.",
      [H("O2", "gcc -O2", "gcc", "-O2"), H("O0", "gcc -O0", "gcc", "-O0"), H("O3", "gcc -O3", "gcc", "-O3", "-march=native"), H("le", "little-endian configuration", "gcc", "-O2", "-DKRIPTO_LITTLE_ENDIAN"),
       H("port", "portable configuration, impossible shift counts trapped", "gcc", "-O2", "-include", "portable.h", *UB), H("ub", "impossible shift counts trapped", "gcc", "-O1", *UB),
       H("be", "big-endian configuration, in mirror image", "gcc", "-O2", "-DKRIPTO_BIG_ENDIAN"), H("clang", "clang -O2", "clang", "-O2"), H("clangp", "clang portable -O2", "clang", "-O2", "-include", "portable.h"), H("clangle", "clang little-endian", "clang", "-O3", "-DKRIPTO_LITTLE_ENDIAN"),
       run("lib-base", "whole library, reference build", "drv_var", ["harness/drv_var.c"] + OBJS[0:1] + OBJS[2:], "digest-write", hflags=NOGOLD, writes=True), D("le"), D("port"), D("o0"), D("o3"), D("clang"), D("ndebug")])
TIME = ["harness/drv_time.c"] + OBJS[0:1] + OBJS[2:]
check("X07", "equality of 1..260 (600) bytes x placements: every position x every difference, every pair of positions, every run of differing bytes from or to the ends, every set of differing positions to 12 (16) bytes, every value of both bytes; MAC and authenticated-mode verification over a trivial tag of 1..140 (255) bytes and for every MAC and authenticated mode of the library with every tag length; block, load and store traces of a clang -O2 build, instruction traces (single steps) of the ordinary gcc -O2 and -O3 builds for fewer lengths", "exhaustive enumeration of contents on the real code; instruction and address traces compared", "Traces are compared among all mismatching contents and among all matching ones; the result itself may be visible. The processor's own data-dependent timing is outside the model.",
      [run("trace", "block, load and store traces (clang -O2)", "drv_time", TIME, "trace", hflags=NOGOLD, variant="tracepc"),
       run("step", "instruction traces (gcc -O2)", "drv_time", TIME, "step", hflags=NOGOLD + ("-mno-red-zone",)),
       run("step-o3", "instruction traces (gcc -O3)", "drv_time", TIME, "step", hflags=NOGOLD + ("-mno-red-zone",), variant="o3")])
check("X04", "every one of the 453 primitives with every key (salt), IV, tag and tweak length to the maximum, every data length to 3 (6) blocks for every operation (in place and separate), every length after a first call of 8 lengths, every pair of alignments mod 16, every round count, every sequence of 3 (4) operations with re-creation, zero lengths, one-shot calls, PBKDF2 and scrypt for every MAC (output, password and salt lengths); inputs are views that cannot be written; buffers flush against inaccessible pages on both sides", "stateless exhaustive exploration of call histories, lengths and buffer placements on the real code; inaccessible pages and address checking as monitor", "The address-checked build sees accesses outside the library's own objects, tables and stack as well; the -O3 build shows what the optimised code touches.",
      [run("asan", "address-checked build", "drv_bounds", ["harness/drv_bounds.c"] + OBJS[0:1] + OBJS[2:], "bounds", hflags=NOGOLD, variant="asan"),
       run("o3", "gcc -O3 -march=native, inaccessible pages", "drv_bounds", ["harness/drv_bounds.c"] + OBJS[0:1] + OBJS[2:], "bounds", hflags=NOGOLD, variant="o3")])
check("X03", "each of the 453 primitives (and key derivation, one-shot calls, constructors, padding): 7 parameter sets x kinds of use x re-creation or all operations: every access to memory outside the task's objects and stack collected, no two tasks may conflict; two objects: one switch away and back at each of the first 1200 (60000) accesses or function entries of the first; a shared block object: directions x every first switch x every second switch where the product is below 40000 (4000000)", "systematic exploration of thread schedules on the real code under a controlled scheduler, reduced by independence (collected access sets); differential oracle (task alone)", "If tasks make no conflicting accesses, every interleaving of any number of them equals a sequential execution (independence), so the access sets decide all schedules; the executed schedules check that reduction. Atomic accesses count as synchronised; sequential consistency is assumed otherwise (without conflicting accesses weaker memory models add nothing).",
      [run("threads", "access sets and schedules", "drv_conc", ["harness/drv_conc.c"] + OBJS[0:1] + OBJS[2:], "threads", hflags=NOGOLD, variant="tsan")])
LONG = ["harness/drv_long.c", "harness/cat.c", "ref/refhash.c"]
check("X16", "5 stream ciphers x 4 key and IV lengths: from 1..6 blocks before the end of the counter, every number of blocks to 8 beyond it x {keystream, encryption, decryption} x 4 cuts; 6 hashes: from 1..3 blocks before the limit, every message end from one byte below it to 3 blocks beyond x 5 ways to feed it", "exhaustive enumeration of requests and message ends around the end of every counter on the real code, each in a process of its own, against an executable model", "The last positions are reached by moving the counter found in the object, validated at positions that were also really reached; left out if the counter cannot be identified.",
      [run("stream", "end of the block counter", "drv_stream", STREAM, "exhaust", golden=True), run("hash", "limit of the message length", "drv_long", LONG, "exhaust", hflags=NOGOLD)], ["the library is built with assertions, as its build files do by default"])
PLUG = ["harness/drv_plug.c"]
check("X17", "toy primitives of the harness that monitor how they are called: ECB, CBC, CFB, OFB, CTR and XCBC over every block size 1..255 and 12 more to 1024, OMAC and EAX over every size 1..255, x 6 (12) key and IV sets x directions x every sequence of 2-3 pieces around the block, before and after re-creation; HMAC over 30 hash block sizes x digests x key lengths; EAX2 over 20 pairs of key limits x 4 IV x 4 tag limits x 2 data units; every failing creation and re-creation; every generic call with 10 x 10 sizes to UINT_MAX and 7 lengths to SIZE_MAX; verification of 1..64 bytes with every altered bit; one-shot MAC x failing creation", "exhaustive enumeration of bounded call histories, configurations and fault sequences on the real code over monitored application-supplied primitives, against an executable model", "The toy primitives judge every call they receive (descriptor, object state, sizes, round count); the polynomials of the model were searched for independently (dev/poly.cpp). A MAC over a hash cannot report a failure inside its tag call, so failures are explored in creation and re-creation calls only.",
      [run("plug", "plug-in primitives", "drv_plug", PLUG, "all", hflags=NOGOLD), run("plug-asan", "plug-in primitives, address-checked build", "drv_plug", PLUG, "all", hflags=NOGOLD, variant="asan")])
check("X18", "one call of 2^32+133 bytes (thorough: 7 lengths around 2^31 and 2^32) after and before other data: 13 stream ciphers and block modes x {encryption, decryption, keystream}; 8 MAC constructions, one-shot calls of the generic MAC interface; EAX and EAX2 x {encryption, decryption, header}; PBKDF2 output of 2^32+133 (3 lengths) bytes; 3 Skein MACs with the position moved to just before every 2^35..2^98 bits from 1, 2 and 3 blocks before, every end within 4 blocks x 5 (all) cuts", "exhaustive enumeration of calls x lengths around the word sizes on the real code; differential oracle (pieces; the calls of one cipher among each other) and executable models", "Lengths are really passed; block modes, HMAC, EAX and EAX2 run over small fast primitives plugged in through the descriptor interface. Output is compared in windows at the beginning, around 2^31 and from 2^32 to the end; everything between is written into folded memory. In the quick tier the library's own ciphers are compared among their three calls. Skein MAC positions use a moved counter as in H03.",
      [run("big", "calls beyond 2^32 bytes", "drv_big", ["harness/drv_big.c"], "all", hflags=NOGOLD + ("-O2",), variant="o3"), run("skein", "positions of Skein MACs", "drv_long", LONG, "keyed+move", hflags=NOGOLD)])
RAND = ["harness/drv_rand.c"]
def RN(id, what): return run(id, what, "drv_rand", RAND, "x", hflags=NOGOLD + ("-DRAND_" + id.upper(),))
check("X19", "random.c in its RtlGenRandom, CryptGenRandom and built-in configurations, over monitored stand-ins of the system interface, scrypt and the clock; Windows: requests of 0..300 bytes and around every multiple of 2^31 and 2^32 (folded memory) x failing calls, every failing step of creation; built-in: every sequence of up to 4 requests from a set of lengths around the reseeding limits x passing of time x every failing seeding, allocation or stream creation, at the default limits and at small ones (100 bytes, 10 s) that allow every length", "stateless exhaustive exploration of request, time and fault histories on the real code, against an executable model", "The system interfaces are stand-ins that record what they are asked (no Windows here); scrypt is replaced by a function the model knows, so that seeding costs nothing.",
      [RN("rtl", "RtlGenRandom"), RN("crypt", "CryptGenRandom"), RN("builtin", "built-in generator"), RN("small", "built-in generator with small limits")])
def M32(id, what, drv, src, opt, **kw): return run(id, what, drv, src, opt, variant="m32", **kw)
VAR = ["harness/drv_var.c"] + OBJS[0:1] + OBJS[2:]
LONGER = ("thorough",)
MANY = ["harness/drv_misuse.c"] + OBJS[0:1] + OBJS[2:]
check("X21", "16 hashes, 43 block ciphers, 8 stream ciphers: every number of rounds 1..300 with the longest key (digest), 1..70 with every other length, at creation and re-creation, followed by input, encryption and decryption (thorough: 1..2200 and 1..300); an address-checked build sees reads and writes outside tables and objects; primitives whose memory grows with the rounds (block ciphers, their modes and MACs, EAX2 over them): every count within 3 of a power of two from 2^13 to 2^31, within 80 of UINT_MAX, within 5 of every multiple of 2^32 over the growth per round (modes: within 1, 4, 1) must fail or hold the memory its key schedule takes", "exhaustive enumeration of numbers of rounds on the real code, each in a process of its own; the monitored outcomes are accesses outside, memory held and how the process ends", "Complete over the counts listed. What unsupported counts compute is not judged.",
      [run("any", "numbers of rounds", "drv_misuse", MANY, "any", hflags=NOGOLD), run("asan", "numbers of rounds, address-checked build", "drv_misuse", MANY, "any2", hflags=NOGOLD, variant="asan"),
       run("many", "huge numbers of rounds", "drv_misuse", MANY, "many", hflags=NOGOLD), run("many-m32", "huge numbers of rounds, 32-bit build", "drv_misuse", MANY, "many", hflags=NOGOLD, variant="m32")], ["the library is built with assertions, as its build files do by default"])
check("X20", "a 32-bit (i386) build of the library: 453 primitives, PBKDF2, scrypt: parameter sets, every key, IV, tag length, every sequence of three operations, alignments, compared with the 64-bit build; in it the explorations of H02, B01, B02, B03, M02, S02, A02, K01, K02 (memory sizes: N 2^1..2^63 x r and p around every power of two to 2^32), X04, X05, X13, X14, X15, X17 and X19; messages of more than 2^32 bytes in pieces for 13 hashes (all ends and cuts around it); thorough: those of H01, M01, S01, A01, X01, X02, X06, X08, K03, X09, X10 too", "exhaustive enumeration of bounded inputs, parameters, call histories and faults on the real code in a 32-bit build; differential oracle (64-bit build) and executable models", "No 32-bit C library is installed; the executables run on a small one of the harness (harness/m32), so what the C library itself does is outside. Lengths of single calls stay below 2^29 bytes there.",
      [run("base", "reference results of the 64-bit build", "drv_var", VAR, "digest-write", hflags=NOGOLD, writes=True), M32("lib", "whole library", "drv_var", VAR, "digest", hflags=NOGOLD),
       M32("hash", "hashes", "drv_hash", HASH, "conf", hflags=NOGOLD), M32("block", "block ciphers", "drv_block", BLOCK, "inv+bconf+tweak", golden=True), M32("mac", "MACs", "drv_mac", MAC, "conf+m32", golden=True),
       M32("modes", "block modes", "drv_stream", STREAM, "modes", golden=True), M32("ciphers", "stream ciphers", "drv_stream", STREAM, "ciphers", golden=True), M32("ae", "authenticated modes", "drv_ae", AE, "conf", golden=True),
       M32("kdf", "key derivation", "drv_kdf", KDF, "pbkdf2+scrypt", golden=True), M32("bounds", "bounds", "drv_bounds", ["harness/drv_bounds.c"] + OBJS[0:1] + OBJS[2:], "bounds", hflags=NOGOLD),
       M32("obj", "failures, limits, ownership", "drv_obj", OBJ, "oom+meta+own", hflags=NOGOLD), M32("limits", "excessive requests", "drv_misuse", ["harness/drv_misuse.c"] + OBJS[0:1] + OBJS[2:], "all", hflags=NOGOLD),
       M32("plug", "plug-in primitives", "drv_plug", PLUG, "all", hflags=NOGOLD), M32("gen", "built-in generator", "drv_rand", RAND, "x", hflags=NOGOLD + ("-DRAND_SMALL",)),
       M32("long", "long messages", "drv_long", LONG, "walk+counters", hflags=NOGOLD),
       M32("split", "hash splitting", "drv_hash", HASH, "split", hflags=NOGOLD, tiers=LONGER), M32("macsplit", "MAC splitting", "drv_mac", MAC, "split", golden=True, tiers=LONGER), M32("ssplit", "mode splitting", "drv_stream", STREAM, "split", golden=True, tiers=LONGER),
       M32("rt", "authenticated round trips", "drv_ae", AE, "rt", golden=True, tiers=LONGER), M32("lives", "lives", "drv_obj", OBJ, "recreate+indep+wipe+det", hflags=NOGOLD, tiers=LONGER), M32("misc", "padding, random sources", "drv_misc", MISC, "pkcs7+source+selftest", golden=True, tiers=LONGER)],
      ["the 32-bit C library stand-in of the harness is right"])
check("H03", "16 hashes; messages really fed in pieces of 14 sizes (1 byte to 2^28) to just before 2^29 and 2^32 bytes (thorough: 2^31 too), from there every message end within 4 blocks and every cut into two; input calls and one-shot calls of more than 2^32 bytes (thorough: 8 combinations with bytes before and after, 2^31); the length counter moved to just before every 2^35..2^67 bits the specification allows, from 1, 2 and 3 blocks before, and every 2^68..2^123 bits (Skein: 2^98) from 1 and 2 (3) blocks before, every end within 4 blocks x 5 (thorough: all) cuts", "exhaustive enumeration of message ends and cuts around every length threshold on the real code (really reached, or with the length counter moved), against an executable model", "Thresholds up to 2^32 bytes are really reached.  Higher ones use a moved counter: it is accepted only if messages at four lower positions, among them beyond 2^32 bytes, come out right; the word above 64 bits is recognised by the carry into it; a hash whose counter is not recognised is not explored there (all 13 with a counter are, on the current tree). The reference states before the thresholds are stored, recomputed in the thorough tier, and agree with Python's hashlib where that has the hash.",
      [run("move", "higher thresholds", "drv_long", LONG, "move", hflags=NOGOLD),
       run("real", "really reached thresholds", "drv_long", LONG, "walk+call", hflags=NOGOLD, variant="o3")],
      ["the reference models in /verif/ref follow the published specifications"])
