#!/usr/bin/env python3
# Development helper: writes /verif/properties.jsonl.
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
           why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("H01","Hash output does not depend on how data is split across calls",
  "For every hash function, feeding a message in any sequence of pieces (including empty pieces) and reading the digest in any sequence of pieces yields exactly the bytes that one input call and one output call yield. The one-shot call yields the same bytes as the incremental interface.",
  ["histories","inputs"],"all 16 hashes; all messages lengths and all ways to cut input and output into calls",
  "The vector tests call input once or twice with a few fixed lengths; cut points inside, at and across internal block boundaries and split outputs are never enumerated.",
  ["lib/hash.c","lib/hash/"],[("partial-block buffering",  "lib/hash/*.c input functions (s->i, s->buf)"),("output position","lib/hash/*.c output functions"),("one-shot","lib/hash/*.c hash_all")],
  ["kripto_hash_input","kripto_hash_output","kripto_hash_all"],
  [("s->i / buf / o","position in the block being absorbed or squeezed","lib/hash/*.c structs")])
p("H02","Each hash computes its published function",
  "For every message, digest length, supported salt and round count, each hash returns the value its specification defines: MD5, SHA-1, SHA-2, SHA-3 and Keccak, Tiger, Whirlpool, BLAKE, BLAKE2, Skein. A round count of zero means the published default, and digests shorter than the native size select the published variant (or truncation) for that size.",
  ["inputs","configurations"],"all message contents and lengths, digest lengths 1..max, salt lengths 0..max, supported round counts",
  "Vector tests cover a handful of messages for 8 of 16 hashes; BLAKE, BLAKE2, Skein and Keccak-800 have no tests and padding edge lengths, salts, digest lengths and round counts are unexplored.",
  ["lib/hash/"],[("compression functions and padding","lib/hash/*.c process/finish functions"),("digest-length and salt parameters","lib/hash/*.c create/recreate functions")],
  ["kripto_hash_output","kripto_hash_all"])
p("H03","Hash length counters stay exact for very long messages",
  "A hash of a message of any length up to the specification's limit is correct, in particular when the number of bytes or bits hashed so far passes 2^32 and when a single input call passes 2^32 bytes. The message length never wraps, truncates or loses a carry.",
  ["inputs","histories"],"messages whose byte or bit count crosses 2^32 (and, by state injection, higher counter words), in one call or many",
  "The longest test message is about a million bytes; no test reaches any carry between counter words.",
  ["lib/hash/"],[("length counters","lib/hash/md5.c, sha1.c, sha2_*.c, tiger.c, whirlpool.c, blake*.c, skein*.c (s->len, tweak words)")],
  ["kripto_hash_output"],[("length counter words","bytes or bits absorbed","hash structs")])
p("M01","MAC tags are split-invariant and verification accepts exactly them",
  "For every MAC construction, the tag does not depend on how the message is split into input calls, the one-shot call agrees with the incremental one, OMAC, XCBC, Skein and Keccak MACs give the same tag when it is read in pieces, and verification reports success if and only if all presented tag bytes equal the computed ones.",
  ["histories","inputs"],"all MACs and inner primitives, all cuts of the message, all tag lengths, all single-bit and single-byte alterations of a tag",
  "Tests use one or two input calls, never call verify with wrong tags, and skip Skein and Keccak MACs entirely.",
  ["lib/mac.c","lib/mac/"],[("buffering of the last block","lib/mac/omac.c, xcbc.c, skein*.c input"),("verification","lib/mac.c kripto_mac_verify")],
  ["kripto_mac_input","kripto_mac_tag","kripto_mac_verify","kripto_mac_all"])
p("M02","MACs compute their definitions over any inner primitive",
  "HMAC over every hash, OMAC (CMAC) and XCBC-MAC over every block cipher, and the keyed Skein and Keccak modes return the value their definitions give for every key length, message length and tag length. Keys longer than a block are hashed first by HMAC.",
  ["inputs","configurations"],"all inner hashes and block ciphers, key lengths 1..beyond one block, all message lengths, all tag lengths, inner round counts",
  "Tests pin a few RFC vectors with MD5/SHA and AES-size blocks; subkey doubling for other block sizes, key lengths around the block size and short tags are not tested.",
  ["lib/mac/"],[("key processing","lib/mac/hmac.c create/recreate"),("subkeys and final-block rule","lib/mac/omac.c, lib/mac/xcbc.c"),("keyed UBI","lib/mac/skein*.c"),("key-prefixed sponge","lib/mac/keccak*.c")],
  ["kripto_mac_tag","kripto_mac_all"])
p("B01","Block decryption inverts encryption under every key",
  "For every block cipher, every key of every allowed length, every supported round count and every tweak, decrypting an encrypted block returns the original and encrypting a decrypted block returns the original. This holds also when input and output are the same buffer.",
  ["inputs","configurations"],"all block ciphers, key lengths 1..max, supported rounds, all plaintext blocks",
  "Vector tests check a few keys at standard lengths and rounds, never in place, so keys or rounds for which the inverse schedule is wrong go unseen.",
  ["lib/block.c","lib/block/"],[("encrypt/decrypt pairs and key schedules","lib/block/*.c")],
  ["kripto_block_encrypt","kripto_block_decrypt"])
p("B02","Block ciphers compute the published permutation",
  "For every key of every allowed length and every block, each block cipher produces the ciphertext its specification defines, with round count zero meaning the published default for that key length.",
  ["inputs","configurations"],"all block ciphers, key lengths 1..max, rounds, all blocks",
  "Each cipher has a handful of vectors, which touch a fraction of the S-box entries, carries and key-length branches.",
  ["lib/block/"],[("key schedule and rounds","lib/block/*.c setup, encrypt, decrypt"),("default rounds","lib/block/*.c create/recreate")],
  ["kripto_block_encrypt","kripto_block_decrypt"])
p("B03","A tweak selects the permutation exactly and resets on rekey",
  "For every tweakable block cipher, encryption and decryption depend on the key and on the most recently set tweak only, not on earlier tweaks; a tweak shorter than the maximum behaves as if extended with zero bytes. A freshly created or re-created cipher behaves as under the all-zero tweak.",
  ["histories","inputs"],"all sequences of tweak, rekey, encrypt and decrypt calls; all tweak lengths",
  "Tests set at most one tweak on one object.",
  ["lib/block.c","lib/block/threefish256.c","lib/block/threefish512.c","lib/block/threefish1024.c","lib/block/trax_m.c","lib/block/trax_l.c"],
  [("tweak words and parity word","lib/block/threefish*.c tweak"),("tweak words","lib/block/trax_*.c tweak")],
  ["kripto_block_tweak","kripto_block_encrypt"])
p("S01","Streams are split-invariant, in-place safe and invertible",
  "For every stream cipher and block mode, processing data in any sequence of pieces (multiples of the unit the stream reports) gives the same bytes as one call, in-place processing gives the same bytes as separate buffers, and decryption with the same key and IV returns the plaintext. The raw keystream call yields the bytes that encrypting zeros yields and advances the stream identically.",
  ["histories","inputs"],"all streams and modes; all mixes of encrypt, decrypt and keystream calls of any sizes",
  "Tests use a few fixed calls on CTR, ChaCha and Salsa20 only; CBC, CFB, OFB, ECB, RC4, Keccak and Skein streams are untested.",
  ["lib/stream.c","lib/stream/"],[("keystream position and feedback register","lib/stream/*.c (used, prev, buf)")],
  ["kripto_stream_encrypt","kripto_stream_decrypt","kripto_stream_prng"],
  [("keystream offset","bytes of the current block already used","lib/stream/*.c structs")])
p("S02","Block modes follow their definitions for every block cipher",
  "ECB, CBC, CFB, OFB and CTR over any block cipher produce exactly the sequence their definitions give from the block permutation, for every IV and length; a short IV is extended with zero bytes. The CTR counter is the whole block read as one big-endian number, incremented modulo 2^blocksize.",
  ["inputs","configurations"],"all block ciphers as inner cipher, all IV lengths and values including counter carries of every length, all data lengths",
  "Only AES-CTR with one counter start is tested; carries past one byte and the other modes are not.",
  ["lib/stream/cbc.c","lib/stream/cfb.c","lib/stream/ofb.c","lib/stream/ctr.c","lib/stream/ecb.c"],
  [("feedback and counter update","lib/stream/ctr.c, cfb.c, ofb.c, cbc.c, ecb.c")],["kripto_stream_encrypt","kripto_stream_decrypt"])
p("S03","Stream ciphers generate their published keystream at every position",
  "ChaCha, Salsa20 (and their extended-nonce forms), RC4, and the Skein and Keccak stream modes generate the keystream their definitions give for every key length, nonce length and round count, at every position. The block counter carries across its words, so the keystream never repeats early.",
  ["inputs","configurations"],"all key lengths, nonce lengths and supported rounds; all positions, with state injection near counter carries",
  "ChaCha and Salsa20 have a few vectors; RC4, Skein and Keccak streams have none, and no test reaches a counter carry.",
  ["lib/stream/"],[("state setup and block function","lib/stream/chacha.c, salsa20.c, rc4.c, skein*.c, keccak*.c")],
  ["kripto_stream_prng","kripto_stream_encrypt"],[("block counter","64-bit block index in two words","lib/stream/chacha.c, salsa20.c")])
p("A01","Authenticated encryption round-trips and detects any alteration",
  "For every authenticated mode, a receiver with the same key, nonce and header recovers the plaintext and verifies the tag however the data is cut into calls and whether or not processing is in place. Altering any bit of the nonce, header, ciphertext or tag, or any key bit the cipher uses, makes verification fail.",
  ["histories","inputs"],"EAX and EAX2 over inner primitives; interleavings of header and data calls, cuts, nonce/header/data/tag lengths; every single-bit alteration",
  "Tests check EAX-AES with 16-byte nonces in one call per step; no tampering, no other nonce lengths, no EAX2.",
  ["lib/ae.c","lib/ae/"],[("MACing of nonce, header, ciphertext","lib/ae/eax.c, lib/ae/eax2.c"),("verification","lib/ae.c kripto_ae_verify")],
  ["kripto_ae_encrypt","kripto_ae_decrypt","kripto_ae_tag","kripto_ae_verify"])
p("A02","EAX and EAX2 compute their definitions",
  "For every nonce, header and plaintext, EAX over any block cipher yields the ciphertext and tag prefix that the EAX definition gives from that cipher's CMAC and CTR mode, and EAX2 yields those of the generic composition of its stream cipher and MAC. The result never depends on anything but the inputs.",
  ["inputs","configurations"],"all inner ciphers/MACs, nonce lengths 0..max, key lengths, tag lengths, data and header lengths",
  "Only ten AES vectors with 16-byte nonces exist, which hide nonce-length dependence; EAX2 has none.",
  ["lib/ae/eax.c","lib/ae/eax2.c"],[("three tweaked MAC passes and CTR start","lib/ae/eax.c"),("key splitting and composition","lib/ae/eax2.c")],
  ["kripto_ae_encrypt","kripto_ae_tag"])
p("K01","PBKDF2 computes RFC 8018 output for any MAC and length",
  "For every MAC, password, salt, iteration count and output length, the derived key is that of PBKDF2 over that MAC; shorter outputs are prefixes of longer ones. Failure is reported and never silently yields a key.",
  ["inputs","configurations","fault_sequences"],"MACs over all hashes and key lengths, iterations, output lengths around multiples of the tag length",
  "Tests use HMAC-SHA1/SHA-2 vectors with few output lengths.",
  ["lib/pbkdf2.c"],[("block index and iteration chaining","lib/pbkdf2.c")],["kripto_pbkdf2"])
p("K02","scrypt computes RFC 7914 output for any cost parameters",
  "For every password, salt, power-of-two N, block size r, parallelism p and output length, the derived key is the one RFC 7914 defines. Parameters whose memory cannot be obtained are reported as failure.",
  ["inputs","configurations"],"all small (N,r,p), password/salt/output lengths; extreme r, p against size arithmetic",
  "The tests run three RFC vectors, all with r of 1 or 8.",
  ["lib/scrypt.c"],[("BlockMix, ROMix, Integerify and memory layout","lib/scrypt.c")],["kripto_scrypt"])
p("K03","PKCS#7 padding round-trips and stays inside the buffer",
  "For every message length, block size 1..255 and buffer capacity, adding padding either writes between 1 and block-size bytes that make the length a multiple and removal returns the original length, or reports failure without writing outside the buffer. Removal never reports a length above the input length.",
  ["inputs"],"all lengths 0..N, pad sizes 1..255, capacities; all contents of the final bytes for removal",
  "There is no test for padding.",
  ["lib/pkcs7.c"],[("add/remove","lib/pkcs7.c")],["kripto_pkcs7_add","kripto_pkcs7_rem"])
p("X01","Re-creating an object is indistinguishable from creating a new one",
  "After any history of use, re-initialising any hash, MAC, stream, block cipher or authenticated-mode object with new parameters gives an object whose every later output equals that of a freshly created one with those parameters. Nothing of the earlier key, IV, tweak, message or position leaks into later results.",
  ["histories","configurations"],"all object kinds; pairs of parameter sets (key length, rounds, IV length, tag length); every bounded operation history before the re-creation",
  "Tests re-create with identical sizes from few states; changed rounds or key lengths, which reallocate, are not exercised.",
  ["lib/hash/","lib/mac/","lib/stream/","lib/block/","lib/ae/"],[("recreate functions","every *_recreate in lib/")],
  ["kripto_*_recreate followed by outputs"])
p("X02","Objects are independent and cipher objects are reusable",
  "Operations on one object never change the results of operations on another, for any interleaving of calls on several objects of the same or different kinds. Block encryption and decryption leave the cipher object's behaviour unchanged.",
  ["histories","schedules"],"all interleavings at call granularity of two objects' bounded histories, all object kinds and pairs of inner primitives",
  "Tests use one object at a time.",
  ["lib/"],[("no shared writable state; inner objects owned by outer ones","lib/*/*.c structs")],["all outputs"])
p("X03","Distinct objects may be used concurrently from several threads",
  "Threads that each use their own objects get the same results as when run alone, under every interleaving of their memory accesses, and several threads may encrypt and decrypt with one shared block-cipher object. The library performs no conflicting unsynchronised accesses to shared memory in these uses.",
  ["schedules"],"all pairs of operations in two threads, all interleavings (reduced by independence)",
  "All tests are single-threaded.",
  ["lib/"],[("absence of writable static data","lib/*/*.c")],["outputs of each thread","memory access sets"])
p("X04","No call touches memory outside the buffers it is given",
  "For every allowed parameter combination, a call reads only the stated bytes of its inputs, writes exactly the stated bytes of its output, never writes to its inputs and never accesses memory outside its own objects. Zero lengths are accepted and touch nothing.",
  ["inputs","histories","configurations"],"all entry points; all lengths of key, IV, salt, tag, data around internal boundaries, every buffer placed flush against inaccessible or poisoned memory and at every alignment",
  "Ordinary tests cannot see stray reads or writes, and use only standard lengths.",
  ["lib/"],[("length handling in every create/input/output function","lib/*/*.c")],["guard zones around every caller and heap buffer"])
p("X05","Allocation failure is reported cleanly",
  "If any memory allocation inside a call fails, the call reports failure (null object or error code), nothing crashes, no memory that the call obtained is leaked and no key material is left behind. A failed re-creation consumes the object, and later calls with enough memory succeed.",
  ["fault_sequences"],"every allocating entry point, failure of the k-th allocation for every k",
  "Tests never see malloc fail.",
  ["lib/"],[("error paths of create/recreate/all functions","lib/*/*.c")],["return value, heap state at return"])
p("X06","No secret remains in released memory",
  "When an object is destroyed or re-created, or a one-shot or key-derivation call returns (including on failure), every heap block the library releases no longer contains key-dependent or message-dependent data.",
  ["histories","fault_sequences","inputs"],"all object kinds and one-shot calls; every bounded history before destruction; each key length; each failing allocation",
  "Tests cannot see freed memory.",
  ["lib/"],[("kripto_memory_wipe before free","every destroy/recreate/all function in lib/")],["contents of each heap block at free"])
p("X07","Tag comparison takes time independent of the tag contents",
  "Comparing memory and verifying a MAC or authenticated-mode tag execute the same instructions and touch the same addresses whatever the compared bytes are, so timing does not reveal the position of a mismatch.",
  ["inputs"],"all lengths up to a bound, all mismatch positions and pairs of positions, for comparison and for all verify functions",
  "Functional tests see only the result.",
  ["lib/memory.c","lib/mac.c","lib/ae.c"],[("accumulating comparison","lib/memory.c kripto_memory_equals"),("verify","lib/mac.c, lib/ae.c")],["instruction and address trace of the call"])
p("X08","Results depend on inputs only, never on stale memory",
  "Every output is a function of the arguments and call history alone: repeating a history with different prior contents of heap, stack and output buffers, or at different addresses, gives identical bytes.",
  ["histories","inputs"],"all entry points and bounded histories, under every initial-memory pattern of a set and several buffer placements",
  "A single run cannot reveal dependence on uninitialised memory.",
  ["lib/"],[("initialisation of every struct field and local","lib/*/*.c")],["all outputs"])
p("X09","The random source never delivers bytes it did not obtain",
  "The random generator returns the number of bytes actually read from the system source, writes exactly those bytes in order and nothing beyond them, and reports failure when the source cannot be opened; short reads and errors are visible to the caller. Destroying the generator closes the source.",
  ["fault_sequences","histories"],"all bounded sequences of open failures, short reads, end of file and read errors, all request sizes up to a bound",
  "No test exercises the random source or any failure of it.",
  ["lib/random.c"],[("device open/read/close","lib/random.c")],["kripto_random_create","kripto_random_gen","kripto_random_destroy"])
p("X10","The random self-test accepts uniform data and rejects degenerate data",
  "The source self-test returns success for samples with the statistics of uniform random bytes and failure for stuck, constant, strongly biased or correlated, short-period or truncated sources.",
  ["inputs","fault_sequences"],"samples of deterministic uniform generators; every stuck-at bit, constant byte, short period, missing value set, and truncation",
  "No test calls it.",
  ["lib/random.c"],[("statistics thresholds","lib/random.c kripto_random_test")],["kripto_random_test"])
p("X11","Memory wipe clears and memory equality compares every byte",
  "Wiping sets every byte of the given range, and no other byte, to zero, in optimised builds too; equality is true exactly when all bytes of the ranges agree, and true for empty ranges.",
  ["inputs"],"all lengths up to a bound, alignments, all positions and values of a differing byte",
  "No test covers these two functions.",
  ["lib/memory.c"],[("volatile access","lib/memory.c")],["kripto_memory_wipe","kripto_memory_equals"])
p("X12","Word load, store and rotate helpers are exact in every configuration",
  "The public helpers that load, store and rotate 8- to 64-bit words give the documented little- or big-endian value and rotation for every value, byte count and rotation amount, in every supported build configuration. The whole library gives identical results in each of these configurations.",
  ["inputs","configurations"],"all helpers, all byte positions and values, all rotation amounts, portable and optimised variants, optimisation levels",
  "Tests run in one configuration only and reach helpers indirectly.",
  ["include/kripto/loadstore.h","include/kripto/rotate.h"],[("helper functions","include/kripto/loadstore.h, include/kripto/rotate.h")],["helper return values"])
p("X13","Advertised limits and defaults are true",
  "The sizes each primitive advertises (block size, maximal key, IV, tag, salt, digest and tweak length, data unit) are those of its definition, every parameter up to its advertised maximum is usable, and an object reports the primitive it was created from. Explicitly asking for the default number of rounds, where a primitive accepts an explicit number, gives the same results as asking for zero.",
  ["configurations"],"all primitives, all inner primitives of compositions, every parameter value up to the advertised maximum",
  "Tests read none of the limits and use one or two parameter values.",
  ["lib/hash.c","lib/mac.c","lib/stream.c","lib/block.c","lib/ae.c","lib/"],[("descriptors","static const descriptor structs and kripto_mac_*/kripto_stream_*/kripto_ae_* constructors")],["kripto_*_max*, kripto_*_getdesc, kripto_block_size"])
p("X14","Memory is owned and released exactly once",
  "Destroying an object releases every heap block it obtained, exactly once, and nothing that belongs to another object; its descriptor stays usable and is released by one free. One-shot, verification and key-derivation calls leave nothing allocated, and repeated use or re-creation of an object does not accumulate memory.",
  ["histories","configurations"],"all primitives; all histories of create, use, re-create and destroy over one or two objects, with any parameters",
  "Tests create and destroy each object once and never look at the heap; leaks and double releases on re-creation with other sizes or on rarely used paths go unnoticed.",
  ["lib/hash.c","lib/mac.c","lib/ae.c","lib/pbkdf2.c","lib/scrypt.c","lib/"],[("create/recreate/destroy","*_create, *_recreate, *_destroy in lib/*/*.c"),("inner objects","lib/mac/*.c, lib/stream/*.c, lib/ae/*.c"),("one-shot calls","kripto_hash_all, kripto_mac_all")],["malloc and free calls of the library"])
p("X15","Requests beyond a primitive's limits are stopped",
  "In the default build a request that violates what a primitive advertises is stopped by an assertion or a failing return value that leaves nothing allocated; it is never carried out and never damages memory. This holds at creation, re-creation and in one-shot calls: an empty or absent key, a key or salt, IV, digest or tag longer than the advertised maximum, an absent IV with a length. It holds in use: data that is not whole blocks for ECB and CBC, keystream from a mode without one, more digest than a fixed-length or Skein hash promised, a MAC or EAX tag longer than advertised (Keccak MACs are not limited) or an EAX2 tag longer than asked for at creation, a tweak that is absent, empty, too long or not supported, absent blocks, objects or descriptors, zero PBKDF2 iterations, scrypt parameters that RFC 7914 excludes. The same requests within the limits are not stopped.",
  ["inputs","configurations"],"all 453 primitives; every kind of excessive parameter, at creation, re-creation and one-shot calls, and all excesses in use",
  "No test passes an argument outside the limits, so the checks that keep such a request from overrunning objects could vanish unnoticed.",
  ["lib/hash.c","lib/block.c","lib/mac.c","lib/stream.c","lib/ae.c","lib/pbkdf2.c","lib/scrypt.c"],[("argument checks of the generic interface","lib/hash.c, lib/block.c, lib/mac.c, lib/stream.c, lib/ae.c"),("limits of composed primitives","lib/mac/omac.c, lib/mac/hmac.c, lib/ae/eax.c, lib/ae/eax2.c"),("refusals at run time","lib/hash/keccak1600.c, lib/mac/keccak.c, lib/scrypt.c")],["abort of the process or the calls' return values"])
p("X16","A used-up counter stops the object; it never starts over",
  "ChaCha, Salsa20 and Skein streams never repeat keystream: when the 64-bit block counter is used up, the next request, whether for keystream, encryption or decryption and however it is cut, is stopped instead of starting over. Up to there the keystream is the defined one and no earlier request is stopped. A hash whose specification limits the message to 2^64 bits or bytes (SHA-1, SHA-256, Tiger, BLAKE-256, BLAKE2s) never returns a digest for a longer message; MD5, which is defined for longer ones, stops or returns the defined digest. Messages within the limit are not stopped.",
  ["histories","inputs"],"all requests and message ends around the last counter values, cut in any way",
  "No test comes near the end of a counter; reaching it takes more data than can ever be processed.",
  ["lib/stream/","lib/hash/"],[("block counter","lib/stream/chacha.c, salsa20.c, skein256.c, skein512.c, skein1024.c"),("length counter","lib/hash/sha1.c, sha2_256.c, md5.c, tiger.c, blake256.c, blake2s.c")],["abort of the process","kripto_stream_encrypt, kripto_stream_decrypt, kripto_stream_prng","kripto_hash_output"])
p("X17","Modes and generic calls work over any primitive an application plugs in",
  "An application may describe a block cipher, hash, MAC, stream cipher or authenticated cipher of its own by the public descriptor structures. The library then calls it only as the interface allows: with the application's descriptor, on live objects of its own, with sizes within those it advertises and with the round count unchanged; every object it creates is destroyed exactly once, also when one of its creations or re-creations fails, which makes the library's own creation or re-creation fail. The generic calls hand every argument and result on unchanged and verification accepts exactly the right tag. ECB, CBC, CFB, OFB, CTR and XCBC-MAC compute their definition over blocks of any size, OMAC and EAX over blocks of 1 to 255 bytes (doubling modulo the least-weight, then first, irreducible polynomial of that degree), HMAC over any hash, and EAX2 over any stream cipher and MAC.",
  ["inputs","histories","faults"],"all application-supplied primitives, sizes and fault positions",
  "Tests use the primitives of the library only, so a size, a table entry or an error path that no such primitive reaches is never executed.",
  ["lib/stream/","lib/mac/","lib/ae/","lib/block.c","lib/hash.c","lib/mac.c","lib/stream.c","lib/ae.c","include/kripto/desc/"],[("descriptor structures","include/kripto/desc/*.h"),("polynomials for doubling","lib/mac/omac.c"),("mode constructors","lib/stream/ecb.c, cbc.c, cfb.c, ofb.c, ctr.c, lib/mac/omac.c, xcbc.c, hmac.c, lib/ae/eax.c, eax2.c")],["kripto_*_create/recreate/destroy and data calls","calls made on the application's primitive"])
p("X18","Amounts of data beyond 2^32 bytes are handled exactly",
  "A call may be given more than 2^32 bytes, and an object may be given more in total. MAC input, one-shot MACs, encryption, decryption, keystream generation and authenticated headers give the same results in one such call as in any pieces, in every MAC construction, block mode, stream cipher and authenticated mode, and write exactly the bytes asked for. PBKDF2 gives more than 2^32 bytes of output as defined. Skein MACs return the tag their definition gives for messages of up to 2^95 bytes, with the message position carried through all of its words.",
  ["inputs"],"all calls taking a length of type size_t, lengths around and beyond 2^31 and 2^32",
  "No test passes more than a few kilobytes; a length kept in 32 bits anywhere on the way goes unnoticed.",
  ["lib/mac.c","lib/mac/","lib/stream/","lib/ae/","lib/pbkdf2.c"],[("one-shot MAC","lib/mac.c kripto_mac_all"),("loops over the data","lib/stream/*.c, lib/mac/*.c, lib/ae/*.c"),("position of Skein MACs","lib/mac/skein256.c, skein512.c, skein1024.c POS_ADD")],["kripto_mac_input, kripto_mac_all, kripto_mac_tag","kripto_stream_encrypt, kripto_stream_decrypt, kripto_stream_prng","kripto_ae_encrypt, kripto_ae_decrypt, kripto_ae_header, kripto_ae_tag","kripto_pbkdf2"])
p("X19","The random generator is sound with Windows sources and with none",
  "Built for Windows, a request of any length is filled completely by calls the system interface can express (32-bit lengths, one-byte result) or reported as not filled; creation fails when the library, function or provider cannot be had, and destruction releases everything. Built without a system source, every request is filled with ChaCha keystream under keys that scrypt derives from time (nonce: keystream of the previous key); keystream is never delivered twice. A new key is derived before a request is filled that brings what was requested since the last new key (not counting the request that brought it) beyond KRIPTO_RESEED_OUTPUT bytes, or that comes more than KRIPTO_RESEED_TIME seconds after it, and not before it is due. A failed seeding delivers nothing and is reported, the object stays valid (later requests try again, it can be destroyed), and nothing leaks.",
  ["histories","faults","configurations"],"all histories of requests of any length, passing of time and failures of the system interface, seeding and allocation, in each configuration of random.c",
  "Tests build random.c for Unix only; the other configurations are never compiled.",
  ["lib/random.c","include/kripto/random.h"],[("system calls","lib/random.c kripto_random_create, kripto_random_get, kripto_random_destroy"),("built-in generator","lib/random.c seed, kripto_random_get")],["kripto_random_create, kripto_random_get, kripto_random_destroy","calls made to the system, to scrypt and to the stream cipher"])
p("X20","The library works the same with 32-bit sizes and pointers",
  "Built for a machine whose pointers and sizes have 32 bits, every hash, block cipher, MAC, stream cipher, block mode, authenticated mode and key derivation gives the results of its definition, the same as in the 64-bit build, for every parameter, cut and history; it advertises and enforces the same limits, keeps within the caller's buffers and its own objects, releases its memory and reports failed allocations. Sizes that cannot be expressed in 32 bits, as scrypt's parameters can ask for, are reported as failures and never carried out in smaller memory. Messages longer than 2^32 bytes, fed in pieces, are hashed and authenticated correctly.",
  ["configurations","inputs","histories"],"all inputs, parameters and histories, in a build with 32-bit sizes",
  "The tests run in a 64-bit build only; a size computed or a length counted in size_t is right there and wrong on 32 bits.",
  ["lib/","include/kripto/"],[("size arithmetic","lib/scrypt.c, lib/pbkdf2.c, lib/block/*.c, lib/mac/*.c, lib/stream/*.c"),("length counters","lib/hash/*.c")],["results of every public call in a 32-bit build"])
p("X21","Any number of rounds is carried out soundly or refused",
  "Whatever number of rounds a caller passes explicitly, to any primitive, at creation or re-creation and with any key length, in the default build the request is either carried out, reading and writing nothing outside the caller's buffers, the object's own memory and the library's tables and releasing everything on destruction, or it is stopped by an assertion or a failing result that leaves nothing allocated. In particular an object whose key schedule grows with the number of rounds never comes into being with less memory than that schedule takes: for counts whose schedule no memory holds, where the size would overflow, creation fails. The default number of rounds (0) is never refused.",
  ["inputs","configurations"],"all numbers of rounds from 1 to UINT_MAX, all 453 primitives, all key lengths",
  "Tests use the default or a published number of rounds; with others the round constants, the unrolled loops or the size of the key schedule may run out.",
  ["lib/block/","lib/hash/","lib/stream/"],[("creation and re-creation","*_create, *_recreate in lib/block/*.c and lib/hash/*.c"),("round constants","RC and similar tables"),("unrolled rounds","encryption, decryption and compression loops")],["accesses outside the object, the tables and the buffers; the calls' return values; abort of the process"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
