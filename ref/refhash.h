/* Reference hash functions written from the published specifications.
   Plain, slow, one generic buffering layer; no code shared with /repo. */
#ifndef REFHASH_H
#define REFHASH_H
#include <stddef.h>
#include <stdint.h>
enum { RH_MD5, RH_SHA1, RH_SHA2_256, RH_SHA2_512, RH_SHA3, RH_KECCAK1600, RH_KECCAK800,
       RH_TIGER, RH_WHIRLPOOL, RH_BLAKE256, RH_BLAKE512, RH_BLAKE2S, RH_BLAKE2B,
       RH_SKEIN256, RH_SKEIN512, RH_SKEIN1024, RH_COUNT };
/* message lengths: 128 bits where the compiler has them (64 bits suffice for what a 32-bit build explores) */
#ifdef __SIZEOF_INT128__
typedef unsigned __int128 u128;
#define SHR(x,n) ((uint64_t)((x)>>(n)))
#else
typedef uint64_t u128;
#define SHR(x,n) ((n)<64?(x)>>((n)&63):0)
#endif
typedef struct {
	int alg; unsigned rounds, outlen, bs; int lazy;
	uint64_t h[16]; uint32_t w[8]; uint64_t salt[4];
	uint8_t st[200];
	uint8_t buf[200]; unsigned n;
	u128 len;      /* message bytes absorbed */
	int first;
} refh;
void refh_init(refh *s, int alg, unsigned rounds, const void *salt, unsigned salt_len, unsigned outlen);
void refh_update(refh *s, const void *in, size_t len);
void refh_final(refh *s, void *out, size_t n);
void ref_hash(int alg, unsigned rounds, const void *salt, unsigned salt_len, unsigned outlen,
              const void *in, size_t len, void *out, size_t n);
/* Skein with the optional key block (MAC); key_len may be 0 */
void refh_skein_init(refh *s, int alg, unsigned rounds, const void *key, size_t key_len,
                     const void *nonce, size_t nonce_len, uint64_t out_bits);
/* Skein as a stream: key, nonce, no message; n bytes of output starting at offset */
void ref_skein_at(refh *s, uint64_t block, size_t offset, void *out, size_t n);
void ref_skein_out(refh *s, uint64_t offset, void *out, size_t n);
void ref_keccak_f1600(uint8_t st[200], unsigned rounds);
void ref_keccak_f800(uint8_t st[100], unsigned rounds);
void ref_threefish(int nw, unsigned rounds, const uint8_t *key, const uint8_t tweak[16], const uint8_t *in, uint8_t *out);
void ref_threefish_dec(int nw, unsigned rounds, const uint8_t *key, const uint8_t tweak[16], const uint8_t *in, uint8_t *out);
const uint64_t (*ref_tiger_tables(void))[256];
#endif
