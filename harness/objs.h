/* Unified catalogue of every primitive the library can make, with parameters, generic operations
   on objects, and executable models of the MAC, stream and authenticated modes. */
#ifndef OBJS_H
#define OBJS_H
#include "cat.h"
#include "refhash.h"
enum { K_HASH, K_BLOCK, K_MAC, K_STREAM, K_AE };
enum { P_HASH, P_BLOCK, P_HMAC, P_OMAC, P_XCBC, P_KECMAC, P_SKMAC, P_ECB, P_CBC, P_CFB, P_OFB, P_CTR,
       P_CHACHA, P_SALSA, P_RC4, P_KECS, P_SKS, P_EAX, P_EAX2 };
typedef struct prim {
	int kind, mode; char name[56]; const void *desc;
	const cat_hash *h;                 /* hash, HMAC; for keccak/skein MACs and streams: the hash it is made of */
	const cat_block *b;                /* block cipher and its modes */
	const struct prim *s, *m;          /* EAX2 */
	unsigned maxkey, maxiv, maxtag;    /* expected metadata (hash: maxout/maxsalt in h) */
	unsigned unit;                     /* data unit of streams and AE modes */
	int hasprng;
	unsigned xkey, xiv, xtag;          /* largest explored by default */
	unsigned minkey;
} prim;
extern prim prims[]; extern int nprims;
void prims_init(void);
const prim *prim_named(const char *n);

/* rounds; key (hash: salt); iv; tag (hash: digest length).  ks/is select the contents. */
typedef struct { unsigned rounds, kl, ivl, tl; int ks, is; } par;
#define KMAX 1024
void par_key(const par *q, u8 *k);      /* writes q->kl bytes */
void par_iv(const par *q, u8 *k);
int  par_list(const prim *p, par *out, int max);   /* representative parameter sets */
unsigned prim_rounds(const prim *p, unsigned *out); /* explicit round counts (representatives) */
void par_str(const prim *p, const par *q, char *o, size_t n);

void *o_create(const prim *p, const par *q);
void *o_recreate(const prim *p, void *o, const par *q);
void  o_destroy(const prim *p, void *o);
/* script: a canonical use of a fresh object; writes its results; returns their number.
   flavour 0 encrypt / 1 decrypt / 2 keystream (streams); others ignore it */
size_t o_probe(const prim *p, void *o, const par *q, int flavour, u8 *out);
int    o_flavours(const prim *p);
/* single operations, for histories.  o_nops: number; o_op performs operation i, appends results. */
typedef struct { int phase, used; } opst; /* 0 absorbing, 1 producing, 2 finished */
int    o_nops(const prim *p);
int    o_legal(const prim *p, const opst *st, int i);
size_t o_op(const prim *p, void *o, const par *q, opst *st, int i, u8 *out);
const char *o_opname(const prim *p, int i);
extern u8 o_data[8192];                 /* message data used by probes and operations */
#define PROBE_MAX 4096

/* ---- models: plain functions of explicit parameters */
void m_mac(const prim *p, unsigned rounds, const u8 *key, unsigned kl, const u8 *msg, size_t n, u8 *tag, unsigned tl, unsigned blockov);
void m_stream(const prim *p, unsigned rounds, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, int dec, const u8 *in, u8 *out, size_t n);
void m_keystream_at(const prim *p, unsigned rounds, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, u64 blk, u8 *out); /* chacha, salsa, skein: one block */
void m_ae(const prim *p, unsigned rounds, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, const u8 *hdr, size_t hl, const u8 *pt, size_t n, u8 *ct, u8 *tag, unsigned tl);
void m_enc(const cat_block *b, unsigned rounds, const u8 *key, unsigned kl, const u8 *in, u8 *out);
void m_dec(const cat_block *b, unsigned rounds, const u8 *key, unsigned kl, const u8 *in, u8 *out);
#endif
