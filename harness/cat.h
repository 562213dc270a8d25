/* Catalogue of the library's primitives (public descriptors only). */
#ifndef CAT_H
#define CAT_H
#include "vf.h"
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/block.h>
#include <kripto/ae.h>
typedef struct {
	const char *name; const kripto_desc_hash *const *desc; int ref;
	unsigned maxout, blocksize, maxsalt;  /* expected metadata */
	unsigned block;                       /* internal block for out_len = maxdig */
	unsigned maxdig;                      /* largest digest length explored by default */
	unsigned defrounds;
	const unsigned *rounds;               /* supported explicit rounds, 0-terminated */
} cat_hash;
extern const cat_hash cat_hashes[]; extern const int cat_nhashes;
typedef struct {
	const char *name; const kripto_desc_block *const *desc; kripto_desc_block *(*mk)(void);
	unsigned bs, maxkey, maxtweak;
	const kripto_desc_block *const *gold; kripto_desc_block *(*gmk)(void);
	const char *rounds;                   /* supported explicit rounds "a-b/step" */
} cat_block;
extern const cat_block cat_blocks[]; extern const int cat_nblocks;
const cat_block *cat_block_named(const char *n);
const cat_hash *cat_hash_named(const char *n);
int cat_rounds(const cat_block *b, unsigned *out);
unsigned cat_defrounds(const cat_block *b, unsigned key_len);
const kripto_desc_block *cat_bdesc(const cat_block *b);
const kripto_desc_block *cat_gdesc(const cat_block *b);
/* interface of the golden block ciphers (same ABI, prefixed symbols) */
extern kripto_block *g_kripto_block_create(const kripto_desc_block*,unsigned,const void*,unsigned);
extern void g_kripto_block_tweak(kripto_block*,const void*,unsigned);
extern void g_kripto_block_encrypt(const kripto_block*,const void*,void*);
extern void g_kripto_block_decrypt(const kripto_block*,const void*,void*);
extern void g_kripto_block_destroy(kripto_block*);
#endif
