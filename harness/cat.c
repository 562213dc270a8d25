#include "cat.h"
#include "refhash.h"
#include <kripto/hash/md5.h>
#include <kripto/hash/sha1.h>
#include <kripto/hash/sha2_256.h>
#include <kripto/hash/sha2_512.h>
#include <kripto/hash/sha3.h>
#include <kripto/hash/keccak1600.h>
#include <kripto/hash/keccak800.h>
#include <kripto/hash/tiger.h>
#include <kripto/hash/whirlpool.h>
#include <kripto/hash/blake256.h>
#include <kripto/hash/blake512.h>
#include <kripto/hash/blake2s.h>
#include <kripto/hash/blake2b.h>
#include <kripto/hash/skein256.h>
#include <kripto/hash/skein512.h>
#include <kripto/hash/skein1024.h>
#include <kripto/block/gost.h>
#include <limits.h>

#define H(n,ref,mo,bs,ms,blk,md,dr,rs) { #n, &kripto_hash_##n, ref, mo, bs, ms, blk, md, dr, rs }
/* explicit round counts that the implementation supports */
static const unsigned R_none[]={0};
static const unsigned R_md5[]={64,0}; /* ignored parameter */
static const unsigned R_sha256[]={16,24,32,40,48,56,64,72,80,96,112,120,128,0};
static const unsigned R_sha512[]={16,24,32,40,48,56,64,72,80,88,96,112,128,152,160,0};
static const unsigned R_k1600[]={1,2,3,12,23,24,25,36,47,48,0};
static const unsigned R_k800[]={1,2,3,11,21,22,23,30,39,40,0};
static const unsigned R_tiger[]={3,4,5,6,7,8,9,16,0};
static const unsigned R_wp[]={1,2,3,4,5,6,7,8,9,10,0};
static const unsigned R_blk[]={1,2,5,9,10,11,14,16,19,20,21,31,0};
static const unsigned R_tf[]={8,16,24,64,72,80,88,0};
const cat_hash cat_hashes[] = {
	H(md5,RH_MD5,16,64,0,64,16,64,R_none),
	H(sha1,RH_SHA1,20,64,0,64,20,80,R_none),
	H(sha2_256,RH_SHA2_256,32,64,0,64,32,64,R_sha256),
	H(sha2_512,RH_SHA2_512,64,128,0,128,64,80,R_sha512),
	H(sha3,RH_SHA3,64,200,0,72,64,24,R_k1600),
	H(keccak1600,RH_KECCAK1600,0,200,0,72,99,24,R_k1600),
	H(keccak800,RH_KECCAK800,0,100,0,36,49,22,R_k800),
	H(tiger,RH_TIGER,24,64,0,64,24,3,R_tiger),
	H(whirlpool,RH_WHIRLPOOL,64,64,0,64,64,10,R_wp),
	H(blake256,RH_BLAKE256,32,64,16,64,32,14,R_blk),
	H(blake512,RH_BLAKE512,64,128,32,128,64,16,R_blk),
	H(blake2s,RH_BLAKE2S,32,64,8,64,32,10,R_blk),
	H(blake2b,RH_BLAKE2B,64,128,16,128,64,12,R_blk),
	H(skein256,RH_SKEIN256,0,32,UINT_MAX,32,200,72,R_tf),
	H(skein512,RH_SKEIN512,0,64,UINT_MAX,64,200,72,R_tf),
	H(skein1024,RH_SKEIN1024,0,128,UINT_MAX,128,300,80,R_tf),
};
const int cat_nhashes = sizeof cat_hashes / sizeof cat_hashes[0];

/* name, block, maxkey, maxtweak, explicit rounds supported at the maximal key length */
#define BLOCKS(X) \
X(3way,12,12,0,"1-11") \
X(aes,16,32,0,"1-20") \
X(anubis,16,40,0,"1-24") \
X(aria,16,32,0,"2-24/2") \
X(blowfish,8,56,0,"1-34") \
X(camellia,16,32,0,"") \
X(cast5,8,16,0,"") \
X(crax_s,8,16,0,"1-24") \
X(des,8,24,0,"") \
X(idea,8,16,0,"1-24") \
X(khazad,8,16,0,"1-8") \
X(lea,16,32,0,"4-40/4") \
X(noekeon,16,16,0,"1-33") \
X(rc2,8,128,0,"") \
X(rc5,8,255,0,"1-40") \
X(rc6,16,255,0,"1-40") \
X(rectangle,8,16,0,"1-25") \
X(rijndael128,16,32,0,"1-20") \
X(rijndael256,32,32,0,"1-20") \
X(safer,8,16,0,"1-14") \
X(safer_sk,8,16,0,"1-14") \
X(saferpp,16,32,0,"1-14") \
X(seed,16,16,0,"1-16") \
X(serpent,16,32,0,"8-40/8") \
X(shacal2,32,64,0,"16-120/8") \
X(simon128,16,32,0,"4-72") \
X(simon32,4,8,0,"4-40") \
X(simon64,8,16,0,"4-48") \
X(skipjack,8,10,0,"32-32") \
X(sm4,16,16,0,"4-32/4") \
X(speck128,16,32,0,"1-40") \
X(speck32,4,8,0,"1-40") \
X(speck64,8,16,0,"1-40") \
X(tea,8,16,0,"1-40") \
X(threefish1024,128,128,16,"8-96/8") \
X(threefish256,32,32,16,"8-96/8") \
X(threefish512,64,64,16,"8-96/8") \
X(trax_l,32,32,16,"1-20") \
X(trax_m,16,16,8,"1-20") \
X(twofish,16,32,0,"2-20/2") \
X(xtea,8,16,0,"1-80")
#define X(n,bs,mk,mt,r) extern const kripto_desc_block *const kripto_block_##n;
BLOCKS(X)
#undef X
extern kripto_desc_block *g_kripto_block_gost_cbr(void);
extern kripto_desc_block *g_kripto_block_gost_r34_12_2015(void);
#ifndef NO_GOLD
#define GOLD(n) &g_kripto_block_##n
#define X(n,bs,mk,mt,r) extern const kripto_desc_block *const g_kripto_block_##n;
BLOCKS(X)
#undef X
#define GMK(f) g_##f
#else
#define GOLD(n) 0
#define GMK(f) 0
#endif
#define X(n,bs,mk,mt,r) { #n, &kripto_block_##n, 0, bs, mk, mt, GOLD(n), 0, r },
const cat_block cat_blocks[] = {
BLOCKS(X)
	{ "gost_cbr", 0, kripto_block_gost_cbr, 8, 32, 0, 0, GMK(kripto_block_gost_cbr), "16-40/2" },
	{ "gost_r34", 0, kripto_block_gost_r34_12_2015, 8, 32, 0, 0, GMK(kripto_block_gost_r34_12_2015), "16-40/2" },
};
#undef X
const int cat_nblocks = sizeof cat_blocks / sizeof cat_blocks[0];
/* the gost descriptors are made once per process, outside the explored heap */
static const kripto_desc_block *gost_have[2];
const kripto_desc_block *cat_bdesc(const cat_block *b)
{
	if(b->desc) return *b->desc;
	int i = (int)(b - cat_blocks) - (cat_nblocks - 2), k = vf_persist;
	if(!gost_have[i]){ vf_persist = 1; gost_have[i] = b->mk(); vf_persist = k; if(!gost_have[i]) abort(); }
	return gost_have[i];
}
#ifndef NO_GOLD
/* what the golden objects need from outside */
void *g_malloc(size_t n){ return malloc(n); }
void g_free(void *p){ free(p); }
void *g_memcpy(void *a, const void *b, size_t n){ return memcpy(a,b,n); }
void *g_memset(void *a, int b, size_t n){ return memset(a,b,n); }
void g___assert_fail(const char *e, const char *f, unsigned l, const char *fn){ fprintf(stderr,"Assertion in the reference model: %s %s:%u\n",e,f,l); _Exit(4); }
const kripto_desc_block *cat_gdesc(const cat_block *b)
{
	static kripto_desc_block *g[2];
	if(b->gold) return *b->gold;
	int i = (int)(b - cat_blocks) - (cat_nblocks - 2);
	if(!g[i]) g[i] = b->gmk();
	return g[i];
}
#endif
const cat_block *cat_block_named(const char *n){ for(int i=0;i<cat_nblocks;i++) if(!strcmp(cat_blocks[i].name,n)) return cat_blocks+i; return 0; }
const cat_hash *cat_hash_named(const char *n){ for(int i=0;i<cat_nhashes;i++) if(!strcmp(cat_hashes[i].name,n)) return cat_hashes+i; return 0; }
/* explicit round numbers: parses "a-b/step"; returns count */
int cat_rounds(const cat_block *b, unsigned *out)
{
	unsigned a,z,st=1; int n=0;
	char *e; a=(unsigned)strtoul(b->rounds,&e,10); if(e==b->rounds||*e!='-') return 0;
	z=(unsigned)strtoul(e+1,&e,10); if(*e=='/') st=(unsigned)strtoul(e+1,&e,10);
	for(unsigned r=a;r<=z;r+=st) out[n++]=r;
	return n;
}
/* published default rounds for a key length; 0 = no explicit number supported */
unsigned cat_defrounds(const cat_block *b, unsigned kl)
{
	const char*n=b->name; unsigned w=(kl+3)/4, d=(kl+7)/8, r;
	if(!strcmp(n,"3way")) return 11;
	if(!strcmp(n,"aes")||!strcmp(n,"rijndael128")){ r=6+w; return r<10?10:r; }
	if(!strcmp(n,"rijndael256")){ r=6+w; return r<14?14:r; }
	if(!strcmp(n,"anubis")||!strcmp(n,"aria")){ r=8+w; if(r<12) r=12; if(!strcmp(n,"aria")&&r%2) return 0; return r; }
	if(!strcmp(n,"blowfish")) return 16;
	if(!strcmp(n,"crax_s")) return 10;
	if(!strcmp(n,"idea")||!strcmp(n,"khazad")) return 8;
	if(!strcmp(n,"lea")) return kl>24?32:kl>16?28:24;
	if(!strcmp(n,"noekeon")) return 16;
	if(!strcmp(n,"rc5")) return 12;
	if(!strcmp(n,"rc6")) return 20;
	if(!strcmp(n,"rectangle")) return 25;
	if(!strcmp(n,"safer")||!strcmp(n,"safer_sk")) return kl>8?10:6;
	if(!strcmp(n,"saferpp")) return kl>16?10:7;
	if(!strcmp(n,"seed")) return 16;
	if(!strcmp(n,"serpent")||!strcmp(n,"skipjack")||!strcmp(n,"sm4")) return 32;
	if(!strcmp(n,"shacal2")) return 64;
	if(!strcmp(n,"simon128")) return d==3?69:d==4?72:68;
	if(!strcmp(n,"simon32")) return 32;
	if(!strcmp(n,"simon64")) return kl>12?44:kl>8?42:0;
	if(!strcmp(n,"speck128")) return kl>8?30+d:0;
	if(!strcmp(n,"speck32")) return 22;
	if(!strcmp(n,"speck64")) return kl>8?23+w:0;
	if(!strcmp(n,"tea")) return 32;
	if(!strcmp(n,"threefish1024")) return 80;
	if(!strcmp(n,"threefish256")||!strcmp(n,"threefish512")) return 72;
	if(!strcmp(n,"trax_l")) return 17;
	if(!strcmp(n,"trax_m")) return 14;
	if(!strcmp(n,"twofish")) return 16;
	if(!strcmp(n,"xtea")) return 64;
	if(!strncmp(n,"gost",4)) return 32;
	return 0;
}
