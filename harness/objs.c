#include "objs.h"
#include <limits.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/xcbc.h>
#include <kripto/mac/keccak1600.h>
#include <kripto/mac/keccak800.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/skein1024.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/chacha.h>
#include <kripto/stream/salsa20.h>
#include <kripto/stream/rc4.h>
#include <kripto/stream/keccak1600.h>
#include <kripto/stream/keccak800.h>
#include <kripto/stream/skein256.h>
#include <kripto/stream/skein512.h>
#include <kripto/stream/skein1024.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
prim prims[640]; int nprims;
u8 o_data[8192];
static unsigned umin(unsigned a, unsigned b){ return a<b?a:b; }
static prim *add(int kind, int mode, const void *d, const char *fmt, const char *a)
{
	prim *p = prims + nprims++;
	if(nprims > 640) abort();
	if(!d){ fprintf(stderr,"constructor of %s returned null\n",a); exit(2); }
	p->kind=kind; p->mode=mode; p->desc=d; snprintf(p->name,sizeof p->name,fmt,a); p->unit=1; p->minkey=1;
	return p;
}
static void fin(prim *p){ p->xkey=umin(p->maxkey,p->xkey?p->xkey:300); p->xiv=umin(p->maxiv,p->xiv?p->xiv:300); if(!p->xtag) p->xtag=p->maxtag; }
static void eax2(const char *s, const char *m)
{
	const prim *a=prim_named(s), *b=prim_named(m); char n[56]; if(!a||!b){ fprintf(stderr,"no %s or %s\n",s,m); exit(2); }
	snprintf(n,sizeof n,"%s+%s",s,m);
	prim *p = add(K_AE,P_EAX2,kripto_ae_eax2(a->desc,b->desc),"eax2/%s",n);
	p->s=a; p->m=b; p->unit=a->unit; p->maxkey = a->maxkey+b->maxkey < a->maxkey ? UINT_MAX : a->maxkey+b->maxkey;
	p->maxiv=a->maxiv; p->maxtag=b->maxtag; p->minkey=2; p->xkey=a->xkey+b->xkey; if(p->xkey>700) p->xkey=700; p->xtag=b->xtag; fin(p);
}
void prims_init(void)
{
	int i,j; prim *p;
	if(nprims) return;
	vf_persist = 1;
	vf_fillpat(o_data,sizeof o_data,4242);
	for(i=0;i<cat_nhashes;i++){ const cat_hash *h=cat_hashes+i; p=add(K_HASH,P_HASH,*h->desc,"hash/%s",h->name); p->h=h; p->maxkey=h->maxsalt; p->maxtag=h->maxout; p->minkey=0; p->xkey=umin(h->maxsalt,100); p->xtag=h->maxdig; }
	for(i=0;i<cat_nblocks;i++){ const cat_block *b=cat_blocks+i; p=add(K_BLOCK,P_BLOCK,cat_bdesc(b),"block/%s",b->name); p->b=b; p->maxkey=b->maxkey; p->xkey=b->maxkey; p->unit=b->bs; }
	for(i=0;i<cat_nhashes;i++)
	{
		const cat_hash *h=cat_hashes+i; p=add(K_MAC,P_HMAC,kripto_mac_hmac(*h->desc),"hmac/%s",h->name);
		p->h=h; p->maxkey=UINT_MAX; p->maxtag=h->maxout; p->xkey=h->blocksize*2+5; p->xtag=h->maxout?h->maxout:umin(h->maxdig,h->block>40?99:49); if(h->ref>=RH_SKEIN256) p->xtag=h->block+5; fin(p);
	}
	for(i=0;i<cat_nblocks;i++)
	{
		const cat_block *b=cat_blocks+i;
		p=add(K_MAC,P_OMAC,kripto_mac_omac(cat_bdesc(b)),"omac/%s",b->name); p->b=b; p->maxkey=b->maxkey; p->maxtag=b->bs; fin(p);
		if(b->bs <= b->maxkey){ p=add(K_MAC,P_XCBC,kripto_mac_xcbc(cat_bdesc(b)),"xcbc/%s",b->name); p->b=b; p->maxkey=b->maxkey; p->maxtag=b->bs; fin(p); }
	}
#define KM(n,mode_,tg) p=add(K_MAC,mode_,kripto_mac_##n,"mac/%s",#n); p->h=cat_hash_named(#n); p->maxkey=UINT_MAX; p->maxtag=tg; fin(p);
	KM(keccak1600,P_KECMAC,99) KM(keccak800,P_KECMAC,49) KM(skein256,P_SKMAC,32) KM(skein512,P_SKMAC,64) KM(skein1024,P_SKMAC,128)
	for(i=0;i<cat_nblocks;i++)
	{
		const cat_block *b=cat_blocks+i;
#define BM(n,M,u,iv,pr) p=add(K_STREAM,M,kripto_stream_##n(cat_bdesc(b)),#n "/%s",b->name); p->b=b; p->maxkey=b->maxkey; p->maxiv=iv; p->unit=u; p->hasprng=pr; fin(p);
		BM(ecb,P_ECB,b->bs,0,0) BM(cbc,P_CBC,b->bs,b->bs,0) BM(cfb,P_CFB,1,b->bs,1) BM(ofb,P_OFB,1,b->bs,1) BM(ctr,P_CTR,1,b->bs,1)
	}
#define ST(n,M,hn,mk,mi) p=add(K_STREAM,M,kripto_stream_##n,"stream/%s",#n); p->h=hn?cat_hash_named(hn):0; p->maxkey=mk; p->maxiv=mi; p->hasprng=1; fin(p);
	ST(chacha,P_CHACHA,(char*)0,32,24) ST(salsa20,P_SALSA,(char*)0,32,24) ST(rc4,P_RC4,(char*)0,256,0)
	ST(keccak1600,P_KECS,"keccak1600",99,UINT_MAX) ST(keccak800,P_KECS,"keccak800",49,UINT_MAX)
	ST(skein256,P_SKS,"skein256",UINT_MAX,UINT_MAX) ST(skein512,P_SKS,"skein512",UINT_MAX,UINT_MAX) ST(skein1024,P_SKS,"skein1024",UINT_MAX,UINT_MAX)
	for(i=0;i<cat_nblocks;i++){ const cat_block *b=cat_blocks+i; p=add(K_AE,P_EAX,kripto_ae_eax(cat_bdesc(b)),"eax/%s",b->name); p->b=b; p->maxkey=b->maxkey; p->maxiv=b->bs; p->maxtag=b->bs; fin(p); }
	static const char *const c2[][2] = {
		{"ctr/aes","omac/aes"},{"ctr/aes","hmac/sha2_256"},{"stream/chacha","hmac/sha2_512"},{"stream/chacha","mac/skein512"},
		{"stream/salsa20","hmac/blake2b"},{"stream/rc4","hmac/md5"},{"stream/keccak1600","mac/keccak1600"},{"stream/keccak800","mac/keccak800"},
		{"stream/skein256","mac/skein256"},{"stream/skein512","mac/skein512"},{"stream/skein1024","mac/skein1024"},{"cbc/aes","omac/aes"},
		{"cbc/des","xcbc/camellia"},{"ecb/twofish","hmac/whirlpool"},{"cfb/blowfish","xcbc/serpent"},{"ofb/cast5","omac/des"},
		{"ctr/simon32","omac/simon32"},{"ctr/threefish1024","omac/threefish1024"},{"ctr/threefish512","mac/skein1024"},{"cfb/rijndael256","hmac/sha3"},
		{"ofb/speck128","hmac/tiger"},{"ctr/3way","omac/3way"},{"ctr/rc5","hmac/blake2s"},{"stream/salsa20","xcbc/aes"},{"ctr/gost_r34","omac/gost_cbr"},
		{"ctr/camellia","hmac/sha1"},{"stream/chacha","omac/speck32"},{"cbc/rc2","hmac/blake256"},{"ctr/xtea","hmac/blake512"},{"ofb/seed","mac/keccak1600"} };
	for(j=0;j<(int)(sizeof c2/sizeof c2[0]);j++) eax2(c2[j][0],c2[j][1]);
	vf_persist = 0;
}
const prim *prim_named(const char *n){ for(int i=0;i<nprims;i++) if(!strcmp(prims[i].name,n)) return prims+i; return 0; }
void par_key(const par *q, u8 *k){ vf_fillpat(k,q->kl,1000u+(unsigned)q->ks); }
void par_iv(const par *q, u8 *k){ vf_fillpat(k,q->ivl,5000u+(unsigned)q->is); }
static unsigned pick(const unsigned *r, int n, unsigned *out){ if(n<=0) return 0; unsigned c=0; out[c++]=r[0]; if(n>2) out[c++]=r[n/2]; if(n>1) out[c++]=r[n-1]; return c; }
unsigned prim_rounds(const prim *p, unsigned *out)
{
	unsigned r[512]; int n=0;
	switch(p->mode)
	{
	case P_CHACHA: case P_SALSA: out[0]=1; out[1]=8; out[2]=12; out[3]=7; return 4;
	case P_RC4: out[0]=1; out[1]=768; out[2]=256; return 3;
	case P_EAX2:
		if(p->s->b && p->m->b && p->s->b==p->m->b) return prim_rounds(p->s,out);
		if((p->s->mode==P_KECS&&p->m->mode==P_KECMAC)||(p->s->mode==P_SKS&&p->m->mode==P_SKMAC)) return prim_rounds(p->m,out);
		return 0;
	default:
		if(p->h){ while(p->h->rounds[n]){ r[n]=p->h->rounds[n]; n++; } return pick(r,n,out); }
		n=cat_rounds(p->b,r); return pick(r,n,out);
	}
}
int par_list(const prim *p, par *out, int max)
{
	unsigned rr[8]; unsigned nr=prim_rounds(p,rr); int n=0;
	unsigned K=p->xkey, mid=(K+p->minkey)/2, V=p->xiv, T=p->xtag;
#define ADD(...) do{ if(n<max){ par q={__VA_ARGS__}; if(q.kl<p->minkey) q.kl=p->minkey; if(!q.tl && p->kind!=K_BLOCK && p->kind!=K_STREAM) q.tl=1; out[n++]=q; } }while(0)
	ADD(0,K,V,T,1,1);
	ADD(0,p->minkey,0,T>1?T/2:T,2,2);
	ADD(nr?rr[0]:0,mid,V/2,T,3,3);
	ADD(nr>1?rr[nr-1]:0,K,V,T>8?8:T,4,4);
	ADD(0,K>3?K-3:K,V>1?V-1:V,1,5,5);
	ADD(nr>2?rr[1]:0,mid>1?mid-1:mid,V>1?1:V,T,6,6);
	ADD(0,mid,V>12?12:V,T,7,7);
	return n;
}
void par_str(const prim *p, const par *q, char *o, size_t n){ snprintf(o,n,"%s rounds=%u key=%u iv=%u tag=%u",p->name,q->rounds,q->kl,q->ivl,q->tl); }
void *o_create(const prim *p, const par *q)
{
	u8 k[KMAX+1], v[KMAX+1]; par_key(q,k); par_iv(q,v); vf_trans(1);
	switch(p->kind)
	{
	case K_HASH: return kripto_hash_create(p->desc,q->rounds,q->kl?k:0,q->kl,q->tl);
	case K_BLOCK: return kripto_block_create(p->desc,q->rounds,k,q->kl);
	case K_MAC: return kripto_mac_create(p->desc,q->rounds,k,q->kl,q->tl);
	case K_STREAM: return kripto_stream_create(p->desc,q->rounds,k,q->kl,q->ivl?v:0,q->ivl);
	default: return kripto_ae_create(p->desc,q->rounds,k,q->kl,q->ivl?v:0,q->ivl,q->tl);
	}
}
void *o_recreate(const prim *p, void *o, const par *q)
{
	u8 k[KMAX+1], v[KMAX+1]; par_key(q,k); par_iv(q,v); vf_trans(1);
	switch(p->kind)
	{
	case K_HASH: return kripto_hash_recreate(o,q->rounds,q->kl?k:0,q->kl,q->tl);
	case K_BLOCK: return kripto_block_recreate(o,q->rounds,k,q->kl);
	case K_MAC: return kripto_mac_recreate(o,q->rounds,k,q->kl,q->tl);
	case K_STREAM: return kripto_stream_recreate(o,q->rounds,k,q->kl,q->ivl?v:0,q->ivl);
	default: return kripto_ae_recreate(o,q->rounds,k,q->kl,q->ivl?v:0,q->ivl,q->tl);
	}
}
void o_destroy(const prim *p, void *o)
{
	vf_trans(1);
	switch(p->kind)
	{
	case K_HASH: kripto_hash_destroy(o); break;
	case K_BLOCK: kripto_block_destroy(o); break;
	case K_MAC: kripto_mac_destroy(o); break;
	case K_STREAM: kripto_stream_destroy(o); break;
	default: kripto_ae_destroy(o);
	}
}
/* ---- single operations */
int o_nops(const prim *p){ switch(p->kind){ case K_HASH: return 5; case K_BLOCK: return p->b->maxtweak?4:2; case K_MAC: return 3; case K_STREAM: return p->hasprng?5:4; default: return 5; } }
const char *o_opname(const prim *p, int i)
{
	static const char *const H[]={"in3","in2B+1","inB","out5","outrest"},*const B[]={"enc","dec","tweakmax","tweak3"},*const M[]={"in3","in2B+1","tag"},*const S[]={"enc1","enc3","dec1","dec3","prng7"},*const A[]={"hdr5","enc1","enc3","dec1","tag"};
	switch(p->kind){ case K_HASH: return H[i]; case K_BLOCK: return B[i]; case K_MAC: return M[i]; case K_STREAM: return S[i]; default: return A[i]; }
}
int o_legal(const prim *p, const opst *st, int i)
{
	switch(p->kind)
	{
	case K_HASH: if(st->phase==2) return 0; if(st->phase==1) return i>=3; return 1;
	case K_MAC: case K_AE: return st->phase==0;
	default: return 1;
	}
}
static unsigned blk_of(const prim *p){ if(p->h) return p->h->blocksize; if(p->b) return p->b->bs; return 64; }
size_t o_op(const prim *p, void *o, const par *q, opst *st, int i, u8 *out)
{
	unsigned B=blk_of(p), u=p->unit; size_t n; const u8 *d=o_data+97*(unsigned)i; u8 t[1024];
	vf_trans(1);
	switch(p->kind)
	{
	case K_HASH:
		if(i==0){ kripto_hash_input(o,d,3); return 0; }
		if(i==1){ kripto_hash_input(o,d,2*B+1); return 0; }
		if(i==2){ kripto_hash_input(o,d,B); return 0; }
		n=q->tl-(unsigned)st->used; if(i==3 && n>5) n=5;
		kripto_hash_output(o,out,n); st->used+=(int)n; st->phase=(unsigned)st->used>=q->tl?2:1; return n;
	case K_BLOCK:
		if(i==0){ kripto_block_encrypt(o,d,out); return B; }
		if(i==1){ kripto_block_decrypt(o,d,out); return B; }
		kripto_block_tweak(o,d,i==2?p->b->maxtweak:3); return 0;
	case K_MAC:
		if(i==0){ kripto_mac_input(o,d,3); return 0; }
		if(i==1){ kripto_mac_input(o,d,2*B+1); return 0; }
		kripto_mac_tag(o,out,q->tl); st->phase=2; return q->tl;
	case K_STREAM:
		n = u>1 ? (i&1?3*u:u) : (i&1?2*B+3:5);
		if(i==4){ kripto_stream_prng(o,out,7); return 7; }
		if(i<2) kripto_stream_encrypt(o,d,out,n); else kripto_stream_decrypt(o,d,out,n);
		return n;
	default:
		if(p->mode==P_EAX2) B = p->s->b?p->s->b->bs:64;
		n = u>1 ? (i==2?3*u:u) : (i==2?2*B+3:5);
		if(i==0){ kripto_ae_header(o,d,5); return 0; }
		if(i<3){ kripto_ae_encrypt(o,d,out,n); return n; }
		if(i==3){ kripto_ae_decrypt(o,d,out,n); return n; }
		kripto_ae_tag(o,t,q->tl); memcpy(out,t,q->tl); st->phase=2; return q->tl;
	}
}
/* ---- canonical scripts */
int o_flavours(const prim *p){ return p->kind==K_STREAM ? (p->hasprng?3:2) : p->kind==K_AE ? 2 : p->kind==K_BLOCK ? 2 : 1; }
size_t o_probe(const prim *p, void *o, const par *q, int fl, u8 *out)
{
	unsigned B=blk_of(p), u=p->unit; size_t n=0; 
	switch(p->kind)
	{
	case K_HASH:
		kripto_hash_input(o,o_data,7); kripto_hash_input(o,o_data+7,B); kripto_hash_input(o,o_data+7+B,2*B+5);
		kripto_hash_output(o,out,q->tl/3); kripto_hash_output(o,out+q->tl/3,q->tl-q->tl/3); vf_trans(5); return q->tl;
	case K_BLOCK:
		for(int i=0;i<3;i++){ if(fl) kripto_block_decrypt(o,o_data+i*131,out+n); else kripto_block_encrypt(o,o_data+i*131,out+n); n+=B; }
		if(p->b->maxtweak)
		{
			kripto_block_tweak(o,o_data+33,p->b->maxtweak/2+1); kripto_block_encrypt(o,o_data+9,out+n); n+=B; kripto_block_decrypt(o,o_data+9,out+n); n+=B; vf_trans(3);
		}
		if(fl) kripto_block_encrypt(o,o_data,out+n); else kripto_block_decrypt(o,o_data,out+n);
		vf_trans(4); return n+B;
	case K_MAC:
		kripto_mac_input(o,o_data,7); kripto_mac_input(o,o_data+7,B); kripto_mac_input(o,o_data+7+B,2*B+5);
		kripto_mac_tag(o,out,q->tl); vf_trans(4); return q->tl;
	case K_STREAM:
	{
		size_t L[3]={u>1?u:7,u>1?3*u:2*B+9,u>1?2*u:64};
		for(int i=0;i<3;i++)
		{
			if(fl==0) kripto_stream_encrypt(o,o_data+n,out+n,L[i]); else if(fl==1) kripto_stream_decrypt(o,o_data+n,out+n,L[i]); else kripto_stream_prng(o,out+n,L[i]);
			n+=L[i];
		}
		vf_trans(3); return n;
	}
	default:
	{
		if(p->mode==P_EAX2) B = p->s->b?p->s->b->bs:64;
		size_t L[3]={u>1?u:7,u>1?3*u:2*B+9,u>1?2*u:64};
		kripto_ae_header(o,o_data+500,11);
		for(int i=0;i<3;i++){ if(fl==0) kripto_ae_encrypt(o,o_data+n,out+n,L[i]); else kripto_ae_decrypt(o,o_data+n,out+n,L[i]); n+=L[i]; if(i==0) kripto_ae_header(o,o_data+511,2*B+3); }
		kripto_ae_tag(o,out+n,q->tl); vf_trans(6); return n+q->tl;
	}
	}
}
void *o_construct(const prim *p)
{
	switch(p->mode)
	{
	case P_BLOCK: return p->b->mk ? (void*)p->b->mk() : 0;
	case P_HMAC: return kripto_mac_hmac(*p->h->desc);
	case P_OMAC: return kripto_mac_omac(cat_bdesc(p->b));
	case P_XCBC: return kripto_mac_xcbc(cat_bdesc(p->b));
	case P_ECB: return kripto_stream_ecb(cat_bdesc(p->b));
	case P_CBC: return kripto_stream_cbc(cat_bdesc(p->b));
	case P_CFB: return kripto_stream_cfb(cat_bdesc(p->b));
	case P_OFB: return kripto_stream_ofb(cat_bdesc(p->b));
	case P_CTR: return kripto_stream_ctr(cat_bdesc(p->b));
	case P_EAX: return kripto_ae_eax(cat_bdesc(p->b));
	case P_EAX2: return kripto_ae_eax2(p->s->desc,p->m->desc);
	default: return 0;
	}
}
