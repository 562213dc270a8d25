/* X17: primitives supplied by the application through the public descriptor structures
   (include/kripto/desc).  Tiny primitives of the harness - a block cipher, a hash, a MAC, a stream
   cipher and an authenticated cipher of any size - record how they are called and compare it with
   the interface; the modes built over them are compared with models written from the modes'
   definitions over the same toy functions; every creation or re-creation of theirs may fail. */
#include "vf.h"
#include <limits.h>
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/ae.h>
#include <kripto/desc/block.h>
#include <kripto/desc/hash.h>
#include <kripto/desc/mac.h>
#include <kripto/desc/stream.h>
#include <kripto/desc/ae.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/ctr.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/xcbc.h>
#include <kripto/mac/hmac.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#include "../ref/poly.h"
#define MAXB 1100
/* ---------------------------------------------------------------- toy functions */
static u64 mix(u64 h, u64 b){ h=(h^b)*0x9FB21C651E98DF25ULL; h^=h>>29; h*=0xD6E8FEB86659FD93ULL; return h^(h>>32); }
static u64 seed(u64 kind, unsigned r, const void *k, size_t kl){ u64 h=mix(mix(kind,r),kl); for(size_t i=0;i<kl;i++) h=mix(h,((const u8*)k)[i]); return h; }
static u8 S[256],SI[256];
static void sbox(void){ u64 z=88172645463325252ULL; for(int i=0;i<256;i++) S[i]=(u8)i; for(int i=255;i;i--){ z=mix(z,(u64)i); int j=(int)(z%(u64)(i+1)); u8 t=S[i]; S[i]=S[j]; S[j]=t; } for(int i=0;i<256;i++) SI[S[i]]=(u8)i; }
static void tb_enc(u64 s, unsigned n, const u8 *in, u8 *out)
{
	u8 x[MAXB]; memcpy(x,in,n);
	for(unsigned p=0;p<2;p++) for(unsigned i=0;i<n;i++){ u8 k=(u8)(mix(s,i*2+p)>>32); x[i]=S[(u8)(x[i]+k+(n==1?0:x[i?i-1:n-1]))]; }
	memcpy(out,x,n);
}
static void tb_dec(u64 s, unsigned n, const u8 *in, u8 *out)
{
	u8 x[MAXB]; memcpy(x,in,n);
	for(unsigned p=2;p--;) for(unsigned i=n;i--;){ u8 k=(u8)(mix(s,i*2+p)>>32); x[i]=(u8)(SI[x[i]]-k-(n==1?0:x[i?i-1:n-1])); }
	memcpy(out,x,n);
}
static u64 th_add(u64 h, const void *m, size_t n){ for(size_t i=0;i<n;i++) h=mix(h,((const u8*)m)[i]); return h; }
static u8 th_byte(u64 h, size_t i){ return (u8)(mix(h,0x100+i)>>24); }
static void th(u64 kind, unsigned r, const void *k, size_t kl, unsigned ol, const void *m, size_t n, u8 *o){ u64 h=th_add(mix(seed(kind,r,k,kl),ol),m,n); for(size_t i=0;i<ol;i++) o[i]=th_byte(h,i); }
static u64 ts_seed(unsigned r, const void *k, size_t kl, const void *iv, size_t il){ return th_add(mix(seed(4,r,k,kl),il),iv,il); }
enum { KB=1, KH, KM, KS, KA };
/* ---------------------------------------------------------------- monitored objects */
static const char *bad; static long calls, failat; static int live;
static void wrong(const char *m){ if(!bad) bad=m; }
typedef struct { const void *desc; unsigned multof; unsigned kind; int live, phase; unsigned r, ol; size_t pos; u64 s, tw; } obj;  /* begins like a library object */
#define NOBJ 16
static obj pool[NOBJ];
static void begin(void){ memset(pool,0,sizeof pool); bad=0; calls=failat=0; live=0; vf_heap_reset(); }
static void settled(void){ if(bad) vf_fail("%s",bad); }
static void end(void){ settled(); if(live) vf_fail("%d objects of the application's primitive left alive",live); if(vf_heap_live()) vf_fail("%d heap blocks left",vf_heap_live()); }
static unsigned okrounds; static const void *okdesc[6];
static kripto_desc_block dead_b; static kripto_desc_hash dead_h; static kripto_desc_mac dead_m; static kripto_desc_stream dead_s; static kripto_desc_ae dead_a;
static const void *deaddesc(unsigned k){ switch(k){ case KB: return &dead_b; case KH: return &dead_h; case KM: return &dead_m; case KS: return &dead_s; default: return &dead_a; } }
static obj *get(const void *p, unsigned kind)
{
	for(int i=0;i<NOBJ;i++) if(p==(const void*)(pool+i)){ if(!pool[i].live||pool[i].kind!=kind){ wrong("destroyed or foreign object used"); return 0; } return pool+i; }
	wrong("call with something that is no object of this primitive"); return 0;
}
static int refuse(void){ return ++calls==failat; }
static obj *mk(unsigned kind, const void *d, unsigned r)
{
	if(d!=okdesc[kind]) wrong("created with another descriptor than the application's");
	if(r!=okrounds) wrong("round count changed on the way");
	if(refuse()) return 0;
	for(int i=0;i<NOBJ;i++) if(!pool[i].live){ memset(pool+i,0,sizeof *pool); pool[i].desc=d; pool[i].kind=kind; pool[i].live=1; pool[i].multof=1; pool[i].r=r; live++; vf_trans(1); return pool+i; }
	wrong("too many objects alive"); return 0;
}
static void kill_(obj *o){ if(!o) return; o->live=0; o->desc=deaddesc(o->kind); live--; }
static obj *again(void *p, unsigned kind, unsigned r)
{
	obj *o=get(p,kind); if(!o) return 0;
	if(r!=okrounds) wrong("round count changed on the way");
	if(refuse()){ kill_(o); return 0; }
	o->r=r; o->phase=0; o->pos=0; o->tw=0; vf_trans(1); return o;
}
static void keyok(const void *k, size_t kl, size_t max){ if(!k||!kl) wrong("empty key passed on"); if(kl>max) wrong("key longer than the primitive allows"); }
/* block cipher */
static kripto_block *b_create(const kripto_desc_block *const d, unsigned r, const void *k, unsigned kl){ obj *o=mk(KB,d,r); keyok(k,kl,d->maxkey); if(o) o->s=seed(KB,r,k,kl); return (kripto_block*)o; }
static kripto_block *b_recreate(kripto_block *p, unsigned r, const void *k, unsigned kl){ const kripto_desc_block *d=okdesc[KB]; keyok(k,kl,d->maxkey); u64 s=seed(KB,r,k,kl); obj *o=again(p,KB,r); if(o) o->s=s; return (kripto_block*)o; }
static void b_tweak(kripto_block *p, const void *t, unsigned n){ obj *o=get(p,KB); if(!o) return; if(n>((const kripto_desc_block*)o->desc)->maxtweak) wrong("tweak longer than the cipher allows"); o->tw=seed(9,0,t,n); }
static void overlap(const void *in, void *out, size_t n){ const u8 *a=in,*b=out; if(!in||!out) wrong("null block passed on"); else if(a!=b && a<b+n && b<a+n) wrong("partly overlapping blocks passed on"); }
static void b_encrypt(const kripto_block *p, const void *in, void *out){ obj *o=get(p,KB); if(!o) return; unsigned n=((const kripto_desc_block*)o->desc)->blocksize; overlap(in,out,n); tb_enc(o->s^o->tw,n,in,out); vf_trans(1); }
static void b_decrypt(const kripto_block *p, const void *in, void *out){ obj *o=get(p,KB); if(!o) return; unsigned n=((const kripto_desc_block*)o->desc)->blocksize; overlap(in,out,n); tb_dec(o->s^o->tw,n,in,out); vf_trans(1); }
static void b_destroy(kripto_block *p){ kill_(get(p,KB)); }
/* hash */
static kripto_hash *h_create(const kripto_desc_hash *d, unsigned r, const void *sa, unsigned sl, unsigned ol){ obj *o=mk(KH,d,r); if(sl>d->maxsalt) wrong("salt longer than the hash allows"); if(d->maxout&&ol>d->maxout) wrong("digest longer than the hash allows"); if(o){ o->s=mix(seed(KH,r,sa,sl),ol); o->ol=ol; } return (kripto_hash*)o; }
static kripto_hash *h_recreate(kripto_hash *p, unsigned r, const void *sa, unsigned sl, unsigned ol){ const kripto_desc_hash *d=okdesc[KH]; if(sl>d->maxsalt) wrong("salt longer than the hash allows"); if(d->maxout&&ol>d->maxout) wrong("digest longer than the hash allows"); u64 s=mix(seed(KH,r,sa,sl),ol); obj *o=again(p,KH,r); if(o){ o->s=s; o->ol=ol; } return (kripto_hash*)o; }
static void h_input(kripto_hash *p, const void *in, size_t n){ obj *o=get(p,KH); if(!o) return; if(o->phase) wrong("hash input after its output"); o->s=th_add(o->s,in,n); vf_trans(1); }
static void h_output(kripto_hash *p, void *out, size_t n){ obj *o=get(p,KH); if(!o) return; o->phase=1; if(o->pos+n>o->ol){ wrong("more digest bytes read than the hash was created for"); return; } for(size_t i=0;i<n;i++) ((u8*)out)[i]=th_byte(o->s,o->pos++); vf_trans(1); }
static void h_destroy(kripto_hash *p){ kill_(get(p,KH)); }
static int h_all(const kripto_desc_hash *d, const unsigned r, const void *sa, unsigned sl, const void *in, size_t n, void *out, size_t ol){ if(d!=okdesc[KH]) wrong("one-shot hash with another descriptor"); if(r!=okrounds) wrong("round count changed on the way"); if(sl>d->maxsalt) wrong("salt longer than the hash allows"); if(d->maxout&&ol>d->maxout) wrong("digest longer than the hash allows"); if(refuse()) return -1; th(KH,r,sa,sl,(unsigned)ol,in,n,out); vf_trans(1); return 0; }
/* MAC */
static kripto_mac *m_create(const kripto_desc_mac *d, unsigned r, const void *k, unsigned kl, unsigned tl){ obj *o=mk(KM,d,r); keyok(k,kl,d->maxkey); if(tl>d->maxtag) wrong("tag longer than the MAC allows"); if(o){ o->s=mix(seed(KM,r,k,kl),tl); o->ol=tl; } return (kripto_mac*)o; }
static kripto_mac *m_recreate(kripto_mac *p, unsigned r, const void *k, unsigned kl, unsigned tl){ const kripto_desc_mac *d=okdesc[KM]; keyok(k,kl,d->maxkey); if(tl>d->maxtag) wrong("tag longer than the MAC allows"); u64 s=mix(seed(KM,r,k,kl),tl); obj *o=again(p,KM,r); if(o){ o->s=s; o->ol=tl; } return (kripto_mac*)o; }
static void m_input(kripto_mac *p, const void *in, size_t n){ obj *o=get(p,KM); if(!o) return; if(o->phase) wrong("MAC input after its tag"); o->s=th_add(o->s,in,n); vf_trans(1); }
static void m_tag(kripto_mac *p, void *out, unsigned n){ obj *o=get(p,KM); if(!o) return; o->phase=1; if(o->pos+n>o->ol){ wrong("more tag bytes read than the MAC was created for"); return; } for(size_t i=0;i<n;i++) ((u8*)out)[i]=th_byte(o->s,o->pos++); vf_trans(1); }
static void m_destroy(kripto_mac *p){ kill_(get(p,KM)); }
/* stream */
static unsigned smult=1;
static kripto_stream *s_create(const kripto_desc_stream *d, unsigned r, const void *k, unsigned kl, const void *iv, unsigned il){ obj *o=mk(KS,d,r); keyok(k,kl,d->maxkey); if(il>d->maxiv) wrong("IV longer than the stream cipher allows"); if(o){ o->multof=smult; o->s=ts_seed(r,k,kl,iv,il); } return (kripto_stream*)o; }
static kripto_stream *s_recreate(kripto_stream *p, unsigned r, const void *k, unsigned kl, const void *iv, unsigned il){ const kripto_desc_stream *d=okdesc[KS]; keyok(k,kl,d->maxkey); if(il>d->maxiv) wrong("IV longer than the stream cipher allows"); u64 s=ts_seed(r,k,kl,iv,il); obj *o=again(p,KS,r); if(o){ o->multof=smult; o->s=s; } return (kripto_stream*)o; }
static void s_crypt(kripto_stream *p, const void *in, void *out, size_t n, int dec){ obj *o=get(p,KS); if(!o) return; overlap(in,out,n); if(n%o->multof) wrong("length is no multiple of the stream cipher's unit"); for(size_t i=0;i<n;i++){ u8 k=th_byte(o->s,o->pos++); ((u8*)out)[i]=dec?(u8)(((const u8*)in)[i]-k):(u8)(((const u8*)in)[i]+k); } vf_trans(1); }
static void s_encrypt(kripto_stream *p, const void *in, void *out, size_t n){ s_crypt(p,in,out,n,0); }
static void s_decrypt(kripto_stream *p, const void *in, void *out, size_t n){ s_crypt(p,in,out,n,1); }
static void s_prng(kripto_stream *p, void *out, size_t n){ obj *o=get(p,KS); if(!o) return; for(size_t i=0;i<n;i++) ((u8*)out)[i]=th_byte(o->s,o->pos++); vf_trans(1); }
static void s_destroy(kripto_stream *p){ kill_(get(p,KS)); }
static kripto_desc_block bd; static kripto_desc_hash hd; static kripto_desc_mac md; static kripto_desc_stream sd;
static void setb(unsigned bs, unsigned maxkey, unsigned maxtweak){ bd=(kripto_desc_block){.create=b_create,.recreate=b_recreate,.tweak=maxtweak?b_tweak:0,.encrypt=b_encrypt,.decrypt=b_decrypt,.destroy=b_destroy,.blocksize=bs,.maxkey=maxkey,.maxtweak=maxtweak}; okdesc[KB]=&bd; }
static void seth(unsigned B, unsigned D, unsigned ms){ hd=(kripto_desc_hash){.create=h_create,.recreate=h_recreate,.input=h_input,.output=h_output,.destroy=h_destroy,.hash_all=h_all,.maxout=D,.blocksize=B,.maxsalt=ms}; okdesc[KH]=&hd; }
static void setm(unsigned maxtag, unsigned maxkey){ md=(kripto_desc_mac){.create=m_create,.recreate=m_recreate,.input=m_input,.tag=m_tag,.destroy=m_destroy,.maxtag=maxtag,.maxkey=maxkey}; okdesc[KM]=&md; }
static void sets(unsigned maxkey, unsigned maxiv, unsigned mult){ sd=(kripto_desc_stream){.create=s_create,.recreate=s_recreate,.encrypt=s_encrypt,.decrypt=s_decrypt,.prng=s_prng,.destroy=s_destroy,.maxkey=maxkey,.maxiv=maxiv}; smult=mult; okdesc[KS]=&sd; }
/* dead objects answer every call by a complaint */
static void *x_re(void){ wrong("destroyed object re-created"); return 0; }
static void x_use(void){ wrong("destroyed object used"); }
static void setdead(void)
{
	dead_b=(kripto_desc_block){.recreate=(void*)x_re,.tweak=(void*)x_use,.encrypt=(void*)x_use,.decrypt=(void*)x_use,.destroy=(void*)x_use,.blocksize=1,.maxkey=UINT_MAX,.maxtweak=UINT_MAX};
	dead_h=(kripto_desc_hash){.recreate=(void*)x_re,.input=(void*)x_use,.output=(void*)x_use,.destroy=(void*)x_use,.maxsalt=UINT_MAX};
	dead_m=(kripto_desc_mac){.recreate=(void*)x_re,.input=(void*)x_use,.tag=(void*)x_use,.destroy=(void*)x_use,.maxtag=UINT_MAX,.maxkey=UINT_MAX};
	dead_s=(kripto_desc_stream){.recreate=(void*)x_re,.encrypt=(void*)x_use,.decrypt=(void*)x_use,.prng=(void*)x_use,.destroy=(void*)x_use,.maxkey=UINT_MAX,.maxiv=UINT_MAX};
}
/* ---------------------------------------------------------------- models of the modes */
static void dbl(u8 *x, unsigned n)
{
	int c=x[0]>>7; for(unsigned i=0;i<n;i++) x[i]=(u8)(x[i]<<1|(i+1<n?x[i+1]>>7:0));
	if(c){ const u8 *p=POLY[n-1]; x[n-1]^=1; for(int j=0;j<3;j++) x[n-1-p[j]/8]^=(u8)(1<<p[j]%8); }
}
static void cbcmac(u64 s, unsigned n, const u8 *kf, const u8 *kp, const u8 *m, size_t l, u8 *tag)
{
	u8 st[MAXB]={0},la[MAXB]={0}; while(l>n){ for(unsigned i=0;i<n;i++) st[i]^=m[i]; tb_enc(s,n,st,st); m+=n; l-=n; }
	if(l) memcpy(la,m,l); if(l<n){ la[l]=0x80; kf=kp; } for(unsigned i=0;i<n;i++) st[i]^=la[i]^kf[i]; tb_enc(s,n,st,tag);
}
static void m_omac(u64 s, unsigned n, const u8 *m, size_t l, u8 *tag){ u8 a[MAXB]={0},b[MAXB]; tb_enc(s,n,a,a); dbl(a,n); memcpy(b,a,n); dbl(b,n); cbcmac(s,n,a,b,m,l,tag); }
static void m_xcbc(unsigned r, const u8 *k, unsigned kl, unsigned n, const u8 *m, size_t l, u8 *tag){ u8 x[3][MAXB]; u64 s=seed(KB,r,k,kl); for(int i=0;i<3;i++){ memset(x[i],i+1,n); tb_enc(s,n,x[i],x[i]); } cbcmac(seed(KB,r,x[0],n),n,x[1],x[2],m,l,tag); }
enum { ECB, CBC, CFB, OFB, CTR, OMAC, XCBC, EAX, NMODE };
static const char *const MN[]={"ecb","cbc","cfb","ofb","ctr","omac","xcbc","eax"};
static void m_crypt(int mode, u64 s, unsigned n, const u8 *iv, unsigned il, int dec, const u8 *in, u8 *out, size_t l)
{
	u8 st[MAXB]={0},ks[MAXB],t[MAXB]; if(mode!=ECB&&il) memcpy(st,iv,il);
	for(size_t i=0;i<l;i+=n)
	{
		size_t c=l-i<n?l-i:n;
		if(mode==ECB){ if(dec) tb_dec(s,n,in+i,out+i); else tb_enc(s,n,in+i,out+i); continue; }
		if(mode==CBC){ if(dec){ tb_dec(s,n,in+i,t); for(unsigned j=0;j<n;j++) out[i+j]=t[j]^st[j]; memcpy(st,in+i,n); } else { for(unsigned j=0;j<n;j++) st[j]^=in[i+j]; tb_enc(s,n,st,st); memcpy(out+i,st,n); } continue; }
		tb_enc(s,n,st,ks); for(size_t j=0;j<c;j++) out[i+j]=in[i+j]^ks[j];
		if(mode==OFB) memcpy(st,ks,n); else if(mode==CFB) memcpy(st,dec?in+i:out+i,c); else for(unsigned j=n;j--;) if(++st[j]) break;
	}
}
/* ---------------------------------------------------------------- cases */
static u8 *data, *zero; static u8 key[2400], ivb[MAXB+1];
#define DL 200000
static u8 *o1,*o2;
typedef struct { int mode; unsigned bs; } cfg;
static void *constr(int m){ vf_persist=1; void *d=0; switch(m){ case ECB: d=kripto_stream_ecb(&bd); break; case CBC: d=kripto_stream_cbc(&bd); break; case CFB: d=kripto_stream_cfb(&bd); break; case OFB: d=kripto_stream_ofb(&bd); break; case CTR: d=kripto_stream_ctr(&bd); break; case OMAC: d=kripto_mac_omac(&bd); break; case XCBC: d=kripto_mac_xcbc(&bd); break; case EAX: d=kripto_ae_eax(&bd); } vf_persist=0; return d; }
static void num(unsigned got, unsigned want, const char *w){ vf_validated(1); if(got!=want) vf_fail("%s is %u, should be %u",w,got,want); }
static void setiv(unsigned n, int kind, unsigned s){ vf_fillpat(ivb,n,9000+s); if(kind){ memset(ivb,0xFF,n); if(n) ivb[n-1]=(u8)(kind==1?0xFD:0xFF); } }
static void u_stream(void *a)
{
	cfg *c=a; unsigned n=c->bs, mk_=n<8?9:n+3; int m=c->mode; setb(n,mk_,m&1?4:0); kripto_desc_stream *d=constr(m); if(!d) vf_fail("mode cannot be constructed over a %u-byte block",n);
	unsigned unit=m==ECB||m==CBC?n:1;
	if(vf_case("advertised sizes, block of %ld bytes",(long)n)){ num(kripto_stream_maxkey(d),mk_,"longest key"); num(kripto_stream_maxiv(d),m==ECB?0:n,"longest IV"); }
	unsigned kls[3]={1,mk_,n<mk_?n:mk_}, ils[4]={n,0,n/2,n>1?n-1:n}; size_t P[6]; int np=0;
	if(unit>1){ P[np++]=n; P[np++]=2*n; P[np++]=3*n; } else { P[np++]=1; if(n>1){ if(n>2) P[np++]=n-1; P[np++]=n; } P[np++]=n+1; P[np++]=2*n+3; }
	int dep=n<=8||vf_thorough?3:2;
	for(int v=0;v<(vf_thorough?12:6);v++) for(int dir=0;dir<(m==OFB||m==CTR?3:2);dir++)
	{
		unsigned kl=kls[v%3], il=m==ECB?0:ils[v%4]; int ivk=v%3;
		long tot=1; for(int k=0;k<dep;k++) tot*=np;
		for(long x=0;x<tot;x++) if(vf_case("block of %ld bytes, key/IV set %ld, direction %ld (0 enc, 1 dec, 2 keystream), pieces #%ld",(long)n,(long)v,(long)dir,x))
		{
			begin(); okrounds=v&1?7u*(unsigned)v:0; vf_fillpat(key,kl,100+(unsigned)v); setiv(il,ivk,(unsigned)v);
			kripto_stream *o=kripto_stream_create(d,okrounds,key,kl,il?ivb:0,il); if(!o) vf_fail("create returned null");
			num(kripto_stream_multof(o),unit,"data unit"); if(kripto_stream_getdesc(o)!=d) vf_fail("object reports another descriptor");
			u64 s=seed(KB,okrounds,key,kl);
			for(int round=0;round<2;round++)
			{
				size_t l=0; long y=x;
				for(int k=0;k<dep;k++){ size_t z=P[y%np]; y/=np; if((x+k)&1){ memcpy(o1+l,data+l,z); if(dir==0) kripto_stream_encrypt(o,o1+l,o1+l,z); else if(dir==1) kripto_stream_decrypt(o,o1+l,o1+l,z); else kripto_stream_prng(o,o1+l,z); }
					else if(dir==0) kripto_stream_encrypt(o,data+l,o1+l,z); else if(dir==1) kripto_stream_decrypt(o,data+l,o1+l,z); else kripto_stream_prng(o,o1+l,z); l+=z; }
				settled(); m_crypt(m,s,n,ivb,il,dir==1,dir==2?zero:data,o2,l); vf_eq(o1,o2,l,round?"result after re-creation":"result of the mode"); vf_nontrivial(1); vf_state2((u64)m<<32|n<<8|(u64)v,o1,l);
				if(!round){ vf_fillpat(key,kl,300+(unsigned)v); s=seed(KB,okrounds,key,kl); setiv(il,ivk,40+(unsigned)v); o=kripto_stream_recreate(o,okrounds,key,kl,il?ivb:0,il); if(!o) vf_fail("re-create returned null"); }
			}
			kripto_stream_destroy(o); end();
		}
	}
	/* the counter of tiny blocks runs through all its values */
	if((m==CTR||m==OFB||m==CFB||m==CBC)&&n<=2) for(int dir=0;dir<2;dir++) if(vf_case("block of %ld bytes, %ld blocks in one piece, direction %ld",(long)n,n==1?1000L:66000L,(long)dir))
	{
		begin(); okrounds=0; kripto_stream *o=kripto_stream_create(d,0,key,mk_,ivb,n); if(!o) vf_fail("create returned null"); size_t l=n==1?1000:132000;
		if(dir) kripto_stream_decrypt(o,data,o1,l); else kripto_stream_encrypt(o,data,o1,l); m_crypt(m,seed(KB,0,key,mk_),n,ivb,n,dir,data,o2,l); vf_eq(o1,o2,l,"long result of the mode"); kripto_stream_destroy(o); end();
	}
	/* every creation and re-creation of the cipher may fail */
	for(long k=1;k<6;k++) for(int re=0;re<2;re++) if(vf_case("block of %ld bytes: failing cipher creation %ld, re-creation %ld",(long)n,k,(long)re))
	{
		begin(); okrounds=3; if(!re) failat=k; kripto_stream *o=kripto_stream_create(d,3,key,mk_,m==ECB?0:ivb,m==ECB?0:n); settled();
		if(re){ if(!o) vf_fail("create returned null"); calls=0; failat=k; kripto_stream_encrypt(o,data,o1,unit); o=kripto_stream_recreate(o,3,key,1,m==ECB?0:ivb,m==ECB?0:n); }
		if(calls>=failat && o) vf_fail("succeeded although the cipher could not be created"); if(calls<failat && !o) vf_fail("failed without a reason");
		if(calls>=failat) vf_nontrivial(1); if(o) kripto_stream_destroy(o); end(); vf_validated(1);
	}
	free(0);
}
static void u_mac(void *a)
{
	cfg *c=a; unsigned n=c->bs, mk_=n<8?9:n+3; int m=c->mode; setb(n,mk_,0); kripto_desc_mac *d=constr(m);
	if(!d){ if(n>255) return; vf_fail("mode cannot be constructed over a %u-byte block",n); }
	if(vf_case("advertised sizes, block of %ld bytes",(long)n)){ num(kripto_mac_maxkey(d),mk_,"longest key"); num(kripto_mac_maxtag(d),n,"longest tag"); }
	unsigned kls[3]={1,mk_,n<mk_?n:mk_}; size_t P[7]; int np=0; P[np++]=0; P[np++]=1; if(n>2) P[np++]=n-1; if(n>1) P[np++]=n; P[np++]=n+1; P[np++]=2*n; if(n>1) P[np++]=2*n+1;
	for(int v=0;v<(vf_thorough?64:m==OMAC?16:6);v++) for(int x=0;x<np*np;x++) for(unsigned tk=0;tk<2;tk++) if((v<2||x%np==x/np) && vf_case("block of %ld bytes, key set %ld, pieces #%ld, tag %ld (0 whole, 1 in two pieces)",(long)n,(long)v,(long)x,(long)tk))
	{
		unsigned kl=kls[v%3]; begin(); okrounds=v&1?11:0; vf_fillpat(key,kl,100+(unsigned)v*7);
		kripto_mac *o=kripto_mac_create(d,okrounds,key,kl,n); if(!o){ if(n>255) return; vf_fail("create returned null"); }
		for(int round=0;round<2;round++)
		{
			size_t l=P[x%np],l2=P[x/np]; if(l) kripto_mac_input(o,data,l); if(l2) kripto_mac_input(o,data+l,l2); l+=l2;
			if(tk){ kripto_mac_tag(o,o1,n/3); kripto_mac_tag(o,o1+n/3,n-n/3); } else kripto_mac_tag(o,o1,n);
			settled(); if(m==OMAC) m_omac(seed(KB,okrounds,key,kl),n,data,l,o2); else m_xcbc(okrounds,key,kl,n,data,l,o2); vf_eq(o1,o2,n,round?"tag after re-creation":"tag"); vf_nontrivial(1); vf_state2((u64)m<<32|n,o1,n);
			if(!round){ vf_fillpat(key,kl,900+(unsigned)v); o=kripto_mac_recreate(o,okrounds,key,kl,n); if(!o) vf_fail("re-create returned null"); }
		}
		kripto_mac_destroy(o); end();
	}
	for(long k=1;k<7;k++) for(int re=0;re<3;re++) if(vf_case("block of %ld bytes: failing cipher creation %ld, re-creation %ld (2: one-shot)",(long)n,k,(long)re))
	{
		begin(); okrounds=3; if(re!=1) failat=k; long w=0;
		if(re==2){ int r=kripto_mac_all(d,3,key,mk_,data,10,o1,n); w=calls>=failat; if(w!=(r!=0)) vf_fail("one-shot call returned %d, the cipher's creation %s",r,w?"failed":"succeeded"); }
		else
		{
			kripto_mac *o=kripto_mac_create(d,3,key,mk_,n); settled();
			if(re){ if(!o) vf_fail("create returned null"); calls=0; failat=k; kripto_mac_input(o,data,3); o=kripto_mac_recreate(o,3,key,1,n); }
			w=calls>=failat; if(w && o) vf_fail("succeeded although the cipher could not be created"); if(!w && !o) vf_fail("failed without a reason"); if(o) kripto_mac_destroy(o);
		}
		if(w) vf_nontrivial(1); end(); vf_validated(1);
	}
}
static void pre(void (*f)(void*,const u8*,size_t,u8*), void *ctx, unsigned pl, u8 t, const u8 *m, size_t l, u8 *tag){ static u8 b[4096]; memset(b,0,pl); b[pl-1]=t; memcpy(b+pl,m,l); f(ctx,b,pl+l,tag); }
typedef struct { u64 s; unsigned n, r, kl, tl; const u8 *k; } mc;
static void f_omac(void *c, const u8 *m, size_t l, u8 *t){ mc *x=c; m_omac(x->s,x->n,m,l,t); }
static void f_toy(void *c, const u8 *m, size_t l, u8 *t){ mc *x=c; th(KM,x->r,x->k,x->kl,x->tl,m,l,t); }
static void aead(kripto_ae *o, int dec, size_t h1, size_t l1, size_t l2, size_t h2, unsigned tl)
{
	if(h1) kripto_ae_header(o,data+1000,h1); if(l1){ if(dec) kripto_ae_decrypt(o,data,o1,l1); else kripto_ae_encrypt(o,data,o1,l1); }
	if(h2) kripto_ae_header(o,data+1000+h1,h2); if(l2){ if(dec) kripto_ae_decrypt(o,data+l1,o1+l1,l2); else kripto_ae_encrypt(o,data+l1,o1+l1,l2); }
	kripto_ae_tag(o,o1+l1+l2,tl);
}
static void u_eax(void *a)
{
	cfg *c=a; unsigned n=c->bs, mk_=n<8?9:n+3; setb(n,mk_,0); kripto_desc_ae *d=constr(EAX); if(!d){ if(n>255) return; vf_fail("mode cannot be constructed over a %u-byte block",n); }
	if(vf_case("advertised sizes, block of %ld bytes",(long)n)){ num(kripto_ae_maxkey(d),mk_,"longest key"); num(kripto_ae_maxtag(d),n,"longest tag"); }
	size_t P[6]={0,1,n,n+1,2*n,2*n+1}; unsigned kls[3]={1,mk_,n<mk_?n:mk_}, ils[4]={n,0,n/2,n>1?n-1:n}, tls[3]={n,1,n/2+1>n?n:n/2+1};
	for(int v=0;v<(vf_thorough?12:4);v++) for(int x=0;x<36;x++) for(int dec=0;dec<2;dec++) if(vf_case("block of %ld bytes, parameter set %ld, pieces #%ld, direction %ld",(long)n,(long)v,(long)x,(long)dec))
	{
		unsigned kl=kls[v%3], il=ils[v%4], tl=tls[v%3]; begin(); okrounds=v&1?5:0; vf_fillpat(key,kl,100+(unsigned)v*7); setiv(il,v==2,(unsigned)v);
		kripto_ae *o=kripto_ae_create(d,okrounds,key,kl,il?ivb:0,il,tl); if(!o){ if(n>255) return; vf_fail("create returned null"); }
		for(int round=0;round<2;round++)
		{
			size_t l1=P[x%6],l2=P[x/6],h1=P[(x+v)%6],h2=P[(x/6+1)%6], l=l1+l2; num(kripto_ae_multof(o),1,"data unit"); aead(o,dec,h1,l1,l2,h2,tl); settled();
			mc k={seed(KB,okrounds,key,kl),n,0,0,0,0}; u8 N[MAXB],H[MAXB],C[MAXB]; pre(f_omac,&k,n,0,ivb,il,N); pre(f_omac,&k,n,1,data+1000,h1+h2,H);
			m_crypt(CTR,k.s,n,N,n,dec,data,o2,l); pre(f_omac,&k,n,2,dec?data:o2,l,C); for(unsigned i=0;i<tl;i++) o2[l+i]=N[i]^H[i]^C[i];
			vf_eq(o1,o2,l+tl,round?"result after re-creation":"result"); vf_nontrivial(1); vf_state2(n,o1,l+tl);
			if(!round){ vf_fillpat(key,kl,900+(unsigned)v); o=kripto_ae_recreate(o,okrounds,key,kl,il?ivb:0,il,tl); if(!o) vf_fail("re-create returned null"); }
		}
		kripto_ae_destroy(o); end();
	}
	for(long k=1;k<9;k++) for(int re=0;re<2;re++) if(vf_case("block of %ld bytes: failing cipher creation %ld, re-creation %ld",(long)n,k,(long)re))
	{
		begin(); okrounds=3; if(!re) failat=k; kripto_ae *o=kripto_ae_create(d,3,key,mk_,ivb,n,n); settled();
		if(re){ if(!o) vf_fail("create returned null"); calls=0; failat=k; kripto_ae_encrypt(o,data,o1,3); o=kripto_ae_recreate(o,3,key,1,ivb,n,n); }
		int w=calls>=failat; if(w && o) vf_fail("succeeded although the cipher could not be created"); if(!w && !o) vf_fail("failed without a reason");
		if(w) vf_nontrivial(1); if(o) kripto_ae_destroy(o); end(); vf_validated(1);
	}
}
static void m_hmac(unsigned r, unsigned B, const u8 *k, size_t kl, unsigned tl, const u8 *m, size_t l, u8 *tag)
{
	u8 kb[600]={0},in[600]; static u8 b[8192]; if(kl>B) th(KH,r,0,0,tl<B?tl:B,k,kl,kb); else memcpy(kb,k,kl);
	for(unsigned i=0;i<B;i++) b[i]=kb[i]^0x36; memcpy(b+B,m,l); th(KH,r,0,0,tl,b,B+l,in);
	for(unsigned i=0;i<B;i++) b[i]=kb[i]^0x5C; memcpy(b+B,in,tl); th(KH,r,0,0,tl,b,B+tl,tag);
}
static void u_hmac(void *a)
{
	cfg *c=a; unsigned B=c->bs; unsigned D[7]={1,2,B>1?B-1:1,B,B+1,2*B,300};
	for(int di=0;di<7;di++)
	{
		seth(B,D[di],di&1?5:0); vf_persist=1; kripto_desc_mac *d=kripto_mac_hmac(&hd); vf_persist=0; if(!d) vf_fail("HMAC cannot be constructed");
		if(vf_case("advertised sizes, hash with block %ld and digest %ld",(long)B,(long)D[di])) num(kripto_mac_maxtag(d),D[di],"longest tag");
		unsigned kls[6]={1,B>1?B-1:1,B,B+1,2*B+1,599}, tls[3]={D[di],1,D[di]/2+1>D[di]?D[di]:D[di]/2+1}; if(kls[5]<=2*B) kls[5]=B;
		for(int ki=0;ki<6;ki++) for(int ti=0;ti<3;ti++) for(int x=0;x<4;x++) if(vf_case("hash with block %ld and digest %ld, key %ld, tag %ld, message #%ld",(long)B,(long)D[di],(long)kls[ki],(long)tls[ti],(long)x))
		{
			unsigned kl=kls[ki],tl=tls[ti]; if(kl>600) kl=600; begin(); okrounds=x&1?9:0; vf_fillpat(key,kl,70+(unsigned)ki); kripto_mac *o=kripto_mac_create(d,okrounds,key,kl,tl); if(!o) vf_fail("create returned null");
			for(int round=0;round<2;round++)
			{
				size_t l=x==0?0:x==1?1:x==2?B:2*B+3; if(l) kripto_mac_input(o,data,l/2); if(l) kripto_mac_input(o,data+l/2,l-l/2); kripto_mac_tag(o,o1,tl); settled();
				m_hmac(okrounds,B,key,kl,tl,data,l,o2); vf_eq(o1,o2,tl,round?"tag after re-creation":"tag"); vf_nontrivial(1); vf_state2((u64)B<<16|D[di],o1,tl);
				if(!round){ kl=kls[(ki+1)%6]; if(kl>600) kl=600; vf_fillpat(key,kl,170+(unsigned)ki); o=kripto_mac_recreate(o,okrounds,key,kl,tl); if(!o) vf_fail("re-create returned null"); }
			}
			kripto_mac_destroy(o); end();
		}
		for(int ki=0;ki<6;ki++) for(long k=1;k<4;k++) for(int re=0;re<2;re++) if(vf_case("hash with block %ld and digest %ld, key %ld: failing hash creation %ld, re-creation %ld",(long)B,(long)D[di],(long)kls[ki],k,(long)re))
		{
			unsigned kl=kls[ki]>600?600:kls[ki]; begin(); okrounds=3; if(!re) failat=k; kripto_mac *o=kripto_mac_create(d,3,key,kl,D[di]); settled();
			if(re){ if(!o) vf_fail("create returned null"); kripto_mac_input(o,data,3); calls=0; failat=k; o=kripto_mac_recreate(o,3,key,kl,D[di]); }
			int w=calls>=failat; if(w && o) vf_fail("succeeded although the hash could not be created"); if(!w && !o) vf_fail("failed without a reason");
			failat=0; if(w) vf_nontrivial(1); if(o) kripto_mac_destroy(o); end(); vf_validated(1);
		}
	}
}
static void u_eax2(void *a)
{
	static const unsigned SK[]={1,2,5,32,UINT_MAX}, MK[]={1,3,16,UINT_MAX}, IV[]={0,1,8,40}, TG[]={1,4,16,33}; cfg *c=a; unsigned sk=SK[c->mode%5], mk_=MK[c->mode/5], mult=c->bs;
	for(int ii=0;ii<4;ii++) for(int ti=0;ti<4;ti++)
	{
		sets(sk,IV[ii],mult); setm(TG[ti],mk_); vf_persist=1; kripto_desc_ae *d=kripto_ae_eax2(&sd,&md); vf_persist=0; if(!d) vf_fail("EAX2 cannot be constructed");
		u64 sum=(u64)sk+mk_; unsigned want=sum>UINT_MAX?UINT_MAX:(unsigned)sum;
		if(vf_case("advertised sizes, IV %ld tag %ld",(long)IV[ii],(long)TG[ti])){ num(kripto_ae_maxkey(d),want,"longest key"); num(kripto_ae_maxtag(d),TG[ti],"longest tag"); }
		unsigned miv=kripto_ae_maxiv(d), kls[6]={2,3,sk<200?sk+1:64,want<200?want:77,mk_<200?mk_+1:65,want<200?want-want/4:200};
		for(int ki=0;ki<6;ki++) for(int tt=0;tt<2;tt++) for(int x=0;x<8;x++) for(int dec=0;dec<2;dec++) if(kls[ki]>=2&&kls[ki]<=want&&vf_case("IV %ld tag %ld: key %ld, tag choice %ld, data #%ld, direction %ld",(long)IV[ii],(long)TG[ti],(long)kls[ki],(long)tt,(long)x,(long)dec))
		{
			unsigned kl=kls[ki], tl=tt?TG[ti]/2+1>TG[ti]?TG[ti]:TG[ti]/2+1:TG[ti], il=x&1?miv:miv/2; begin(); smult=mult; okrounds=x&2?6:0; vf_fillpat(key,kl,60+(unsigned)ki); vf_fillpat(ivb,il,(unsigned)x+800);
			kripto_ae *o=kripto_ae_create(d,okrounds,key,kl,il?ivb:0,il,tl); if(!o) vf_fail("create returned null");
			for(int round=0;round<2;round++)
			{
				unsigned mu=smult; num(kripto_ae_multof(o),mu,"data unit"); size_t l1=mu*(size_t)(x%3),l2=mu*(size_t)(x/2*3),h1=(size_t)x*5,h2=(size_t)(x%4),l=l1+l2; aead(o,dec,h1,l1,l2,h2,tl); settled();
				unsigned s=(kl+1)/2,mm; if(s>sk) s=sk; mm=kl-s; if(mm>mk_){ mm=mk_; s=kl-mm; }
				mc k={0,0,okrounds,mm,tl,key}; u8 N[64],H[64],C[64]; pre(f_toy,&k,tl,0,ivb,il,N); pre(f_toy,&k,tl,1,data+1000,h1+h2,H); u64 ks=ts_seed(okrounds,key+mm,s,N,tl<IV[ii]?tl:IV[ii]);
				for(size_t i=0;i<l;i++) o2[i]=dec?(u8)(data[i]-th_byte(ks,i)):(u8)(data[i]+th_byte(ks,i)); pre(f_toy,&k,tl,2,dec?data:o2,l,C); for(unsigned i=0;i<tl;i++) o2[l+i]=N[i]^H[i]^C[i];
				vf_eq(o1,o2,l+tl,round?"result after re-creation":"result"); vf_nontrivial(1); vf_state2((u64)c->mode<<16|(u64)ii<<8|(u64)ti,o1,l+tl);
				if(!round){ vf_fillpat(key,kl,460+(unsigned)ki); smult=x&2?mult*2:mult; if(x&4) tl=1; else if(x&1) tl=TG[ti]; o=kripto_ae_recreate(o,okrounds,key,kl,il?ivb:0,il,tl); if(!o) vf_fail("re-create returned null"); }
			}
			kripto_ae_destroy(o); end();
		}
		for(long k=1;k<7;k++) for(int re=0;re<3;re++) if(vf_case("IV %ld tag %ld: failing creation %ld, re-creation %ld (2: with a longer tag)",(long)IV[ii],(long)TG[ti],k,(long)re))
		{
			unsigned kl=want<200?want:100, t0=re==2?TG[ti]/2:TG[ti]; if(!t0) t0=1; begin(); smult=mult; okrounds=3; if(!re) failat=k; kripto_ae *o=kripto_ae_create(d,3,key,kl,ivb,miv,t0); settled();
			if(re){ if(!o) vf_fail("create returned null"); calls=0; failat=k; kripto_ae_encrypt(o,data,o1,mult); o=kripto_ae_recreate(o,3,key,kl,ivb,miv,TG[ti]); }
			int w=calls>=failat; if(w && o) vf_fail("succeeded although the inner primitive could not be created"); if(!w && !o) vf_fail("failed without a reason");
			if(w) vf_nontrivial(1); if(o) kripto_ae_destroy(o); end(); vf_validated(1);
		}
	}
}
/* ---------------------------------------------------------------- the generic calls hand everything on */
static struct { int n; const char *fn; const void *p[6]; u64 v[6]; } rec; static void *ret; static int iret;
static void R(const char *fn, const void *p0, const void *p1, const void *p2, u64 v0, u64 v1, u64 v2, u64 v3){ rec.n++; rec.fn=fn; rec.p[0]=p0; rec.p[1]=p1; rec.p[2]=p2; rec.v[0]=v0; rec.v[1]=v1; rec.v[2]=v2; rec.v[3]=v3; vf_trans(1); }
static void clr(void){ memset(&rec,0,sizeof rec); }
static void expect(const char *fn, const void *p0, const void *p1, const void *p2, u64 v0, u64 v1, u64 v2, u64 v3)
{
	vf_validated(1); if(rec.n!=1||!rec.fn||strcmp(rec.fn,fn)) vf_fail("%s reached the primitive %d times (last call %s)",fn,rec.n,rec.fn?rec.fn:"none");
	if(rec.p[0]!=p0||rec.p[1]!=p1||rec.p[2]!=p2) vf_fail("%s: another pointer than the caller's",fn);
	if(rec.v[0]!=v0||rec.v[1]!=v1||rec.v[2]!=v2||rec.v[3]!=v3) vf_fail("%s: arguments %llu %llu %llu %llu, the caller gave %llu %llu %llu %llu",fn,(unsigned long long)rec.v[0],(unsigned long long)rec.v[1],(unsigned long long)rec.v[2],(unsigned long long)rec.v[3],(unsigned long long)v0,(unsigned long long)v1,(unsigned long long)v2,(unsigned long long)v3);
	clr();
}
static kripto_block *rb_c(const kripto_desc_block *const d, unsigned r, const void *k, unsigned kl){ R("create",d,k,0,r,kl,0,0); return ret; }
static kripto_block *rb_r(kripto_block *o, unsigned r, const void *k, unsigned kl){ R("recreate",o,k,0,r,kl,0,0); return ret; }
static void rb_t(kripto_block *o, const void *t, unsigned n){ R("tweak",o,t,0,n,0,0,0); }
static void rb_e(const kripto_block *o, const void *a, void *b){ R("encrypt",o,a,b,0,0,0,0); }
static void rb_d(const kripto_block *o, const void *a, void *b){ R("decrypt",o,a,b,0,0,0,0); }
static void r_x(void *o){ R("destroy",o,0,0,0,0,0,0); }
static kripto_hash *rh_c(const kripto_desc_hash *d, unsigned r, const void *s, unsigned sl, unsigned ol){ R("create",d,s,0,r,sl,ol,0); return ret; }
static kripto_hash *rh_r(kripto_hash *o, unsigned r, const void *s, unsigned sl, unsigned ol){ R("recreate",o,s,0,r,sl,ol,0); return ret; }
static void rh_i(kripto_hash *o, const void *in, size_t n){ R("input",o,in,0,n,0,0,0); }
static void rh_o(kripto_hash *o, void *out, size_t n){ R("output",o,out,0,n,0,0,0); }
static const void *allout; static u64 allol;
static int rh_a(const kripto_desc_hash *d, const unsigned r, const void *s, unsigned sl, const void *in, size_t n, void *out, size_t ol){ R("hash_all",d,s,in,r,sl,n,ol); allout=out; return iret; }
static kripto_mac *rm_c(const kripto_desc_mac *d, unsigned r, const void *k, unsigned kl, unsigned tl){ R("create",d,k,0,r,kl,tl,0); return ret; }
static kripto_mac *rm_r(kripto_mac *o, unsigned r, const void *k, unsigned kl, unsigned tl){ R("recreate",o,k,0,r,kl,tl,0); return ret; }
static void rm_i(kripto_mac *o, const void *in, size_t n){ R("input",o,in,0,n,0,0,0); }
static u8 vtag[64]; static void r_tag(void *o, void *t, unsigned n){ R("tag",o,t,0,n,0,0,0); memcpy(t,vtag,n); }
static kripto_stream *rs_c(const kripto_desc_stream *d, unsigned r, const void *k, unsigned kl, const void *iv, unsigned il){ R("create",d,k,iv,r,kl,il,0); return ret; }
static kripto_stream *rs_r(kripto_stream *o, unsigned r, const void *k, unsigned kl, const void *iv, unsigned il){ R("recreate",o,k,iv,r,kl,il,0); return ret; }
static void r_e(void *o, const void *a, void *b, size_t n){ R("encrypt",o,a,b,n,0,0,0); }
static void r_d(void *o, const void *a, void *b, size_t n){ R("decrypt",o,a,b,n,0,0,0); }
static void r_p(kripto_stream *o, void *b, size_t n){ R("prng",o,b,0,n,0,0,0); }
static kripto_ae *ra_c(const kripto_desc_ae *d, unsigned r, const void *k, unsigned kl, const void *iv, unsigned il, unsigned tl){ R("create",d,k,iv,r,kl,il,tl); return ret; }
static kripto_ae *ra_r(kripto_ae *o, unsigned r, const void *k, unsigned kl, const void *iv, unsigned il, unsigned tl){ R("recreate",o,k,iv,r,kl,il,tl); return ret; }
static void u_generic(void *a)
{
	(void)a; static const unsigned V[]={1,2,3,255,256,65535,65536,0x7FFFFFFFu,0x80000000u,UINT_MAX}, W[]={1,2,3,4,5,7,8,9,12,15,16,17,20,24,31,32,33,40,48,63,64,65,100,127,128,129,200,255,256,257,1000,65535,65536,0x7FFFFFFFu,0x80000000u,UINT_MAX}, SL[]={0,1,2,3,4,8,16,UINT_MAX}; enum { NW=sizeof W/sizeof *W }; static const size_t L[]={1,3,0x7FFFFFFFu,0xFFFFFFFFu,0x100000000u,0x8000000000000000u,SIZE_MAX};
	static char mem[64]; void *P1=mem+1,*P2=mem+20,*P3=mem+40;
	kripto_desc_block b={rb_c,rb_r,rb_t,rb_e,rb_d,(void*)r_x,17,UINT_MAX,UINT_MAX}; kripto_desc_hash h={rh_c,rh_r,rh_i,rh_o,(void*)r_x,rh_a,0,13,UINT_MAX}; kripto_desc_mac m={rm_c,rm_r,rm_i,(void*)r_tag,(void*)r_x,64,UINT_MAX}; kripto_desc_stream s={rs_c,rs_r,(void*)r_e,(void*)r_d,r_p,(void*)r_x,UINT_MAX,UINT_MAX}; kripto_desc_ae e={ra_c,ra_r,(void*)r_e,(void*)r_d,(void*)rm_i,(void*)r_tag,(void*)r_x,UINT_MAX,UINT_MAX,UINT_MAX};
	obj o={0}; o.multof=1; void *O=&o;
	for(int i=0;i<10;i++) for(int j=0;j<NW;j++) for(int sl=0;sl<8;sl++) for(int rv=0;rv<2;rv++) if(vf_case("create and re-create: rounds #%ld, lengths #%ld, maxima #%ld, returned object %ld",(long)i,(long)j,(long)sl,(long)rv))
	{
#define SAT(x) ((x)>UINT_MAX-SL[sl]?UINT_MAX:(x)+SL[sl])
		unsigned r=i?V[i]:0, n=W[j], n2=W[(j+7)%NW], t=W[(j+13)%NW]; b.maxkey=b.maxtweak=m.maxkey=s.maxkey=e.maxkey=SAT(n); h.maxsalt=SAT(n); m.maxtag=s.maxiv=e.maxiv=SAT(n2); e.maxtag=SAT(t); h.maxout=SL[sl]==UINT_MAX?0:SAT(n2); ret=rv?O:0; clr(); void *g;
#define GOT() do{ if(g!=ret) vf_fail("another object than the primitive's returned"); }while(0)
		g=kripto_block_create(&b,r,P1,n); expect("create",&b,P1,0,r,n,0,0); GOT(); o.desc=&b; g=kripto_block_recreate(O,r,P1,n); expect("recreate",O,P1,0,r,n,0,0); GOT(); kripto_block_tweak(O,P2,n); expect("tweak",O,P2,0,n,0,0,0);
		g=kripto_hash_create(&h,r,P1,n,n2); expect("create",&h,P1,0,r,n,n2,0); GOT(); o.desc=&h; g=kripto_hash_recreate(O,r,P1,n,n2); expect("recreate",O,P1,0,r,n,n2,0); GOT();
		g=kripto_mac_create(&m,r,P1,n,n2); expect("create",&m,P1,0,r,n,n2,0); GOT(); o.desc=&m; g=kripto_mac_recreate(O,r,P1,n,n2); expect("recreate",O,P1,0,r,n,n2,0); GOT();
		g=kripto_stream_create(&s,r,P1,n,P2,n2); expect("create",&s,P1,P2,r,n,n2,0); GOT(); o.desc=&s; g=kripto_stream_recreate(O,r,P1,n,P2,n2); expect("recreate",O,P1,P2,r,n,n2,0); GOT();
		g=kripto_ae_create(&e,r,P1,n,P2,n2,t); expect("create",&e,P1,P2,r,n,n2,t); GOT(); o.desc=&e; g=kripto_ae_recreate(O,r,P1,n,P2,n2,t); expect("recreate",O,P1,P2,r,n,n2,t); GOT();
		b.maxkey=b.maxtweak=m.maxkey=s.maxkey=s.maxiv=e.maxkey=e.maxiv=e.maxtag=h.maxsalt=UINT_MAX; m.maxtag=64; h.maxout=0;
		vf_state2((u64)(i*100+j)*10+(u64)sl,&rv,sizeof rv); vf_nontrivial(1);
	}
	for(int i=0;i<7;i++) for(unsigned mu=1;mu<4;mu+=2) if(vf_case("data calls: length #%ld, unit %ld",(long)i,(long)mu))
	{
		size_t n=L[i]/mu*mu; if(!n) n=mu; clr(); o.multof=mu; ret=O;
		o.desc=&b; kripto_block_encrypt(O,P1,P2); expect("encrypt",O,P1,P2,0,0,0,0); kripto_block_decrypt(O,P1,P2); expect("decrypt",O,P1,P2,0,0,0,0); if(kripto_block_getdesc(O)!=&b) vf_fail("other descriptor"); kripto_block_destroy(O); expect("destroy",O,0,0,0,0,0,0);
		o.desc=&h; kripto_hash_input(O,P1,n); expect("input",O,P1,0,n,0,0,0); kripto_hash_output(O,P2,n); expect("output",O,P2,0,n,0,0,0); if(kripto_hash_getdesc(O)!=&h) vf_fail("other descriptor"); kripto_hash_destroy(O); expect("destroy",O,0,0,0,0,0,0);
		for(iret=-1;iret<2;iret++){ int g=kripto_hash_all(&h,5,P1,6,P2,n,P3,L[6-i]); expect("hash_all",&h,P1,P2,5,6,n,L[6-i]); if(allout!=P3) vf_fail("hash_all: another output buffer"); if((g==0)!=(iret==0)) vf_fail("hash_all returned %d, the primitive %d",g,iret); }
		o.desc=&m; kripto_mac_input(O,P1,n); expect("input",O,P1,0,n,0,0,0); kripto_mac_tag(O,o1,9); expect("tag",O,o1,0,9,0,0,0); if(kripto_mac_getdesc(O)!=&m) vf_fail("other descriptor"); kripto_mac_destroy(O); expect("destroy",O,0,0,0,0,0,0);
		o.desc=&s; kripto_stream_encrypt(O,P1,P2,n); expect("encrypt",O,P1,P2,n,0,0,0); kripto_stream_decrypt(O,P1,P2,n); expect("decrypt",O,P1,P2,n,0,0,0); kripto_stream_prng(O,P2,n); expect("prng",O,P2,0,n,0,0,0); num(kripto_stream_multof(O),mu,"data unit"); if(kripto_stream_getdesc(O)!=&s) vf_fail("other descriptor"); kripto_stream_destroy(O); expect("destroy",O,0,0,0,0,0,0);
		o.desc=&e; kripto_ae_encrypt(O,P1,P2,n); expect("encrypt",O,P1,P2,n,0,0,0); kripto_ae_decrypt(O,P1,P2,n); expect("decrypt",O,P1,P2,n,0,0,0); kripto_ae_header(O,P1,n); expect("input",O,P1,0,n,0,0,0); kripto_ae_tag(O,o1,9); expect("tag",O,o1,0,9,0,0,0); num(kripto_ae_multof(O),mu,"data unit"); if(kripto_ae_getdesc(O)!=&e) vf_fail("other descriptor"); kripto_ae_destroy(O); expect("destroy",O,0,0,0,0,0,0);
		vf_nontrivial(1);
	}
	/* verification asks for exactly the given length and accepts exactly the tag */
	for(unsigned n=1;n<=64;n++) for(int bit=-1;bit<(int)n*8;bit++) if(vf_case("verification, %ld bytes, altered bit %ld",(long)n,(long)bit))
	{
		vf_fillpat(vtag,64,n); memcpy(o2,vtag,n); if(bit>=0) o2[bit/8]^=(u8)(1<<bit%8); clr(); o.multof=1;
		for(int k=0;k<2;k++){ o.desc=k?(void*)&e:(void*)&m; int g=k?kripto_ae_verify(O,o2,n):kripto_mac_verify(O,o2,n); if(rec.n!=1||rec.p[0]!=O||rec.v[0]!=n) vf_fail("verification did not ask for the %u bytes of the tag",n); clr(); vf_validated(1); if((g!=0)!=(bit<0)) vf_fail("verification of %s tag returned %d",bit<0?"the right":"an altered",g); }
	}
}
static void u_one(void *a)
{
	(void)a;
	for(unsigned tl=1;tl<=40;tl++) for(unsigned n=0;n<20;n++) for(long k=0;k<3;k++) if(vf_case("one-shot MAC, tag %ld, message %ld, failing creation %ld",(long)tl,(long)n,k))
	{
		begin(); setm(40,300); okrounds=n&1?4:0; failat=k; vf_fillpat(key,tl+n+1,5); memset(o1,0x5A,41); int g=kripto_mac_all(&md,okrounds,key,tl+n+1,data,n,o1,tl); end(); vf_validated(1);
		if(k==1){ if(!g) vf_fail("one-shot call succeeded although the MAC could not be created"); } else { if(g) vf_fail("one-shot call failed"); th(KM,okrounds,key,tl+n+1,tl,data,n,o2); vf_eq(o1,o2,tl,"tag"); if(o1[tl]!=0x5A) vf_fail("wrote beyond the tag"); vf_nontrivial(1); vf_state2(tl,o1,tl); }
	}
}
static void many(void *a){ cfg *c=a; unsigned step=4; for(unsigned n=c->bs;n<c->bs+step&&n<=255;n++){ cfg x={c->mode,n}; if(n==0) continue; if(c->mode<OMAC){ if(n<=255) u_stream(&x); } else if(c->mode==EAX) u_eax(&x); else if(c->mode==OMAC||n<=255) u_mac(&x); } }
static void reg(void)
{
	sbox(); setdead(); data=malloc(DL); zero=calloc(1,DL); o1=malloc(DL); o2=malloc(DL); vf_fillpat(data,DL,31337); vf_fillpat(key,sizeof key,77); vf_fillpat(ivb,sizeof ivb,78);
	for(int m=0;m<NMODE;m++) for(unsigned n=0;n<=255;n+=4){ cfg *c=calloc(1,sizeof *c); c->mode=m; c->bs=n; vf_unit(many,c,"%s over blocks of %u..%u bytes",MN[m],n?n:1,n+3>255?255:n+3); }
	static const unsigned BIG[]={256,257,300,383,511,512,513,640,777,1000,1023,1024};
	for(int m=0;m<NMODE;m++) if(m<OMAC||m==XCBC) for(unsigned i=0;i<sizeof BIG/sizeof *BIG;i++){ cfg *c=calloc(1,sizeof *c); c->mode=m; c->bs=BIG[i]; vf_unit(m<OMAC?u_stream:u_mac,c,"%s over blocks of %u bytes",MN[m],BIG[i]); }
	static const unsigned B[]={1,2,3,4,5,7,8,9,12,16,20,31,32,33,48,63,64,65,72,100,104,127,128,129,136,144,168,200,255,256};
	for(unsigned i=0;i<sizeof B/sizeof *B;i++){ cfg *c=calloc(1,sizeof *c); c->bs=B[i]; vf_unit(u_hmac,c,"HMAC over a hash with blocks of %u bytes",B[i]); }
	for(int i=0;i<20;i++) for(unsigned mu=1;mu<4;mu+=2){ cfg *c=calloc(1,sizeof *c); c->mode=i; c->bs=mu; vf_unit(u_eax2,c,"EAX2 over own stream cipher and MAC, key limits #%d, unit %u",i,mu); }
	vf_unit(u_generic,0,"generic calls"); vf_unit(u_one,0,"one-shot MAC calls");
}
int main(int c, char **v){ return vf_main(c,v,reg); }
