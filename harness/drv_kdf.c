/* K01 PBKDF2 and K02 scrypt against models written from RFC 8018 and RFC 7914, over every MAC of
   the library and over a tiny MAC of the harness that also monitors the call protocol and injects
   failures. */
#include "objs.h"
#include <limits.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/desc/mac.h>
typedef struct { const prim *p; int a; } cfg;
static cfg *mkc(const prim *p, int a){ cfg *c=calloc(1,sizeof *c); c->p=p; c->a=a; return c; }
/* ---- tiny MAC: tag length fixed by the descriptor; not secure, but depends on everything */
typedef struct { const kripto_desc_mac *desc; u64 h; unsigned tl; int live, phase; u8 key[300]; unsigned kl, r; } tmac; /* begins like a library object */
static kripto_desc_mac tdesc[6]; static const unsigned TT[6]={1,2,3,8,20,64};
static tmac tpool[4]; static int tlive; static long tcalls, tfail; static const char *tproto;
static u64 tmix(u64 h, u8 b){ h=(h^b)*0x9FB21C651E98DF25ULL; return h^(h>>29); }
static void tinit(tmac *s, unsigned r, const void *k, unsigned kl, unsigned tl){ s->h=0x1234567+r*77u+kl*1315423911u; for(unsigned i=0;i<kl;i++) s->h=tmix(s->h,((const u8*)k)[i]); s->tl=tl; s->phase=0; s->kl=kl; s->r=r; memcpy(s->key,k,kl<300?kl:300); }
static kripto_mac *t_create(const kripto_desc_mac *d, unsigned r, const void *k, unsigned kl, unsigned tl)
{
	if(++tcalls==tfail) return 0;
	if(tl!=d->maxtag){ tproto="MAC created with a tag length other than the longest"; }
	for(int i=0;i<4;i++) if(!tpool[i].live){ tpool[i].desc=d; tpool[i].live=1; tlive++; tinit(tpool+i,r,k,kl,tl); return (kripto_mac*)(tpool+i); }
	tproto="more than four MAC objects alive"; return 0;
}
static void t_destroy(kripto_mac *m){ tmac *s=(tmac*)m; if(!s->live) tproto="MAC object destroyed twice"; else tlive--; s->live=0; }
static kripto_mac *t_recreate(kripto_mac *m, unsigned r, const void *k, unsigned kl, unsigned tl)
{
	tmac *s=(tmac*)m; if(!s->live) tproto="dead MAC object re-created";
	if(++tcalls==tfail){ t_destroy(m); return 0; }
	tinit(s,r,k,kl,tl); return m;
}
static void t_input(kripto_mac *m, const void *in, size_t n){ tmac *s=(tmac*)m; if(!s->live) tproto="dead MAC object used"; if(s->phase) tproto="MAC input after the tag"; for(size_t i=0;i<n;i++) s->h=tmix(s->h,((const u8*)in)[i]); }
static void tout(u64 h, u8 *o, unsigned tl){ for(unsigned i=0;i<tl;i++){ h=tmix(h,(u8)(i+tl)); o[i]=(u8)(h>>24); } }
static void t_tag(kripto_mac *m, void *o, unsigned n){ tmac *s=(tmac*)m; if(!s->live) tproto="dead MAC object used"; if(s->phase) tproto="second tag from one MAC computation"; s->phase=1; if(n>s->tl) tproto="tag longer than the MAC's"; tout(s->h,o,n); }
static void tmodel(unsigned tl, unsigned r, const u8 *k, unsigned kl, const u8 *m, size_t n, u8 *o){ u64 h=0x1234567+r*77u+kl*1315423911u; for(unsigned i=0;i<kl;i++) h=tmix(h,k[i]); for(size_t i=0;i<n;i++) h=tmix(h,m[i]); tout(h,o,tl); }
static void tdescs(void){ for(int i=0;i<6;i++){ tdesc[i]=(kripto_desc_mac){.create=t_create,.recreate=t_recreate,.input=t_input,.tag=t_tag,.destroy=t_destroy,.maxtag=TT[i],.maxkey=UINT_MAX}; } }
static void tbegin(void){ memset(tpool,0,sizeof tpool); tlive=0; tcalls=tfail=0; tproto=0; }
static void tend(void){ if(tproto) vf_fail("%s",tproto); if(tlive) vf_fail("%d MAC objects left alive",tlive); }
/* ---- models; PRF = prim p or tiny MAC t */
typedef struct { const prim *p; int t; unsigned rounds; const u8 *key; unsigned kl; } prf;
static unsigned prf_len(const prf *f){ return f->p?f->p->maxtag:TT[f->t]; }
static void prf_do(const prf *f, const u8 *m, size_t n, u8 *o){ if(f->p) m_mac(f->p,f->rounds,f->key,f->kl,m,n,o,f->p->maxtag,0); else tmodel(TT[f->t],f->rounds,f->key,f->kl,m,n,o); }
static void F(const prf *f, const u8 *salt, size_t sl, unsigned iter, u32 i, u8 *o)
{
	static u8 *m; static size_t mn; u8 u[256]; unsigned T=prf_len(f); if(sl+4>mn){ free(m); mn=2*sl+4096; m=malloc(mn); }
	memcpy(m,salt,sl); m[sl]=(u8)(i>>24); m[sl+1]=(u8)(i>>16); m[sl+2]=(u8)(i>>8); m[sl+3]=(u8)i;
	prf_do(f,m,sl+4,u); memcpy(o,u,T);
	for(unsigned c=1;c<iter;c++){ u8 v[256]; prf_do(f,u,T,v); memcpy(u,v,T); for(unsigned k=0;k<T;k++) o[k]^=u[k]; }
}
static void m_pbkdf2(const prf *f, const u8 *salt, size_t sl, unsigned iter, u8 *o, size_t n)
{ unsigned T=prf_len(f); u8 b[256]; for(u32 i=1;n;i++){ F(f,salt,sl,iter,i,b); size_t k=n<T?n:T; memcpy(o,b,k); o+=k; n-=k; } }
static u32 rl(u32 x,int n){ return x<<n|x>>(32-n); }
static void salsa8(u8 *b)
{
	u32 x[16],y[16]; for(int i=0;i<16;i++) x[i]=y[i]=(u32)b[4*i]|(u32)b[4*i+1]<<8|(u32)b[4*i+2]<<16|(u32)b[4*i+3]<<24;
	for(int r=0;r<8;r++)
	{
		/* quarter rounds down the diagonalised columns, then transpose */
		u32 t[16];
		for(int j=0;j<4;j++){ int a=5*j%16,b_=(a+4)%16,c=(a+8)%16,d=(a+12)%16; x[b_]^=rl(x[a]+x[d],7); x[c]^=rl(x[b_]+x[a],9); x[d]^=rl(x[c]+x[b_],13); x[a]^=rl(x[d]+x[c],18); }
		for(int i=0;i<4;i++) for(int j=0;j<4;j++) t[4*i+j]=x[4*j+i];
		memcpy(x,t,sizeof x);
	}
	for(int i=0;i<16;i++){ u32 v=x[i]+y[i]; b[4*i]=(u8)v; b[4*i+1]=(u8)(v>>8); b[4*i+2]=(u8)(v>>16); b[4*i+3]=(u8)(v>>24); }
}
static void m_blockmix(u8 *B, unsigned r)
{
	static u8 *Y; static size_t yn; u8 X[64]; if(128*(size_t)r>yn){ free(Y); yn=128*(size_t)r; Y=malloc(yn); }
	memcpy(X,B+64*(2*r-1),64);
	for(unsigned i=0;i<2*r;i++){ for(int j=0;j<64;j++) X[j]^=B[64*i+j]; salsa8(X); memcpy(Y+64*i,X,64); }
	for(unsigned i=0;i<r;i++) memcpy(B+64*i,Y+64*2*i,64);
	for(unsigned i=0;i<r;i++) memcpy(B+64*(r+i),Y+64*(2*i+1),64);
}
static void m_romix(u8 *B, unsigned r, u64 N)
{
	size_t s=128*(size_t)r; u8 *V=malloc(s*N); if(!V) vf_fail("model: memory");
	for(u64 i=0;i<N;i++){ memcpy(V+s*i,B,s); m_blockmix(B,r); }
	for(u64 i=0;i<N;i++){ const u8 *q=B+64*(2*r-1); u64 j=0; for(int k=7;k>=0;k--) j=j<<8|q[k]; j%=N; for(size_t k=0;k<s;k++) B[k]^=V[s*j+k]; m_blockmix(B,r); }
	free(V);
}
static void m_scrypt(const prf *f, const u8 *salt, size_t sl, u64 N, unsigned r, unsigned p, u8 *o, size_t n)
{
	size_t s=128*(size_t)r; u8 *B=malloc(s*p); m_pbkdf2(f,salt,sl,1,B,s*p);
	for(unsigned i=0;i<p;i++) m_romix(B+s*i,r,N);
	m_pbkdf2(f,B,s*p,1,o,n); free(B);
}
/* ---- one call with its frame conditions */
static u8 key[KMAX], salt[70000], skey[KMAX], ssalt[70000];
#define OUTMAX 8192
static u8 exp_[OUTMAX], got[OUTMAX+64];
static void call(int which, const prf *f, u64 N, unsigned r, unsigned p, unsigned iter, size_t sl, size_t n, const u8 *e, int wantfail)
{
	const kripto_desc_mac *d = f->p?f->p->desc:tdesc+f->t; int rc;
	memcpy(skey,key,f->kl); memcpy(ssalt,salt,sl); memset(got,0xE7,n+64); tbegin();
	vf_trans(1);
	if(which==0) rc=kripto_pbkdf2(d,f->rounds,iter,key,f->kl,sl?salt:0,(unsigned)sl,got+32,n);
	else rc=kripto_scrypt(d,f->rounds,N,r,p,key,f->kl,sl?salt:0,(unsigned)sl,got+32,n);
	if(wantfail){ vf_true(rc!=0,"failure not reported"); return; }
	if(rc) vf_fail("key derivation failed (%d)",rc);
	vf_eq(got+32,e,n,which?"scrypt output":"PBKDF2 output"); vf_nontrivial(1);
	for(int i=0;i<32;i++) if(got[i]!=0xE7||got[32+n+(size_t)i]!=0xE7) vf_fail("bytes outside the output are written");
	if(memcmp(skey,key,f->kl)||memcmp(ssalt,salt,sl)) vf_fail("password or salt is modified");
	if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
	if(!f->p) tend();
	u64 h=vf_hash(N*64+r*8+p+iter*1000,e,n); vf_state(&h,8);
}
static void setkey(prf *f, unsigned kl, int s){ f->kl=kl; f->key=key; vf_fillpat(key,kl,8000u+(unsigned)s); }
static void u_pb(void *a)
{
	cfg *c=a; const prim *p=c->p; prf f={p,c->a,0,key,0}; unsigned T=prf_len(&f), X=p?p->xkey:80, rr[8]; int nr=p?(int)prim_rounds(p,rr):0;
	vf_fillpat(salt,sizeof salt,77);
	if(p && !p->maxtag)
	{
		if(vf_case("MAC without a longest tag%.0ld",0L)){ setkey(&f,20,0); call(0,&f,0,0,0,2,10,32,exp_,1); for(int i=0;i<64;i++) if(got[32+i]!=0xE7&&i<32) vf_fail("a failed derivation wrote output"); }
		return;
	}
	unsigned B = p?(p->h?p->h->blocksize:p->b->bs):16;
	/* every output length */
	static const unsigned IT[]={1,2,3,5,17};
	for(int ii=0;ii<(vf_thorough?5:3);ii++){ unsigned L=IT[ii]==1?3*T+2:vf_thorough?2*T+3:T+2; setkey(&f,X<9?X:9,ii); m_pbkdf2(&f,salt,11,IT[ii],exp_,L);
		for(unsigned n=0;n<=L;n++) if(vf_case("iterations %ld, output %ld",(long)IT[ii],(long)n)) call(0,&f,0,0,0,IT[ii],11,n,exp_,0); }
	/* every password length */
	for(unsigned k=1;k<=X;k++) if(vf_case("password of %ld bytes",(long)k)){ setkey(&f,k,3); m_pbkdf2(&f,salt,8,2,exp_,T+1); call(0,&f,0,0,0,2,8,T+1,exp_,0); }
	/* every salt length */
	for(unsigned s=0;s<=3*B+5;s++) for(int k=0;k<2;k++) if(vf_case("salt of %ld bytes, long password %ld",(long)s,(long)k)){ setkey(&f,k?X:1,4); unsigned n=s%3?T:2*T+1; m_pbkdf2(&f,salt,s,s%2+1,exp_,n); call(0,&f,0,0,0,s%2+1,s,n,exp_,0); }
	for(unsigned s=255;s<=(vf_thorough?69000u:20000u);s=s*2+1) for(int k=0;k<3;k++) if(vf_case("salt of %ld bytes",(long)s+k)){ setkey(&f,X<9?X:9,4); m_pbkdf2(&f,salt,s+(unsigned)k,1,exp_,T); call(0,&f,0,0,0,1,s+(unsigned)k,T,exp_,0); }
	/* iteration counts */
	for(unsigned it=1;it<=(vf_thorough?300u:40u);it++) if(vf_case("iterations %ld",(long)it)){ setkey(&f,X<9?X:9,5); m_pbkdf2(&f,salt,8,it,exp_,T+T/2); call(0,&f,0,0,0,it,8,T+T/2,exp_,0); }
	{ static const unsigned big[]={255,256,257,1000,4096,65535,65536,65537}; for(int i=0;i<(vf_thorough?8:p?4:8);i++) if(vf_case("iterations %ld",(long)big[i])){ setkey(&f,X<9?X:9,5); m_pbkdf2(&f,salt,8,big[i],exp_,T); call(0,&f,0,0,0,big[i],8,T,exp_,0); } }
	/* rounds of the MAC */
	for(int i=0;i<nr;i++) for(int k=0;k<3;k++) if(vf_case("rounds %ld, password %ld",(long)rr[i],(long)(k==0?1:k==1?X:X/2+1))){ setkey(&f,k==0?1:k==1?X:X/2+1,6); f.rounds=rr[i]; m_pbkdf2(&f,salt,9,3,exp_,T*2); call(0,&f,0,0,0,3,9,T*2,exp_,0); f.rounds=0; }
	/* salts, passwords: byte values at the ends, zero bytes, embedded zeros */
	for(int v=0;v<256;v+=vf_thorough?1:5) for(int w=0;w<4;w++) if(vf_case("byte %ld at place %ld",(long)v,(long)w)){ setkey(&f,X<9?X:9,7); u8 s0=salt[0],s9=salt[9]; if(w==0) key[0]=(u8)v; if(w==1) key[f.kl-1]=(u8)v; if(w==2) salt[0]=(u8)v; if(w==3) salt[9]=(u8)v; m_pbkdf2(&f,salt,10,2,exp_,T); call(0,&f,0,0,0,2,10,T,exp_,0); salt[0]=s0; salt[9]=s9; }
	/* every failing allocation */
	setkey(&f,X<9?X:9,8); vf_heap_reset(); tbegin(); kripto_pbkdf2(p?p->desc:tdesc+c->a,0,3,key,f.kl,salt,9,got,2*T+1); long n=vf_alloc_count;
	for(long k=1;k<=n;k++) for(int from=0;from<2;from++) if(vf_case("allocation %ld fails (all later: %ld)",k,(long)from))
	{
		tbegin(); if(from) vf_fail_from=k; else vf_fail_at=k;
		vf_true(kripto_pbkdf2(p?p->desc:tdesc+c->a,0,3,key,f.kl,salt,9,got,2*T+1)!=0,"key derivation succeeded although an allocation failed"); tend();
		if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
	}
	/* the tiny MAC: every failing MAC call; block counter carries */
	if(!p)
	{
		for(unsigned it=1;it<=5;it++) for(unsigned nb=1;nb<=4;nb++)
		{
			setkey(&f,7,9); tbegin(); kripto_pbkdf2(tdesc+c->a,0,it,key,7,salt,5,got,nb*T); long m=tcalls;
			for(long k=1;k<=m;k++) if(vf_case("iterations %ld, %ld blocks: MAC (re-)creation %ld fails",(long)it,(long)nb,k))
			{
				tbegin(); tfail=k; int rc=kripto_pbkdf2(tdesc+c->a,0,it,key,7,salt,5,got,nb*T); vf_trans(1); tend();
				if(tcalls>=k) vf_true(rc!=0,"key derivation succeeded although a MAC operation failed");
				if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
			}
		}
		size_t nb = c->a==0?((size_t)1<<24)+3:c->a<3?((size_t)1<<17)+3:((size_t)1<<16)+3; if(vf_thorough && c->a==1) nb=((size_t)1<<25)+3;
		if(vf_case("%ld output blocks",(long)nb))
		{
			setkey(&f,5,1); u8 *o=malloc(nb*T), b[64]; tbegin(); if(kripto_pbkdf2(tdesc+c->a,0,1,key,5,salt,3,o,nb*T)) vf_fail("key derivation failed"); tend(); vf_trans((long)nb);
			for(size_t i=0;i<nb;i++){ if(!(i&0xFFFFF)) vf_alive(); F(&f,salt,3,1,(u32)(i+1),b); if(memcmp(o+i*T,b,T)) vf_fail("output block %zu differs from its definition",i+1); }
			vf_validated((long)nb); free(o);
		}
	}
	else if((p->h && p->h->maxout && p->h->maxout<=32 && p->mode==P_HMAC) || (p->b && p->b->bs<=8 && p->mode==P_OMAC && vf_thorough))
	{
		size_t nb = vf_thorough?65538:258;
		if(vf_case("%ld output blocks",(long)nb))
		{
			setkey(&f,X<9?X:9,1); u8 *o=malloc(nb*T), b[256]; if(kripto_pbkdf2(p->desc,0,1,key,f.kl,salt,3,o,nb*T)) vf_fail("key derivation failed"); vf_trans((long)nb);
			for(size_t i=0;i<nb;i++){ if(!(i&0xFFF)) vf_alive(); F(&f,salt,3,1,(u32)(i+1),b); if(memcmp(o+i*T,b,T)) vf_fail("output block %zu differs from its definition",i+1); }
			vf_validated((long)nb); free(o);
		}
	}
}
static void u_sc(void *a)
{
	cfg *c=a; const prim *p=c->p; prf f={p,c->a,0,key,0}; unsigned T=prf_len(&f), X=p?p->xkey:80, rr[8]; int nr=p?(int)prim_rounds(p,rr):0;
	vf_fillpat(salt,sizeof salt,78);
	if(p && !p->maxtag)
	{
		if(vf_case("MAC without a longest tag%.0ld",0L)){ setkey(&f,20,0); call(1,&f,4,2,2,0,10,32,exp_,1); }
		return;
	}
	int full = !p || !strcmp(p->name,"hmac/sha2_256");
	/* every (N, r, p) */
	for(u64 N=2;N<=(full?(vf_thorough?1024:64):4);N*=2) for(unsigned r=1;r<=(full?(vf_thorough?17u:9u):2u);r++) for(unsigned q=1;q<=(full?5u:2u);q++)
		if((N<=64||r<=8) && vf_case("N=%ld r=%ld p=%ld",(long)N,(long)r,(long)q)){ setkey(&f,X<9?X:9,(int)(N+r+q)); size_t n=full?40+r:T+1; m_scrypt(&f,salt,7,N,r,q,exp_,n); call(1,&f,N,r,q,0,7,n,exp_,0); }
	if(full)
	{
		static const unsigned R[]={16,17,31,32,33,63,64,65,100,128,129,255,256,257}; for(int i=0;i<14;i++) for(unsigned q=1;q<=2;q++) if(vf_case("N=%ld r=%ld p=%ld",2L,(long)R[i],(long)q)){ setkey(&f,9,1); m_scrypt(&f,salt,7,2,R[i],q,exp_,50); call(1,&f,2,R[i],q,0,7,50,exp_,0); }
		for(unsigned q=6;q<=(vf_thorough?1100u:70u);q+=q<70?1:101) if(vf_case("N=%ld r=%ld p=%ld",2L,1L,(long)q)){ setkey(&f,9,1); m_scrypt(&f,salt,7,2,1,q,exp_,50); call(1,&f,2,1,q,0,7,50,exp_,0); }
		for(u64 N=128;N<=(vf_thorough?1u<<18:1u<<12);N*=2) if(vf_case("N=%ld r=%ld p=%ld",(long)N,1L,1L)){ setkey(&f,9,1); m_scrypt(&f,salt,7,N,1,1,exp_,50); call(1,&f,N,1,1,0,7,50,exp_,0); }
		if(vf_thorough||!p) for(u64 N=1u<<12;N<=(vf_thorough?1u<<17:1u<<13);N*=2) if(vf_case("N=%ld r=%ld p=%ld",(long)N,8L,2L)){ setkey(&f,9,1); m_scrypt(&f,salt,7,N,8,2,exp_,50); vf_alive(); call(1,&f,N,8,2,0,7,50,exp_,0); }
	}
	/* output, password and salt lengths, rounds */
	for(unsigned n=0;n<=(full||vf_thorough?3*T+2:T+2);n++) if(vf_case("output %ld",(long)n)){ setkey(&f,X<9?X:9,2); m_scrypt(&f,salt,7,2,1,2,exp_,n); call(1,&f,2,1,2,0,7,n,exp_,0); }
	for(unsigned k=1;k<=X;k+=full||vf_thorough?1:7) if(vf_case("password of %ld bytes",(long)k)){ setkey(&f,k,3); m_scrypt(&f,salt,8,4,1,1,exp_,T); call(1,&f,4,1,1,0,8,T,exp_,0); }
	for(unsigned s=0;s<=150;s+=full||vf_thorough?1:11) if(vf_case("salt of %ld bytes",(long)s)){ setkey(&f,X<9?X:9,4); m_scrypt(&f,salt,s,2,1,1,exp_,T); call(1,&f,2,1,1,0,s,T,exp_,0); }
	for(int i=0;i<nr;i++) if(vf_case("rounds %ld",(long)rr[i])){ setkey(&f,X,6); f.rounds=rr[i]; m_scrypt(&f,salt,9,4,2,1,exp_,T*2); call(1,&f,4,2,1,0,9,T*2,exp_,0); f.rounds=0; }
	/* failing allocations and MAC calls */
	const void *d=p?(const void*)p->desc:(const void*)(tdesc+c->a);
	setkey(&f,X<9?X:9,8); vf_heap_reset(); tbegin(); kripto_scrypt(d,0,4,1,1,key,f.kl,salt,9,got,T+1); long n=vf_alloc_count;
	for(long k=1;k<=n;k++) for(int from=0;from<2;from++) if(vf_case("allocation %ld fails (all later: %ld)",k,(long)from))
	{
		tbegin(); if(from) vf_fail_from=k; else vf_fail_at=k;
		vf_true(kripto_scrypt(d,0,4,1,1,key,f.kl,salt,9,got,T+1)!=0,"key derivation succeeded although an allocation failed"); tend();
		if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
	}
	if(!p)
	{
		tbegin(); kripto_scrypt(d,0,4,1,1,key,f.kl,salt,9,got,2*T); long m=tcalls;
		for(long k=1;k<=m;k++) if(vf_case("MAC (re-)creation %ld fails",k)){ tbegin(); tfail=k; int rc=kripto_scrypt(d,0,4,1,1,key,f.kl,salt,9,got,2*T); vf_trans(1); tend(); if(tcalls>=k) vf_true(rc!=0,"key derivation succeeded although a MAC operation failed"); if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live()); }
	}
}
/* every (N, r, p) of powers of two (and r, p one more) whose work is below a bound */
static void u_wide(void *a)
{
	cfg *c=a; const int lim=vf_thorough?23:20; prf f={c->p,4,0,key,0}; int la=c->a; vf_fillpat(salt,sizeof salt,78);
	for(int lb=0;la+lb<=lim;lb++) for(int dr=0;dr<=1;dr++) for(int lc=0;la+lb+lc<=lim;lc++) for(int dp=0;dp<=1;dp++)
	{
		u64 N=1ULL<<la; u32 r=(1u<<lb)+(u32)dr, q=(1u<<lc)+(u32)dp; if((dr&&!lb)||(dp&&!lc)) continue;
		if(lc>1 && la+lb+lc>lim-4) continue; if((dr||dp) && la+lb+lc>lim-3) continue;
		if((u64)r*q>(vf_thorough?1u<<19:1u<<16) && la>3) continue;
		if(!vf_case("N=2^%ld r=%ld p=%ld",(long)la,(long)r,(long)q)) continue;
		vf_heap_reset(); setkey(&f,9,1); m_scrypt(&f,salt,7,N,r,q,exp_,50); vf_alive(); call(1,&f,N,r,q,0,7,50,exp_,0); vf_alive();
	}
}
/* parameters whose memory cannot be obtained, including all that overflow size arithmetic */
static void u_big(void *a)
{
	cfg *c=a; const double LIM=c->a?1u<<20:1u<<16; prf f={0,3,0,key,0};
	for(int la=1;la<64;la++) for(int lb=0;lb<32;lb++) for(int db=-1;db<=1;db++) for(int lp=0;lp<32;lp++) for(int dp=-1;dp<=1;dp++)
	{
		u64 N=1ULL<<la; long long r=(1LL<<lb)+db, q=(1LL<<lp)+dp; if(r<1||q<1||r>0xFFFFFFFFLL||q>0xFFFFFFFFLL) continue;
		double need=128.0*(double)r*(double)N, need2=128.0*(double)r*(double)q;
		if(need<=LIM && need2<=LIM) continue; /* may succeed: covered by the other units */
		if(need<=4*LIM && need2<=4*LIM) continue;
		if(!vf_case("N=2^%ld r=%ld p=%ld with too little memory",(long)la,(long)r,(long)q)) continue;
		setkey(&f,5,1); tbegin(); vf_alloc_limit=(size_t)LIM; memset(got,0xE7,64); vf_trans(1);
		int rc=kripto_scrypt(tdesc+3,0,N,(u32)r,(u32)q,key,5,salt,4,got,32); tend();
		vf_true(rc!=0,"parameters whose memory cannot be obtained are not reported as failure"); if(vf_heap_live()) vf_fail("leak");
		vf_alloc_limit=0;
	}
}
static void reg(void)
{
	prims_init(); tdescs(); vf_fill=0xA5;
	for(int k=0;k<2;k++)
	{
		if(!strstr(vf_opt,k?"scrypt":"pbkdf2")) continue;
		if(k) for(int b=0;b<2;b++) vf_unit(u_big,mkc(0,b),"scrypt/memory%d",b);
		if(k) for(int la=24;la>=1;la--) vf_unit(u_wide,mkc(0,la),"scrypt/wide%d",la);
		for(int t=0;t<6;t++) vf_unit(k?u_sc:u_pb,mkc(0,t),"%s/tiny%u",k?"scrypt":"pbkdf2",TT[t]);
		for(int i=0;i<nprims;i++) if(prims[i].kind==K_MAC) vf_unit(k?u_sc:u_pb,mkc(prims+i,0),"%s/%s",k?"scrypt":"pbkdf2",prims[i].name);
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
