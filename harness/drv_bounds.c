/* X04: every caller buffer exactly bounded.  Inputs are passed through a read-only view of memory
   that the harness writes through another one; both views end and begin at inaccessible pages.  In
   the address-checked build everything around a buffer is poisoned as well, and heap blocks, stack
   objects and tables of the library are checked at each access. */
#define _GNU_SOURCE
#include "objs.h"
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/pkcs7.h>
#include <kripto/memory.h>
#include <sys/mman.h>
#include <unistd.h>
#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define POISON(p,n) ASAN_POISON_MEMORY_REGION(p,n)
#define UNPOISON(p,n) ASAN_UNPOISON_MEMORY_REGION(p,n)
#define ASAN 1
#else
#define POISON(p,n)
#define UNPOISON(p,n)
#define ASAN 0
#endif
#define SZ 16384
typedef struct { u8 *rw, *ro; size_t lo, hi; } slot; /* lo..hi: part last touched */
enum { KEY, IV, IN, OUT, TAG, NSLOT }; static slot sl[NSLOT];
static u8 *map(int fd, int prot){ u8 *b=mmap(0,SZ+8192,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(b==MAP_FAILED||mmap(b+4096,SZ,prot,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED){ perror("mmap"); exit(2); } return b+4096; }
/* each unit runs in a process of its own: views are made there */
static void slots(void){ for(int i=0;i<NSLOT;i++){ int fd=memfd_create("slot",0); if(fd<0||ftruncate(fd,SZ)){ perror("memfd"); exit(2); } sl[i].rw=map(fd,PROT_READ|PROT_WRITE); sl[i].ro=map(fd,PROT_READ); close(fd); } }
/* placement 0: ends at the upper inaccessible page; 1: begins at the lower one; 16+a: inside, address a mod 16 */
static size_t at(size_t n, int pl){ return pl==0?SZ-n:pl==1?0:4096+(size_t)(pl-16); }
static u8 *prep(slot *s, size_t n, int pl)
{
	size_t a=at(n,pl), lo=a>256?a-256:0, hi=a+n+256<SZ?a+n+256:SZ; UNPOISON(s->rw,SZ); UNPOISON(s->ro,SZ);
	memset(s->rw+lo,0xB7,hi-lo); s->lo=lo; s->hi=hi; return s->rw+a;
}
static const u8 *in_(int i, const u8 *data, size_t n, int pl)
{
	slot *s=sl+i; u8 *w=prep(s,n,pl); memcpy(w,data,n); POISON(s->ro,SZ); UNPOISON(s->ro+at(n,pl),n);
	if(!n) return pl==0?s->ro+SZ:s->ro-1-(pl&15);  /* nothing may be touched */
	return s->ro+at(n,pl);
}
static u8 *out_(int i, const u8 *data, size_t n, int pl) /* data: initial contents (in place) or null */
{
	slot *s=sl+i; u8 *w=prep(s,n,pl); if(data) memcpy(w,data,n); else memset(w,0xE7,n); POISON(s->rw,SZ); UNPOISON(s->rw+at(n,pl),n);
	if(!n) return pl==0?s->rw+SZ:s->rw-1-(pl&15);
	return w;
}
static u8 *outchk(int i, size_t n, int pl, const char *what)
{
	slot *s=sl+i; size_t a=at(n,pl); UNPOISON(s->rw,SZ); vf_validated(1);
	for(size_t k=s->lo;k<a;k++) if(s->rw[k]!=0xB7) vf_fail("%s: byte %zu before the buffer is written",what,a-k);
	for(size_t k=a+n;k<s->hi;k++) if(s->rw[k]!=0xB7) vf_fail("%s: byte %zu past the end of the buffer is written",what,k-a-n);
	return s->rw+a;
}
static const prim *P; static u8 kb[KMAX+1], vb[KMAX+1];
static unsigned blk(void){ return P->h?P->h->blocksize:P->b?P->b->bs:P->mode==P_EAX2&&P->s->b?P->s->b->bs:64; }
/* creation or re-creation with key and iv in their slots */
static void *mk(void *o, const par *q, int kp, int vp)
{
	par_key(q,kb); par_iv(q,vb); const u8 *k=in_(KEY,kb,q->kl,kp), *v=in_(IV,vb,q->ivl,vp); void *r; vf_trans(1);
	switch(P->kind)
	{
	case K_HASH: r=o?kripto_hash_recreate(o,q->rounds,k,q->kl,q->tl):kripto_hash_create(P->desc,q->rounds,k,q->kl,q->tl); break;
	case K_BLOCK: r=o?kripto_block_recreate(o,q->rounds,k,q->kl):kripto_block_create(P->desc,q->rounds,k,q->kl); break;
	case K_MAC: r=o?kripto_mac_recreate(o,q->rounds,k,q->kl,q->tl):kripto_mac_create(P->desc,q->rounds,k,q->kl,q->tl); break;
	case K_STREAM: r=o?kripto_stream_recreate(o,q->rounds,k,q->kl,v,q->ivl):kripto_stream_create(P->desc,q->rounds,k,q->kl,v,q->ivl); break;
	default: r=o?kripto_ae_recreate(o,q->rounds,k,q->kl,v,q->ivl,q->tl):kripto_ae_create(P->desc,q->rounds,k,q->kl,v,q->ivl,q->tl);
	}
	if(!r) vf_fail("%s returned null",o?"re-creation":"creation");
	return r;
}
static u8 scratch[8192];
static void use(void *o, const par *q){ static u8 b[PROBE_MAX]; for(int f=0;f<1;f++) o_probe(P,o,q,f,b); vf_heap_check(); }
/* one data call of n bytes; op: 0 input/header/encrypt, 1 decrypt, 2 encrypt in place, 3 decrypt in place, 4 keystream, 5 header, 6 encrypt a block */
static int nops(void){ switch(P->kind){ case K_HASH: case K_MAC: return 1; case K_BLOCK: return 4; case K_STREAM: return P->hasprng?5:4; default: return 5; } }
static const u8 *op(void *o, int w, const u8 *data, size_t n, int ip, int op_)
{
	const u8 *i; u8 *x; vf_trans(1); vf_nontrivial(1);
	switch(P->kind)
	{
	case K_HASH: kripto_hash_input(o,in_(IN,data,n,ip),n); return 0;
	case K_MAC: kripto_mac_input(o,in_(IN,data,n,ip),n); return 0;
	case K_BLOCK:
		if(w<2){ i=in_(IN,data,n,ip); x=out_(OUT,0,n,op_); } else { x=out_(OUT,data,n,op_); i=x; }
		if(w&1) kripto_block_decrypt(o,i,x); else kripto_block_encrypt(o,i,x); return outchk(OUT,n,op_,w&1?"decrypt":"encrypt");
	case K_STREAM:
		if(w==4){ x=out_(OUT,0,n,op_); kripto_stream_prng(o,x,n); return outchk(OUT,n,op_,"keystream"); }
		if(w<2){ i=in_(IN,data,n,ip); x=out_(OUT,0,n,op_); } else { x=out_(OUT,data,n,op_); i=x; }
		if(w&1) kripto_stream_decrypt(o,i,x,n); else kripto_stream_encrypt(o,i,x,n); return outchk(OUT,n,op_,w&1?"decrypt":"encrypt");
	default:
		if(w==4){ kripto_ae_header(o,in_(IN,data,n,ip),n); return 0; }
		if(w<2){ i=in_(IN,data,n,ip); x=out_(OUT,0,n,op_); } else { x=out_(OUT,data,n,op_); i=x; }
		if(w&1) kripto_ae_decrypt(o,i,x,n); else kripto_ae_encrypt(o,i,x,n); return outchk(OUT,n,op_,w&1?"decrypt":"encrypt");
	}
}
/* the result, if any, of n bytes into the output slot */
static const u8 *result(void *o, size_t n, int pl)
{
	u8 *x; vf_trans(1);
	switch(P->kind)
	{
	case K_HASH: x=out_(TAG,0,n,pl); kripto_hash_output(o,x,n); return outchk(TAG,n,pl,"digest");
	case K_MAC: x=out_(TAG,0,n,pl); kripto_mac_tag(o,x,(unsigned)n); return outchk(TAG,n,pl,"tag");
	case K_AE: x=out_(TAG,0,n,pl); kripto_ae_tag(o,x,(unsigned)n); return outchk(TAG,n,pl,"tag");
	}
	return 0;
}
static void fin(void *o){ o_destroy(P,o); if(vf_heap_live()) vf_fail("%d heap blocks are left",vf_heap_live()); for(int i=0;i<NSLOT;i++){ UNPOISON(sl[i].rw,SZ); UNPOISON(sl[i].ro,SZ); } }
static void oneshot(const par *q, size_t n, int kp, int ip, int tp)
{
	u8 *x; if(!q->tl) return; par_key(q,kb); vf_trans(1);
	if(P->kind==K_HASH){ const u8 *k=in_(KEY,kb,q->kl,kp),*i=in_(IN,o_data,n,ip); x=out_(TAG,0,q->tl,tp); if(kripto_hash_all(P->desc,q->rounds,k,q->kl,i,n,x,q->tl)) vf_fail("one call failed"); outchk(TAG,q->tl,tp,"one call"); }
	if(P->kind==K_MAC){ const u8 *k=in_(KEY,kb,q->kl,kp),*i=in_(IN,o_data,n,ip); x=out_(TAG,0,q->tl,tp); if(kripto_mac_all(P->desc,q->rounds,k,q->kl,i,(unsigned)n,x,q->tl)) vf_fail("one call failed"); outchk(TAG,q->tl,tp,"one call"); }
}
static void verify(void *o, const par *q, const u8 *t, int pl)
{
	int r; if(!q->tl) return; vf_trans(1);
	if(P->kind==K_MAC) r=kripto_mac_verify(o,in_(TAG,t,q->tl,pl),q->tl); else if(P->kind==K_AE) r=kripto_ae_verify(o,in_(TAG,t,q->tl,pl),q->tl); else return;
	(void)r;
}
static void u_prim(void *arg)
{
	P=arg; slots(); unsigned B=blk(), u=P->unit; par q[8]; int nq=par_list(P,q,8); static u8 ref[4096], t[512]; int T=vf_thorough, small=B<=16&&u==1;
	/* keys (salts), ivs, tags */
	for(unsigned k=P->minkey;k<=P->xkey;k++) for(int pl=0;pl<2;pl++) for(int m=0;m<3;m++) if(vf_case("key of %ld bytes, placement %ld, other lengths %ld",(long)k,(long)pl,(long)m))
	{
		par z=q[m==2?1:0]; z.kl=k; if(m==1){ z.ivl=0; z.tl=P->xtag?1:0; } if(P->kind!=K_HASH&&!k) continue;
		void *o=mk(0,&z,pl,0); use(o,&z); o=mk(o,&z,pl,0); use(o,&z); fin(o); if(m<2) oneshot(&z,m?0:B+3,pl,pl,pl); vf_state(&k,4);
	}
	for(unsigned v=0;v<=P->xiv;v++) for(int pl=0;pl<2;pl++) for(int m=0;m<2;m++) if(vf_case("iv of %ld bytes, placement %ld, key length %ld",(long)v,(long)pl,(long)m)){ par z=q[0]; z.ivl=v; if(m) z.kl=P->minkey; void *o=mk(0,&z,0,pl); use(o,&z); o=mk(o,&z,0,pl); use(o,&z); fin(o); vf_state2(1,&v,4); }
	if(P->kind!=K_BLOCK&&P->kind!=K_STREAM) for(unsigned n=1;n<=P->xtag;n++) for(int pl=0;pl<2;pl++) for(size_t c=0;c<=(P->kind==K_HASH?n:0);c+=(P->kind==K_HASH&&!T&&n>8?n/6+1:1)) for(int d=0;d<2;d++) if(vf_case("tag of %ld bytes, placement %ld, cut at %ld, data %ld",(long)n,(long)pl,(long)c,(long)d))
	{
		par z=q[0]; z.tl=n; void *o=mk(0,&z,0,0); op(o,0,o_data,u>1?u:d?2*B+1:0,0,0); if(P->kind==K_AE) op(o,4,o_data,d*7u,0,0);
		if(P->kind==K_HASH){ result(o,c,pl); memcpy(t,result(o,n-c,pl),n-c); } else memcpy(t,result(o,n,pl),n);
		vf_heap_check(); o=mk(o,&z,0,0); op(o,0,o_data,u>1?u:d?2*B+1:0,0,0); if(P->kind==K_AE) op(o,4,o_data,d*7u,0,0); verify(o,&z,t,pl); fin(o); vf_state2(2,&n,4);
		if(c==0) oneshot(&z,d?B:0,0,0,pl);
	}
	/* one data call of every length; then another one */
	size_t D = T ? 6*B+7 : 3*B+5; if(D>(T?900u:450u)) D=T?900:450; if(D<2*u) D=2*u;
	for(int w=0;w<nops();w++) for(size_t n=0;n<=D;n++) for(int pl=0;pl<2;pl++)
	{
		if(P->kind==K_BLOCK&&n!=B) continue; if(u>1&&n%u&&!(P->kind==K_AE&&w==4)) continue;
		for(int s=0;s<(T?nq:2)&&s<nq;s++) if(vf_case("operation %ld of %ld bytes, placement %ld, set %ld",(long)w,(long)n,(long)pl,(long)s))
		{ void *o=mk(0,q+s,0,0); op(o,w,o_data,n,pl,pl); if(P->kind!=K_BLOCK&&P->kind!=K_STREAM) result(o,q[s].tl,pl); vf_heap_check(); fin(o); vf_state2(3+(u64)w,&n,8); }
	}
	if(P->kind!=K_BLOCK) for(int w=0;w<nops();w++) for(int a=0;a<8;a++)
	{
		size_t A[8]={1,2,B/2,B-1,B,B+1,2*B-1,2*B}; size_t x=A[a]; int hdr=P->kind==K_AE&&w==4; if(u>1&&!hdr) x=(size_t)u*(size_t)(a%3+1);
		for(size_t n=0;n<=D;n+=(T||small||n<=B+2||n%B<2||n%B==B-1?1:B-1-n%B>3?3:1)) if(u==1||hdr||n%u==0) if((u==1||hdr||a<3) && vf_case("operation %ld of %ld bytes after one of %ld",(long)w,(long)n,(long)x))
		{ void *o=mk(0,q,0,0); op(o,w,o_data,x,0,1); op(o,w,o_data+x,n,(int)(n&1),(int)(n&1)); op(o,(w+1)%nops(),o_data+x,u>1&&!(P->kind==K_AE&&w==3)?u:5,0,1); if(P->kind!=K_STREAM) result(o,q->tl,0); vf_heap_check(); fin(o); vf_state2(20+(u64)w,&n,8); }
	}
	/* every alignment */
	for(int w=0;w<nops();w++) for(int a=0;a<16;a++) for(int b=0;b<16;b++) if(vf_case("operation %ld, input at %ld, output at %ld mod 16",(long)w,(long)a,(long)b))
	{
		int hdr=P->kind==K_AE&&w==4; size_t L[2]={P->kind==K_BLOCK?B:u>1&&!hdr?u:B+1,P->kind==K_BLOCK?B:u>1&&!hdr?2*u:2*B+3}, m=0; static u8 g[4096];
		for(int r=0;r<2;r++)
		{
			m=0; void *o=mk(0,q,r?16+b:0,r?16+a:0);
			for(int k=0;k<2;k++){ const u8 *y=op(o,w,o_data+m,L[k],r?16+a:0,r?16+b:0); if(y) memcpy((r?g:ref)+m,y,L[k]); else memset((r?g:ref)+m,0,L[k]); m+=L[k]; }
			if(P->kind!=K_BLOCK&&P->kind!=K_STREAM){ const u8 *y=result(o,q->tl,r?16+b:0); memcpy((r?g:ref)+m,y,q->tl); m+=q->tl; }
			fin(o);
		}
		vf_eq(g,ref,m,"result with misaligned buffers"); vf_state2(40,g,m); if(a==b) oneshot(q,B+1,16+a,16+b,16+a);
	}
	/* tweaks */
	if(P->kind==K_BLOCK) for(unsigned n=1;n<=P->b->maxtweak;n++) for(int pl=0;pl<18;pl++) if(vf_case("tweak of %ld bytes, placement %ld",(long)n,(long)pl))
	{ void *o=mk(0,q,0,0); for(int r=0;r<2;r++){ kripto_block_tweak(o,in_(IV,o_data+9,n,pl<2?pl:14+pl),n); vf_trans(1); op(o,0,o_data,B,0,0); op(o,1,o_data,B,0,0); } vf_heap_check(); fin(o); }
	/* every round count: tables and arrays of the library */
	{
		static unsigned R[4096]; int n=0; if(P->kind==K_BLOCK) n=cat_rounds(P->b,R); else if(P->h&&P->kind==K_HASH) while(P->h->rounds[n]){ R[n]=P->h->rounds[n]; n++; } else n=(int)prim_rounds(P,R);
		for(int i=0;i<n;i++) for(int k=0;k<3;k++) if(vf_case("rounds %ld, key length %ld",(long)R[i],(long)k)){ par z=q[k]; z.rounds=R[i]; void *o=mk(0,&z,0,0); use(o,&z); for(int w=0;w<nops()&&P->kind!=K_MAC&&P->kind!=K_HASH&&P->kind!=K_AE;w++) op(o,w,o_data,P->kind==K_BLOCK?B:u>1?u:B+1,0,0); o=mk(o,q+(k+1)%nq,0,0); use(o,q+(k+1)%nq); fin(o); }
	}
	/* every sequence of three operations, then re-creation */
	int no=o_nops(P), depth=T?4:3; long tot=1; for(int i=0;i<depth;i++) tot*=no;
	for(int s=0;s<(T?nq:2)&&s<nq;s++) for(long x=0;x<tot;x++)
	{
		opst st={0,0}; long y=x; if(!vf_case("set %ld, operations #%ld",(long)s,x)) continue;
		void *o=mk(0,q+s,1,1); for(int i=0;i<depth;i++){ int p=(int)(y%no); y/=no; if(!o_legal(P,&st,p)) break; o_op(P,o,q+s,&st,p,scratch); }
		vf_heap_check(); o=mk(o,q+(s+3)%nq,1,1); use(o,q+(s+3)%nq); fin(o);
	}
	/* zero lengths everywhere */
	if(vf_case("zero lengths%.0ld",0L)){ void *o=mk(0,q,0,0); for(int r=0;r<3;r++) for(int w=0;w<nops()&&P->kind!=K_BLOCK;w++){ op(o,w,o_data,0,r==1,r==1); if(r==1&&w==0) op(o,0,o_data,u>1?u:B/2+1,0,0); } if(P->kind==K_HASH) for(int r=0;r<3;r++){ result(o,0,0); if(r==1) result(o,1,0); } fin(o); }
}
static void kdf1(int w, unsigned pl_, unsigned kl, unsigned sl_, size_t n, int kp)
{
	par z={0,kl,0,0,1,1}; par_key(&z,kb); const u8 *k=in_(KEY,kb,kl,kp), *s=in_(IV,o_data,sl_,kp); u8 *o=out_(OUT,0,n,kp); vf_trans(1); vf_nontrivial(1); (void)pl_;
	int r=w?kripto_scrypt(P->desc,0,4,1+(n&1),2,k,kl,s,sl_,o,n):kripto_pbkdf2(P->desc,0,2,k,kl,s,sl_,o,n);
	if(r) vf_fail("key derivation failed"); outchk(OUT,n,kp,"derived key"); if(vf_heap_live()) vf_fail("%d heap blocks are left",vf_heap_live()); vf_state2((u64)w,&n,8);
	for(int i=0;i<NSLOT;i++){ UNPOISON(sl[i].rw,SZ); UNPOISON(sl[i].ro,SZ); }
}
static void u_kdf(void *arg)
{
	P=arg; slots(); unsigned tg=P->maxtag; int full=vf_thorough||!strncmp(P->name,"hmac",4);
	for(int w=0;w<2;w++)
	{
		for(size_t n=0;n<=3*tg+2;n++) for(int pl=0;pl<2;pl++) if(vf_case("derivation %ld of %ld bytes, placement %ld",(long)w,(long)n,(long)pl)) kdf1(w,0,P->xkey<20?P->xkey:20,9,n,pl);
		for(unsigned k=P->minkey;k<=P->xkey;k+=full?1:3) for(int pl=0;pl<2;pl++) if(vf_case("derivation %ld from %ld bytes, placement %ld",(long)w,(long)k,(long)pl)) kdf1(w,0,k,9,tg+1,pl);
		for(unsigned s=0;s<=(full?150u:40u);s++) for(int pl=0;pl<2;pl++) if(vf_case("derivation %ld with %ld bytes of salt, placement %ld",(long)w,(long)s,(long)pl)) kdf1(w,0,P->xkey<20?P->xkey:20,s,tg+1,pl);
		for(int a=16;a<32;a++) if(vf_case("derivation %ld, alignment %ld",(long)w,(long)a-16)) kdf1(w,0,P->xkey<20?P->xkey:20,9,tg+1,a);
	}
}
static void reg(void)
{
	vf_fill=0xA5; prims_init();
	for(int i=0;i<nprims;i++) vf_unit(u_prim,prims+i,"bounds/%s",prims[i].name);
	for(int i=0;i<nprims;i++) if(prims[i].kind==K_MAC&&prims[i].maxtag) vf_unit(u_kdf,prims+i,"bounds/kdf/%s",prims[i].name);
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
