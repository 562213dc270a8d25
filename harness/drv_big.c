/* X18: more than 2^32 bytes in one call.  The same data go through one object in a single call and
   through another in pieces of up to a MiB; results must agree.  The modes are driven over small fast
   primitives of the harness, plugged in through the descriptor structures; the other streams and MACs
   are the library's own.  The input repeats with a period of 4 MiB; the output is a mapping of 4 GiB
   that folds onto 4 MiB except around its beginning, 2^31, 2^32 and its end, which are kept.  EAX and
   EAX2 read back what they wrote: their toy keystream has the same period, so folding is invisible. */
#define _GNU_SOURCE
#include "vf.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <kripto/block.h>
#include <kripto/hash.h>
#include <kripto/mac.h>
#include <kripto/stream.h>
#include <kripto/ae.h>
#include <kripto/pbkdf2.h>
#include <kripto/desc/block.h>
#include <kripto/desc/hash.h>
#include <kripto/desc/mac.h>
#include <kripto/desc/stream.h>
#include <kripto/desc/ae.h>
#include <kripto/stream/ecb.h>
#include <kripto/stream/cbc.h>
#include <kripto/stream/cfb.h>
#include <kripto/stream/ofb.h>
#include <kripto/stream/ctr.h>
#include <kripto/stream/chacha.h>
#include <kripto/stream/salsa20.h>
#include <kripto/stream/rc4.h>
#include <kripto/stream/keccak1600.h>
#include <kripto/stream/keccak800.h>
#include <kripto/stream/skein256.h>
#include <kripto/stream/skein512.h>
#include <kripto/stream/skein1024.h>
#include <kripto/mac/omac.h>
#include <kripto/mac/xcbc.h>
#include <kripto/mac/hmac.h>
#include <kripto/mac/keccak1600.h>
#include <kripto/mac/keccak800.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/skein1024.h>
#include <kripto/ae/eax.h>
#include <kripto/ae/eax2.h>
#define PER (4u<<20)
#define G2 (1ULL<<31)
#define G4 (1ULL<<32)
#define SEG 65536u
#define TOP (G4+SEG)
/* ---- memory */
static u8 *in, *out; static const u64 S0[3]={0,G2-SEG,G4-SEG}; static const unsigned SN[3]={SEG,2*SEG,2*SEG};
static u8 *fold(int prot, int fill, size_t n)
{
	int fd=memfd_create("fold",0); if(fd<0||ftruncate(fd,PER)){ perror("memfd"); exit(2); }
	u8 *b=mmap(0,n,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(b==MAP_FAILED){ perror("mmap"); exit(2); }
	for(size_t o=0;o<n;o+=PER) if(mmap(b+o,PER,o&&!(prot&PROT_WRITE)?PROT_READ:PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED){ perror("mmap"); exit(2); }
	if(fill){ u32 x=4711; for(size_t i=0;i<PER;i++){ x=x*1664525u+1013904223u; b[i]=(u8)(x>>24); } mprotect(b,PER,prot); }
	close(fd); return b;
}
static void message(void)
{
	if(in) return;
	in=fold(PROT_READ,1,G4+4*PER); out=fold(PROT_READ|PROT_WRITE,0,G4+4*PER);
	for(int k=0;k<3;k++) if(mmap(out+S0[k],SN[k],PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED,-1,0)==MAP_FAILED){ perror("mmap"); exit(2); }
}
static u8 keep[3][2*SEG];
static void clearout(void){ for(int k=0;k<3;k++) memset(out+S0[k],0xA5,SN[k]); }
static void keepout(void){ for(int k=0;k<3;k++) memcpy(keep[k],out+S0[k],SN[k]); }
/* the kept parts of the first tot bytes */
static void same(u64 tot, const char *what)
{
	for(int k=0;k<3;k++) for(unsigned i=0;i<SN[k];i++)
	{
		u64 p=S0[k]+i; u8 want=p<tot?keep[k][i]:0xA5;
		if(out[p]!=want) vf_fail(p<tot?"%s: differs from what pieces give at byte 0x%llX":"%s: wrote beyond the end at byte 0x%llX",what,(unsigned long long)p);
		if(p>=tot+64) break;
	}
	vf_validated(1); vf_nontrivial(1);
}
/* ---- a watch for calls that take long: progress is signalled for a while only */
static volatile long ticks; static void tick(int s){ (void)s; if(ticks>0){ ticks--; vf_alive(); } }
static double now_(void){ struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }
static void allow(double t){ struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=tick; a.sa_flags=SA_RESTART; sigaction(SIGPROF,&a,0); ticks=(long)(t*3)+10; struct itimerval v={{1,0},{1,0}}; setitimer(ITIMER_PROF,&v,0); }
static size_t piece(u64 pos, u64 to, unsigned unit){ static const u32 P[]={1u<<20,1,65536,1000003,1u<<20,4096,77,1u<<20}; static int i; u64 n=(u64)P[i++&7]; n=(n+unit-1)/unit*unit; if(n>to-pos) n=to-pos; vf_alive(); vf_trans(1); return (size_t)n; }
/* ---- toy primitives */
static u64 rot(u64 x, int r){ return x<<r|x>>(64-r); }
typedef struct { const void *desc; unsigned multof; u64 s, pos; unsigned ol; } obj;
static obj pool[8]; static int np;
static obj *fresh(const void *d){ obj *o=pool+np++%8; memset(o,0,sizeof *o); o->desc=d; o->multof=1; return o; }
static u64 seed(const void *k, size_t n, u64 s){ for(size_t i=0;i<n;i++) s=rot((s^((const u8*)k)[i])*0x9FB21C651E98DF25ULL,23); return s; }
static int period;  /* blind to the bytes in which a counter goes on after 4 MiB */
static kripto_desc_block bd;
static kripto_block *b_re(kripto_block *p, unsigned r, const void *k, unsigned n){ ((obj*)p)->s=seed(k,n,r+1); return p; }
static kripto_block *b_cr(const kripto_desc_block *d, unsigned r, const void *k, unsigned n){ return b_re((kripto_block*)fresh(d),r,k,n); }
static void b_en(const kripto_block *p, const void *i, void *q)
{
	u64 x[32]; unsigned n=bd.blocksize/8; memcpy(x,i,n*8); if(period){ u8 *c=(u8*)(x+n-1); memset(c,0,6); c[6]&=0x7F; }
	u64 a=((const obj*)p)->s; for(int t=0;t<2;t++) for(unsigned j=0;j<n;j++){ a=rot((a^x[j])*0x9FB21C651E98DF25ULL,29); x[j]+=a; }
	memcpy(q,x,n*8);
}
static void b_de(const kripto_block *p, const void *i, void *q){ obj o=*(const obj*)p; o.s^=0x1234567; b_en((kripto_block*)&o,i,q); }
static void x_d(void *o){ (void)o; }
static void setb(unsigned n){ bd=(kripto_desc_block){.create=b_cr,.recreate=b_re,.encrypt=b_en,.decrypt=b_de,.destroy=(void*)x_d,.blocksize=n,.maxkey=64}; }
static u64 bulk(u64 s, const u8 *m, size_t n){ for(size_t i=0;i<n;i++) s=rot((s^m[i])*0x9FB21C651E98DF25ULL,23); return s; }
static kripto_desc_hash hd;
static kripto_hash *h_re(kripto_hash *p, unsigned r, const void *k, unsigned n, unsigned ol){ obj *o=(obj*)p; o->s=seed(k,n,r+ol); o->pos=0; return p; }
static kripto_hash *h_cr(const kripto_desc_hash *d, unsigned r, const void *k, unsigned n, unsigned ol){ return h_re((kripto_hash*)fresh(d),r,k,n,ol); }
static void h_in(void *p, const void *i, size_t n){ obj *o=p; o->s=bulk(o->s,i,n); }
static void h_out(void *p, void *q, size_t n){ obj *o=p; for(size_t i=0;i<n;i++){ ((u8*)q)[i]=(u8)(o->s>>7); o->s=rot(o->s*0x9FB21C651E98DF25ULL,31); } }
static int h_all(const kripto_desc_hash *d, unsigned r, const void *k, unsigned kn, const void *i, size_t n, void *q, size_t ol){ (void)d; obj o={0}; o.s=seed(k,kn,r+ol); h_in(&o,i,n); h_out(&o,q,ol); return 0; }
static kripto_desc_mac md;
static kripto_mac *m_re(kripto_mac *p, unsigned r, const void *k, unsigned n, unsigned ol){ obj *o=(obj*)p; o->s=seed(k,n,r+ol); return p; }
static kripto_mac *m_cr(const kripto_desc_mac *d, unsigned r, const void *k, unsigned n, unsigned ol){ return m_re((kripto_mac*)fresh(d),r,k,n,ol); }
static void m_tag(kripto_mac *p, void *q, unsigned n){ h_out(p,q,n); }
static kripto_desc_stream sd; static u8 ks[PER]; static u64 ksof;
static void mkks(u64 s){ if(ksof==s) return; ksof=s; for(size_t i=0;i<PER;i+=8){ s=rot(s*0x9FB21C651E98DF25ULL+1,27); memcpy(ks+i,&s,8); } }
static kripto_stream *s_re(kripto_stream *p, unsigned r, const void *k, unsigned n, const void *v, unsigned vn){ obj *o=(obj*)p; o->s=seed(v,vn,seed(k,n,r+1))|1; o->pos=0; return p; }
static kripto_stream *s_cr(const kripto_desc_stream *d, unsigned r, const void *k, unsigned n, const void *v, unsigned vn){ return s_re((kripto_stream*)fresh(d),r,k,n,v,vn); }
static void s_x(kripto_stream *p, const void *i, void *q, size_t n){ obj *o=(obj*)p; mkks(o->s); for(size_t j=0;j<n;j++) ((u8*)q)[j]=((const u8*)i)[j]^ks[o->pos++%PER]; }
static void s_p(kripto_stream *p, void *q, size_t n){ obj *o=(obj*)p; mkks(o->s); for(size_t j=0;j<n;j++) ((u8*)q)[j]=ks[o->pos++%PER]; }
static void toys(void)
{
	hd=(kripto_desc_hash){.create=h_cr,.recreate=h_re,.input=(void*)h_in,.output=(void*)h_out,.destroy=(void*)x_d,.hash_all=h_all,.maxout=32,.blocksize=64,.maxsalt=0};
	md=(kripto_desc_mac){.create=m_cr,.recreate=m_re,.input=(void*)h_in,.tag=m_tag,.destroy=(void*)x_d,.maxtag=1000,.maxkey=64};
	sd=(kripto_desc_stream){.create=s_cr,.recreate=s_re,.encrypt=s_x,.decrypt=s_x,.prng=s_p,.destroy=(void*)x_d,.maxkey=32,.maxiv=16};
}
static const u8 KEY[]="0123456789abcdef0123456789abcdef0123456789abcdef";
/* ---- streams */
enum { ENC, DEC, PRNG }; static const char *const OPN[]={"encryption","decryption","keystream"};
static struct st { const char *name; unsigned unit, kl, il; int over; } ST[]={{"ecb",64,16,0,1},{"cbc",64,16,64,1},{"cfb",1,16,64,1},{"ofb",1,16,64,1},{"ctr",1,16,64,1},{"chacha",1,32,8,0},{"salsa20",1,32,8,0},{"rc4",1,16,0,0},{"keccak1600",1,16,16,0},{"keccak800",1,16,16,0},{"skein256",1,16,16,0},{"skein512",1,16,16,0},{"skein1024",1,16,16,0}};
#define NST (int)(sizeof ST/sizeof *ST)
static const kripto_desc_stream *sdesc(int k)
{
	const kripto_desc_stream *d; vf_persist=1; setb(64); period=0;
	switch(k){ case 0: d=kripto_stream_ecb(&bd); break; case 1: d=kripto_stream_cbc(&bd); break; case 2: d=kripto_stream_cfb(&bd); break; case 3: d=kripto_stream_ofb(&bd); break; case 4: d=kripto_stream_ctr(&bd); break;
	case 5: d=kripto_stream_chacha; break; case 6: d=kripto_stream_salsa20; break; case 7: d=kripto_stream_rc4; break; case 8: d=kripto_stream_keccak1600; break; case 9: d=kripto_stream_keccak800; break;
	case 10: d=kripto_stream_skein256; break; case 11: d=kripto_stream_skein512; break; default: d=kripto_stream_skein1024; }
	vf_persist=0; if(!d) vf_fail("mode cannot be constructed"); return d;
}
static void go(kripto_stream *s, int op, u64 pos, u64 n){ if(op==ENC) kripto_stream_encrypt(s,in+pos,out+pos,n); else if(op==DEC) kripto_stream_decrypt(s,in+pos,out+pos,n); else kripto_stream_prng(s,out+pos,n); }
typedef struct { u64 n; unsigned pre, post; } len_;
static const len_ LEN[]={{G4+133,64,320},{G2+129,128,64},{G4,0,64},{G4-1,1,64},{G4+64,65,1},{G2,0,64},{G4-64,640,640}};
static void u_stream(void *a)
{
	int k=(int)(intptr_t)a/4, op=(int)(intptr_t)a%4; message(); const struct st *t=ST+k; int have=0; double cost=0;
	for(int w=0;w<(vf_thorough?7:1);w++) if(vf_case("one call of 0x%lX bytes after %ld, before %ld",(long)LEN[w].n,(long)LEN[w].pre,(long)LEN[w].post))
	{
		const kripto_desc_stream *d=sdesc(k); u64 u=t->unit, n=(LEN[w].n+u-1)/u*u, pre=(LEN[w].pre+u-1)/u*u, post=(LEN[w].post+u-1)/u*u;
		vf_heap_reset(); kripto_stream *s;
		if(!have)
		{
			clearout(); double c=now_(); s=kripto_stream_create(d,0,KEY,t->kl,t->il?KEY+8:0,t->il<40?t->il:40); if(!s) vf_fail("create returned null");
			for(u64 p=0;p<TOP;){ size_t z=piece(p,TOP,t->unit); go(s,op,p,z); p+=z; if(p%1024==0) vf_state2(p,0,0); }
			kripto_stream_destroy(s); keepout(); have=1; cost=now_()-c;
		}
		clearout(); s=kripto_stream_create(d,0,KEY,t->kl,t->il?KEY+8:0,t->il<40?t->il:40); if(!s) vf_fail("create returned null");
		if(pre) go(s,op,0,pre); allow(cost); go(s,op,pre,n); vf_trans(3); go(s,op,pre+n,post); kripto_stream_destroy(s); same(pre+n+post,OPN[op]); vf_state2(n,&k,4);
	}
}
/* the library's own ciphers, quick tier: the calls are compared with each other (keystream, encryption, decryption
   of the same stretch in one call each) and, near the beginning, with pieces; no kept part may stay unwritten */
static void u_cross(void *a)
{
	int k=(int)(intptr_t)a; message(); const struct st *t=ST+k; const kripto_desc_stream *d=sdesc(k); static u8 first[SEG];
	if(!vf_case("keystream, encryption, decryption: one call of 0x%lX bytes after %ld, before %ld",(long)LEN[0].n,(long)LEN[0].pre,(long)LEN[0].post)) return;
	u64 n=LEN[0].n, pre=LEN[0].pre, post=LEN[0].post, tot=pre+n+post; vf_heap_reset(); kripto_stream *s; double c=now_();
#define NEW() do{ s=kripto_stream_create(d,0,KEY,t->kl,t->il?KEY+8:0,t->il<40?t->il:40); if(!s) vf_fail("create returned null"); }while(0)
	clearout(); NEW(); for(u64 p=0;p<SEG*64;){ size_t z=piece(p,SEG*64,1); go(s,PRNG,p,z); p+=z; } kripto_stream_destroy(s); memcpy(first,out,SEG); c=(now_()-c)*(double)(G4/(SEG*64));
	for(int op=PRNG;op>=ENC;op--)
	{
		if(op==DEC && d->encrypt==d->decrypt) continue; /* one function: the same call */
		clearout(); NEW(); if(pre) go(s,op,0,pre); allow(c); go(s,op,pre,n); vf_trans(3); go(s,op,pre+n,post); kripto_stream_destroy(s);
		for(int j=0;j<3;j++) for(unsigned i=0;i<SN[j]&&S0[j]+i<tot;i++) if(op!=PRNG) out[S0[j]+i]^=in[S0[j]+i];
		if(memcmp(out,first,SEG)) vf_fail("%s in one call differs from keystream in pieces within the first bytes",OPN[op]);
		if(op==PRNG){ for(int j=0;j<3;j++) for(unsigned i=0;i+16<=SN[j]&&S0[j]+i+16<=tot;i++){ unsigned q=0; while(q<16&&out[S0[j]+i+q]==0xA5) q++; if(q==16) vf_fail("bytes from 0x%llX on were not written",(unsigned long long)(S0[j]+i)); } keepout(); }
		same(tot,op==PRNG?"keystream":op==ENC?"keystream used in encryption versus the one produced":"keystream used in decryption versus the one produced"); vf_state2((u64)op,&k,4);
	}
}
/* ---- MACs */
static const char *const MA[]={"hmac","omac","xcbc","keccak1600","keccak800","skein256","skein512","skein1024"};
static const kripto_desc_mac *mdesc(int k)
{
	const kripto_desc_mac *d; vf_persist=1; setb(64); period=0;
	switch(k){ case 0: d=kripto_mac_hmac(&hd); break; case 1: d=kripto_mac_omac(&bd); break; case 2: d=kripto_mac_xcbc(&bd); break; case 3: d=kripto_mac_keccak1600; break; case 4: d=kripto_mac_keccak800; break;
	case 5: d=kripto_mac_skein256; break; case 6: d=kripto_mac_skein512; break; default: d=kripto_mac_skein1024; }
	vf_persist=0; if(!d) vf_fail("mode cannot be constructed"); return d;
}
static void u_mac(void *a)
{
	int k=(int)(intptr_t)a; message(); u8 x[32],y[32];
	for(int w=0;w<(vf_thorough?7:1);w++) if(vf_case("one input call of 0x%lX bytes after %ld, before %ld; the same in one-shot form",(long)LEN[w].n,(long)LEN[w].pre,(long)LEN[w].post))
	{
		const kripto_desc_mac *d=mdesc(k); u64 n=LEN[w].n, pre=LEN[w].pre, tot=pre+n+LEN[w].post; vf_heap_reset(); double c=now_();
		kripto_mac *s=kripto_mac_create(d,0,KEY,16,16); if(!s) vf_fail("create returned null"); for(u64 p=0;p<tot;){ size_t z=piece(p,tot,1); kripto_mac_input(s,in+p,z); p+=z; if(p%1024==0) vf_state2(p,0,0); } kripto_mac_tag(s,y,16); kripto_mac_destroy(s); c=now_()-c;
		s=kripto_mac_create(d,0,KEY,16,16); if(pre) kripto_mac_input(s,in,pre); allow(c); kripto_mac_input(s,in+pre,n); if(tot>pre+n) kripto_mac_input(s,in+pre+n,tot-pre-n); kripto_mac_tag(s,x,16); kripto_mac_destroy(s); vf_trans(4); vf_eq(x,y,16,"tag versus the tag of the same message in pieces"); vf_nontrivial(1);
		if(k<3||vf_thorough){ allow(c); if(kripto_mac_all(d,0,KEY,16,in,tot,x,16)) vf_fail("the one-shot call failed"); vf_trans(1); vf_eq(x,y,16,"one-shot tag versus the tag of the same message in pieces"); }
		vf_state2(tot,x,16);
	}
}
/* ---- authenticated modes */
static const char *const AN[]={"eax","eax2"}, *const AO[]={"encryption","decryption","header"};
static void ago(kripto_ae *s, int op, u64 p, u64 n){ if(op==ENC) kripto_ae_encrypt(s,in+p,out+p,n); else if(op==DEC) kripto_ae_decrypt(s,in+p,out+p,n); else kripto_ae_header(s,in+p,n); }
static void u_ae(void *a)
{
	int k=(int)(intptr_t)a/4, op=(int)(intptr_t)a%4; message(); u8 x[16],y[16];
	for(int w=0;w<(vf_thorough?7:1);w++) if(vf_case("one call of 0x%lX bytes after %ld, before %ld",(long)LEN[w].n,(long)LEN[w].pre,(long)LEN[w].post))
	{
		setb(128); period=1; vf_persist=1; const kripto_desc_ae *d=k?kripto_ae_eax2(&sd,&md):kripto_ae_eax(&bd); if(!d) vf_fail("mode cannot be constructed"); vf_persist=0;
		u64 n=LEN[w].n, pre=LEN[w].pre, tot=pre+n+LEN[w].post; vf_heap_reset(); double c=now_(); clearout();
		kripto_ae *s=kripto_ae_create(d,0,KEY,32,KEY,16,16); if(!s) vf_fail("create returned null"); for(u64 p=0;p<tot;){ size_t z=piece(p,tot,1); ago(s,op,p,z); p+=z; if(p%1024==0) vf_state2(p,0,0); } kripto_ae_tag(s,y,16); kripto_ae_destroy(s); keepout(); c=now_()-c;
		clearout(); s=kripto_ae_create(d,0,KEY,32,KEY,16,16); if(!s) vf_fail("create returned null"); if(pre) ago(s,op,0,pre); allow(c); ago(s,op,pre,n); if(tot>pre+n) ago(s,op,pre+n,tot-pre-n); vf_trans(4); kripto_ae_tag(s,x,16); kripto_ae_destroy(s);
		if(op<2) same(tot,AO[op]); vf_eq(x,y,16,"tag versus the tag of the same data in pieces"); vf_nontrivial(1); vf_state2(tot,x,16);
	}
}
/* ---- PBKDF2: more than 2^32 bytes of output */
static void u_kdf(void *a)
{
	(void)a; message(); static const u64 N[]={G4+133,G2+7,G4};
	for(int w=0;w<(vf_thorough?3:1);w++) if(vf_case("0x%lX bytes of output",(long)N[w]))
	{
		vf_heap_reset(); clearout(); allow(60); int r=kripto_pbkdf2(&md,0,1,KEY,9,KEY,5,out,N[w]); vf_trans(1); if(r) vf_fail("PBKDF2 failed");
		for(int k=0;k<3;k++) for(unsigned i=0;i<SN[k];i++)
		{
			u64 p=S0[k]+i, b=p/1000+1; static u64 of; static u8 t[1000]; u8 c[4]={(u8)(b>>24),(u8)(b>>16),(u8)(b>>8),(u8)b};
			if(of!=b){ obj o={0}; m_re((kripto_mac*)&o,0,KEY,9,1000); h_in(&o,KEY,5); h_in(&o,c,4); h_out(&o,t,1000); of=b; }
			keep[k][i]=t[p%1000];
		}
		same(N[w],"output versus definition"); vf_state2(N[w],0,0);
	}
}
static void reg(void)
{
	toys(); static const int order[NST]={9,7,8,12,5,6,10,11,4,3,2,1,0}, mo[8]={4,3,5,7,6,0,1,2};
	for(int i=0;i<8;i++) vf_unit(u_mac,(void*)(intptr_t)mo[i],"big/mac/%s",MA[mo[i]]);
	if(!vf_thorough) for(int i=0;i<8;i++) vf_unit(u_cross,(void*)(intptr_t)order[i],"big/stream/%s",ST[order[i]].name);
	for(int i=vf_thorough?0:8;i<NST;i++) for(int op=0;op<3;op++) if(!(op==PRNG&&order[i]<3)) vf_unit(u_stream,(void*)(intptr_t)(order[i]*4+op),"big/stream/%s/%s",ST[order[i]].name,OPN[op]);
	for(int k=0;k<2;k++) for(int op=0;op<3;op++) vf_unit(u_ae,(void*)(intptr_t)(k*4+op),"big/ae/%s/%s",AN[k],AO[op]);
	vf_unit(u_kdf,0,"big/pbkdf2");
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
