/* H03: hashes of long messages.  The message is a 4 MiB pattern repeated; the reference's state a
   little before each threshold is stored in ref/long.h (recomputed in the thorough tier and by
   the option "gen").
   walk:  the real message is fed in pieces of many sizes up to just before a threshold; from there
          every message end and every cut into two pieces around the threshold;
   call:  one input call longer than 2^32 bytes, and the one-shot call;
   move:  the length counter, found in the object by its regular change, is moved close to higher
          thresholds; the carry itself is executed; every message end and cuts around it. */
#define _GNU_SOURCE
#include "cat.h"
#include "refhash.h"
#include "inject.h"
#include "long.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#define PER (4u<<20)
#define G4 (1ULL<<32)
static u8 *big;                               /* the message, 4 GiB + 16 MiB of addresses (320 MiB in a 32-bit build) */
static void message(void)
{
	if(big) return;
	int fd=memfd_create("message",0); if(fd<0||ftruncate(fd,PER)){ perror("memfd"); exit(2); }
	size_t n=sizeof(size_t)>4?(size_t)(G4+16*(1u<<20)):(size_t)320<<20; u8 *b=mmap(0,n,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(b==MAP_FAILED){ perror("mmap"); exit(2); }
	for(size_t o=0;o<n;o+=PER) if(mmap(b+o,PER,o?PROT_READ:PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED){ perror("mmap"); exit(2); }
	u32 x=12345; for(size_t i=0;i<PER;i++){ x=x*1664525u+1013904223u; b[i]=(u8)(x>>24); }
	mprotect(b,PER,PROT_READ); big=b; close(fd);
}
/* keyed mode: the Skein MACs in place of the hashes */
#include <kripto/mac.h>
#include <kripto/mac/skein256.h>
#include <kripto/mac/skein512.h>
#include <kripto/mac/skein1024.h>
static int keyed; static const char KEY[]="a key of sixteen";
static void I_(kripto_hash *s, const void *m, size_t n){ if(keyed) kripto_mac_input((kripto_mac*)s,m,n); else kripto_hash_input(s,m,n); }
static void D_(kripto_hash *s){ if(keyed) kripto_mac_destroy((kripto_mac*)s); else kripto_hash_destroy(s); }
static void O_(kripto_hash *s, void *o, unsigned n){ if(keyed) kripto_mac_tag((kripto_mac*)s,o,n); else kripto_hash_output(s,o,n); }
static unsigned outlen(const cat_hash *h){ switch(h->ref){ case RH_SHA3: case RH_KECCAK1600: return 32; case RH_KECCAK800: return 20; case RH_SKEIN256: return 32; case RH_SKEIN512: return 64; case RH_SKEIN1024: return 128; default: return h->maxdig; } }
static unsigned blkof(const cat_hash *h){ refh r; refh_init(&r,h->ref,0,0,0,outlen(h)); return r.bs; }
static const int TH[]={29,31,32};             /* thresholds 2^x bytes */
static u64 start(const cat_hash *h, int x){ return (1ULL<<x)-blkof(h)*2-3; }
static void rfeed(refh *r, u64 *pos, u64 to){ while(*pos<to){ u64 n=to-*pos; if(n>PER) n=PER; refh_update(r,big+*pos%PER,n); *pos+=n; vf_alive(); } }
static int hexv(char c){ return c<='9'?c-'0':c-'a'+10; }
/* the reference's state at start(h,x) */
static void refat(const cat_hash *h, int x, refh *r)
{
	for(size_t i=0;i<sizeof long_states/sizeof *long_states;i++) if(!strcmp(long_states[i].name,h->name)&&long_states[i].x==x)
	{
		const char *s=long_states[i].state; refh_init(r,h->ref,0,0,0,outlen(h)); u8 *d[]={(u8*)r->h,(u8*)r->w,r->st,r->buf}; size_t n[]={sizeof r->h,sizeof r->w,sizeof r->st,sizeof r->buf};
		for(int k=0;k<4;k++) for(size_t j=0;j<n[k];j++){ d[k][j]=(u8)(hexv(s[0])<<4|hexv(s[1])); s+=2; }
		r->n=(unsigned)long_states[i].n; r->len=start(h,x); r->first=0;
		if(vf_thorough)
		{
			refh q; u64 pos=0; refh_init(&q,h->ref,0,0,0,outlen(h)); rfeed(&q,&pos,start(h,x));
			if(q.n!=r->n||memcmp(q.h,r->h,sizeof q.h)||memcmp(q.w,r->w,sizeof q.w)||memcmp(q.st,r->st,sizeof q.st)||memcmp(q.buf,r->buf,r->n)){ fprintf(stderr,"stored reference state of %s at 2^%d is wrong\n",h->name,x); exit(2); }
		}
		return;
	}
	fprintf(stderr,"no stored reference state\n"); exit(2);
}
static void gen(void)
{
	message(); if(!getenv("GEN_ONLY")) printf("/* generated: drv_long gen */\nstatic const struct { const char *name; int x, n; const char *state; } long_states[]={\n");
	for(int i=0;i<cat_nhashes;i++)
	{
		const cat_hash *h=cat_hashes+i; refh r; u64 pos=0; if(getenv("GEN_ONLY")&&atoi(getenv("GEN_ONLY"))!=i) continue; refh_init(&r,h->ref,0,0,0,outlen(h));
		for(int t=0;t<3;t++)
		{
			rfeed(&r,&pos,start(h,TH[t])); printf("{\"%s\",%d,%u,\"",h->name,TH[t],r.n);
			refh q=r; memset(q.buf+q.n,0,sizeof q.buf-q.n); u8 *d[]={(u8*)q.h,(u8*)q.w,q.st,q.buf}; size_t n[]={sizeof r.h,sizeof r.w,sizeof r.st,sizeof r.buf};
			for(int k=0;k<4;k++) for(size_t j=0;j<n[k];j++) printf("%02x",d[k][j]);
			printf("\"},\n"); fflush(stdout);
		}
		/* digests for an independent cross-check */
		u64 to=G4+5; refh q=r; u64 p=pos; rfeed(&q,&p,to); u8 dg[300]; refh_final(&q,dg,outlen(h)); fprintf(stderr,"%s ",h->name); for(unsigned k=0;k<outlen(h);k++) fprintf(stderr,"%02x",dg[k]); fprintf(stderr,"\n");
	}
	if(!getenv("GEN_ONLY")) printf("};\n");
}
/* ---- snapshots of the object: the contents of its live blocks */
static u8 *snap; static size_t snapn; static int snapb; static long snapc;
static void take(void){ size_t n=0; for(int i=0;i<vf_nblocks;i++) if(vf_blocks[i].live) n+=vf_blocks[i].n; snap=realloc(snap,n+1); snapn=n; snapb=vf_nblocks; snapc=vf_alloc_count; n=0; for(int i=0;i<vf_nblocks;i++) if(vf_blocks[i].live){ memcpy(snap+n,vf_blocks[i].p,vf_blocks[i].n); n+=vf_blocks[i].n; } }
static int again(void){ if(vf_alloc_count!=snapc) return 0; size_t n=0; for(int i=0;i<snapb;i++) if(vf_blocks[i].live){ if(n+vf_blocks[i].n>snapn) return 0; memcpy(vf_blocks[i].p,snap+n,vf_blocks[i].n); n+=vf_blocks[i].n; } return n==snapn; }
static kripto_hash *mk(const cat_hash *h){ kripto_hash *s=keyed?(kripto_hash*)kripto_mac_create(h->ref==RH_SKEIN256?kripto_mac_skein256:h->ref==RH_SKEIN512?kripto_mac_skein512:kripto_mac_skein1024,0,KEY,16,outlen(h)):kripto_hash_create(*h->desc,0,0,0,outlen(h)); vf_trans(1); if(!s) vf_fail("create returned null"); return s; }
/* every end e in 0..E after position pos, every cut of those e bytes (cs: only some cuts) */
static u8 DG[1200][200];
static void around(const cat_hash *h, kripto_hash *s, const refh *r0, u64 pos, unsigned E, int cs)
{
	unsigned o=outlen(h), B=blkof(h); u8 d[200]; refh r=*r0; const u8 *m=big+pos%PER;
	for(unsigned e=0;e<=E;e++){ refh q=r; refh_final(&q,DG[e],o); refh_update(&r,m+e,1); }
	take();
	for(unsigned e=0;e<=E;e++) for(unsigned k=0;k<=e;k++)
	{
		if(cs && k!=0 && k!=e && k!=e/2 && k!=B && k!=B-1) continue;
		if(!again()) return;
		if(k){ I_(s,m,k); vf_trans(1); } if(e>k){ I_(s,m+k,e-k); vf_trans(1); }
		O_(s,d,o); vf_trans(1);
		if(memcmp(d,DG[e],o)) vf_fail("digest of a message of 0x%llX bytes (last pieces %u and %u) differs from the definition",(unsigned long long)(pos+e),k,e-k);
		vf_validated(1); vf_nontrivial(1); vf_state2(pos+e,&k,4); if(k==0) vf_alive();
	}
	again();
}
static void u_walk(void *a)
{
	const cat_hash *h=cat_hashes+(int)(intptr_t)a/8; int x=TH[(intptr_t)a%8]; message();
	if(!vf_case("message crossing 2^%ld bytes, in pieces",(long)x)) return;
	refh r; refat(h,x,&r); unsigned B=blkof(h); kripto_hash *s=mk(h); u64 pos=0, to=start(h,x); long i=0;
	/* pieces of many sizes, one of them large */
	const size_t pc[]={1,B-1,B,B+1,2*B,3*B+1,4096,65535,65536,1000003,1,PER,2*PER+7,PER-1};
	while(pos<to){ size_t n=i==20?1u<<28:pc[i%14]; if(n>to-pos) n=to-pos; I_(s,big+pos%PER,n); vf_trans(1); pos+=n; i++; vf_alive(); vf_state2(pos,0,0); }
	around(h,s,&r,pos,4*B,0); D_(s);
}
/* a watch for calls that take long: progress is signalled for a while only */
static volatile long ticks; static void tick(int s){ (void)s; if(ticks>0){ ticks--; vf_alive(); } }
static double now_(void){ struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }
static void watch(const cat_hash *h, u64 n)
{
	kripto_hash *s=mk(h); double t=now_(); for(int k=0;k<8;k++) I_(s,big,1u<<20); t=(now_()-t)/8/(1<<20)*(double)n; D_(s); vf_heap_reset();
	struct sigaction a; memset(&a,0,sizeof a); a.sa_handler=tick; a.sa_flags=SA_RESTART; sigaction(SIGPROF,&a,0); ticks=(long)(t*2)+5; struct itimerval v={{1,0},{1,0}}; setitimer(ITIMER_PROF,&v,0);
}
static void u_call(void *a)
{
	const cat_hash *h=cat_hashes+(int)(intptr_t)a/8; int w=(int)(intptr_t)a%8; message(); unsigned B=blkof(h), o=outlen(h); refh r; u8 d[200],e[200]; int done=0;
	/* lengths of the one call, bytes before it */
	struct { u64 n; unsigned pre, post; int oneshot; } L[]={{G4+2*B+3,0,0,0},{G4+B+1,0,0,1},{G4,0,B+2,0},{G4-1,5,1,0},{G4+1,B-1,0,0},{(1ULL<<31)+B+5,0,0,1},{(1ULL<<31)+7,B+1,3,0},{G4+4*B,3,0,0}};
	int x=L[w].n>>32||L[w].n==G4-1?32:31;
	if(!vf_case("one call (one-shot: %ld) of 0x%lX bytes after %ld, before %ld",(long)L[w].oneshot,(long)L[w].n,(long)L[w].pre,(long)L[w].post)) return;
	refat(h,x,&r); u64 tot=L[w].pre+L[w].n+L[w].post; refh_update(&r,big+start(h,x)%PER,tot-start(h,x)); refh_final(&r,e,o); watch(h,L[w].n);
	if(L[w].oneshot){ vf_trans(1); if(kripto_hash_all(*h->desc,0,0,0,big,L[w].n,d,o)) vf_fail("the one-shot call failed"); done=1; }
	if(!done){ kripto_hash *s=mk(h); if(L[w].pre) I_(s,big,L[w].pre); I_(s,big+L[w].pre,L[w].n); if(L[w].post) I_(s,big+(tot-L[w].post)%PER,L[w].post); vf_trans(2); O_(s,d,o); D_(s); }
	vf_eq(d,e,o,"digest versus definition"); vf_nontrivial(1); vf_state2(tot,&w,4);
}
#ifdef __SIZEOF_INT128__
/* ---- moved counters */
static kripto_hash *cur; static unsigned curB; static void one(void *x){ (void)x; I_(cur,big,curB); }
static unsigned limbits(const cat_hash *h){ switch(h->ref){ case RH_SHA2_512: case RH_BLAKE512: case RH_WHIRLPOOL: return 124; case RH_BLAKE2B: return 124; case RH_BLAKE2S: return 67; case RH_SKEIN256: case RH_SKEIN512: case RH_SKEIN1024: return 99; case RH_SHA3: case RH_KECCAK1600: case RH_KECCAK800: return 0; default: return 64; } }
typedef struct { inj_field f[8]; int n; } moved;
static void setpos(moved *m, u64 blocks){ for(int i=0;i<m->n;i++) inj_set(m->f+i,blocks-INJ_STEPS); }
static int refpos(const cat_hash *h, refh *r, unsigned __int128 blocks){ if(keyed){ refh_skein_init(r,h->ref,0,KEY,16,0,0,(u64)outlen(h)*8); r->outlen=outlen(h); } else refh_init(r,h->ref,0,0,0,outlen(h)); for(int i=0;i<INJ_STEPS;i++) refh_update(r,big,curB); r->len=blocks*curB; return 0; }
static int probe(const cat_hash *h, moved *m, u64 blocks)
{
	refh r; u8 d[200],e[200]; unsigned o=outlen(h); refpos(h,&r,blocks); if(!again()) return 0; setpos(m,blocks);
	I_(cur,big+7,curB+9); O_(cur,d,o); refh_update(&r,big+7,curB+9); refh_final(&r,e,o); int ok=!memcmp(d,e,o); again(); return ok;
}
static int locate(const cat_hash *h, moved *best)
{
	u64 st[]={curB,8ULL*curB,1}; moved all; cur=mk(h); all.n=inj_find(one,0,st,3,all.f,8); take();
	u64 v[]={1000,3000,(3ULL<<30)/curB,(5ULL<<30)/curB};
	for(int t=-1;t<all.n;t++)
	{
		moved m=all; if(t>=0){ m.n=1; m.f[0]=all.f[t]; } int ok=m.n>0;
		for(int k=0;k<4&&ok;k++) if(!probe(h,&m,v[k])) ok=0;
		if(ok){ *best=m; return 1; }
	}
	return 0;
}
static void u_move(void *a)
{
	const cat_hash *h=cat_hashes+(int)(intptr_t)a; message(); curB=blkof(h); unsigned lim=limbits(h);
	for(int k=35;k<=67;k++) for(int back=1;back<=3;back++)
	{
		if(lim==0||(unsigned)k>lim) continue; /* thresholds 2^k bits */
		if(!vf_case("message crossing 2^%ld bits, from %ld blocks before",(long)k,(long)back)) continue;
		moved m; if(!locate(h,&m)){ vf_log("counter not identified"); D_(cur); return; }
		unsigned __int128 lb=((unsigned __int128)1<<k)/8, blocks=(lb+curB-1)/curB-(unsigned)back; 
		/* a counter of 64 bits can be moved to this place only if it does not pass its end before */
		u64 hi=0; for(int i=0;i<m.n;i++){ __int128 v=(__int128)(int64_t)m.f[i].base+(__int128)(blocks*m.f[i].stride); if(v>>64) hi=1; }
		if(hi){ D_(cur); continue; }
		refh r; refpos(h,&r,blocks); if(!again()){ D_(cur); return; } setpos(&m,(u64)blocks);
		u64 pos=(u64)blocks*curB; unsigned E=4*curB; if((unsigned)k==lim){ unsigned __int128 left=lb-blocks*curB-1; if(left<E) E=(unsigned)left; }
		/* the text after the threshold is the pattern's beginning */
		(void)pos; around(h,cur,&r,(u64)(blocks*curB%PER),E,!vf_thorough); D_(cur);
	}
	/* beyond 64 bits of the counter: the word above it is recognised by the carry into it */
	for(unsigned k=68;k<=(lim>96?lim-1:0);k++) for(int back=1;back<=(vf_thorough?3:2);back++)
	{
		if(!vf_case("message crossing 2^%ld bits, from %ld blocks before",(long)k,(long)back)) continue;
		moved m; if(!locate(h,&m)){ vf_log("counter not identified"); D_(cur); return; }
		for(int i=0;i<m.n;i++)
		{
			if(!again()){ D_(cur); return; } u8 *p=m.f[i].at; int room=0; for(int b=0;b<vf_nblocks;b++) if(vf_blocks[b].live&&p>=vf_blocks[b].p&&p+16<=vf_blocks[b].p+vf_blocks[b].n) room=1;
			if(room){ u64 v=0-2*m.f[i].stride+inj_le(p)%m.f[i].stride, w=inj_le(p+8); memcpy(p,&v,8); for(int t=0;t<4;t++) one(0); room=inj_le(p+8)==w+1&&inj_le(p)<4*m.f[i].stride; }
			if(!room){ vf_log("upper word not identified"); again(); D_(cur); return; }
		}
		unsigned __int128 lb=((unsigned __int128)1<<k)/8, blocks=lb/curB-(unsigned)back;
		refh r; refpos(h,&r,blocks); if(!again()){ D_(cur); return; }
		for(int i=0;i<m.n;i++){ unsigned __int128 v=(unsigned __int128)(__int128)(int64_t)m.f[i].base+blocks*m.f[i].stride; u64 lo=(u64)v, hi=inj_le(m.f[i].at+8)+(u64)(v>>64); memcpy(m.f[i].at,&lo,8); memcpy(m.f[i].at+8,&hi,8); }
		around(h,cur,&r,(u64)(blocks*curB%PER),4*curB,!vf_thorough); D_(cur);
	}
}
/* ---- X16: messages beyond the limit of the specification */
#include "child.h"
typedef struct { const u8 *m; unsigned e,k,o; int form; const u8 *want; } lreq;
static int a_over(void *v)
{
	lreq *r=v; u8 d[200];
	if(r->form==0){ if(r->k) I_(cur,r->m,r->k); if(r->e>r->k) I_(cur,r->m+r->k,r->e-r->k); }
	else for(unsigned i=0;i<r->e;i++) I_(cur,r->m+i,1);
	O_(cur,d,r->o);
	return memcmp(d,r->want,r->o)?2:0;
}
static void u_over(void *a)
{
	const cat_hash *h=cat_hashes+(int)(intptr_t)a; message(); curB=blkof(h); unsigned lim=limbits(h), o=outlen(h);
	unsigned __int128 lb=((unsigned __int128)1<<lim)/8; /* bytes */
	for(int back=1;back<=3;back++)
	{
		unsigned __int128 blocks=(lb+curB-1)/curB-(unsigned)back; unsigned left=(unsigned)(lb-blocks*curB);
		for(unsigned e=left-1;e<=left+3*curB;e++) for(int cut=0;cut<5;cut++)
		{
			unsigned k=cut==0?0:cut==1?left-1:cut==2?left:cut==3?e/2:1; if((cut&&(k==0||k>=e))&&cut<4) continue;
			if(!vf_case("message of the limit of 2^%ld bits and %ld bytes more, from %ld blocks before, cut %ld",(long)lim,(long)e-(long)left,(long)back,(long)cut)) continue;
			moved m; if(!locate(h,&m)){ vf_log("counter not identified"); D_(cur); return; }
			refh r; refpos(h,&r,blocks); if(!again()){ D_(cur); return; } setpos(&m,(u64)blocks);
			const u8 *t=big+(u64)(blocks*curB%PER); u8 w[200]; refh_update(&r,t,e); refh_final(&r,w,o);
			lreq q={t,e,k,o,cut==4,w}; int z=child_run(a_over,&q,0); vf_trans(1); vf_validated(1); vf_nontrivial(1); vf_state2(e,&back,4);
			if(z>=100) vf_fail("crashed with signal %d",z-100);
			if(e<left){ if(z==1) vf_fail("a message within the limit is refused"); if(z) vf_fail("digest of a message within the limit differs from the definition"); }
			/* MD5 is defined for longer messages */
			else if(z!=1 && !(h->ref==RH_MD5 && z==0)) vf_fail("a digest is returned for a message longer than the specification's limit");
			D_(cur);
		}
	}
}
#else
static unsigned limbits(const cat_hash *h){ (void)h; return 0; } static void u_over(void *a){ (void)a; } static void u_move(void *a){ (void)a; }
#endif
static void reg(void)
{
	int wk=!!strstr(vf_opt,"walk"), cl=!!strstr(vf_opt,"call"), mv=!!strstr(vf_opt,"move"); keyed=!!strstr(vf_opt,"keyed"); int ov=!!strstr(vf_opt,"exhaust");
	/* slow ones first */
	for(int p=0;p<2;p++) for(int i=cat_nhashes-1;i>=0;i--)
	{
		const cat_hash *h=cat_hashes+i; int slow=strstr(h->name,"keccak")||strstr(h->name,"skein")||!strcmp(h->name,"whirlpool"); if(slow==p) continue;
		if(strstr(vf_opt,"counters")&&(h->ref==RH_SHA3||h->ref==RH_KECCAK1600||h->ref==RH_KECCAK800)) continue; /* no length in these */
		if(wk) for(int t=2;t>=0;t--) if(strstr(vf_opt,"counters")?t==2||vf_thorough:t!=1||vf_thorough) vf_unit(u_walk,(void*)(intptr_t)(i*8+t),"long/%s/walk%d",h->name,TH[t]);
		if(cl) for(int w=0;w<(vf_thorough?8:2);w++) vf_unit(u_call,(void*)(intptr_t)(i*8+w),"long/%s/call%d",h->name,w);
	}
	if(ov) for(int i=0;i<cat_nhashes;i++){ unsigned l=limbits(cat_hashes+i); if(l>=64&&l<=67) vf_unit(u_over,(void*)(intptr_t)i,"long/%s/limit",cat_hashes[i].name); }
	if(mv) for(int i=0;i<cat_nhashes;i++) if(!keyed||(strstr(cat_hashes[i].name,"skein"))) vf_unit(u_move,(void*)(intptr_t)i,"long/%s/moved",cat_hashes[i].name);
}
int main(int argc,char**argv){ for(int i=1;i<argc;i++) if(!strcmp(argv[i],"gen")){ gen(); return 0; } return vf_main(argc,argv,reg); }
