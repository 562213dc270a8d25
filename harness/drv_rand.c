/* X19: the random generator in its other builds: Windows sources (RAND_RTL, RAND_CRYPT) over stand-ins of
   the system interface, and the built-in generator (RAND_BUILTIN, RAND_SMALL) over a scripted scrypt and clock.
   The source file of the library is compiled into this driver in the configuration under test. */
#define _GNU_SOURCE
#include "vf.h"
#include "guard.h"
#include <assert.h>
#include <math.h>
#include <time.h>
#include <kripto/memory.h>
#include <kripto/stream.h>
#include <kripto/mac.h>
#include <kripto/hash.h>
#include <kripto/stream/chacha.h>
#include <kripto/mac/hmac.h>
#include <kripto/hash/blake2s.h>
#include <kripto/scrypt.h>
static time_t R_time(time_t *t); static clock_t R_clock(void);
static int R_scrypt(const kripto_desc_mac *, unsigned, uint64_t, uint32_t, uint32_t, const void *, unsigned, const void *, unsigned, void *, size_t);
#undef KRIPTO_UNIX
#if defined(RAND_RTL)
#define KRIPTO_WINDOWS
#define KRIPTO_RTLGENRANDOM
#elif defined(RAND_CRYPT)
#define KRIPTO_WINDOWS
#define KRIPTO_CRYPTGENRANDOM
#elif defined(RAND_SMALL)
#define KRIPTO_RESEED_OUTPUT 100
#define KRIPTO_RESEED_TIME 10
#endif
#define kripto_random_create R_create
#define kripto_random_gen R_gen
#define kripto_random_destroy R_destroy
#define kripto_random_test R_test
#define kripto_scrypt R_scrypt
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define time(x) R_time(x)
#define clock() R_clock()
#include <kripto/../../lib/random.c>
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef time
#undef clock
static time_t T_now; static clock_t T_clk;
static time_t R_time(time_t *t){ if(t) *t=T_now; return T_now; }
static clock_t R_clock(void){ return T_clk; }
static u64 mix(u64 z){ z+=0x9E3779B97F4A7C15ULL; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }

/* ------------------------------------------------------------ scripted scrypt */
static struct { int fail_at, calls, failed; u64 seq; u8 key[32]; size_t keylen; u64 pass[8]; } Z;
static int R_scrypt(const kripto_desc_mac *mac, unsigned mr, uint64_t n, uint32_t r, uint32_t p, const void *pass, unsigned pl, const void *salt, unsigned sl, void *out, size_t ol)
{
	(void)mr; vf_trans(1); Z.calls++;
	if(!mac) vf_fail("seeding without a MAC");
	if(n<2||(n&(n-1))||!r||!p) vf_fail("seeding with impossible scrypt parameters");
	if(!pass||!pl) vf_fail("seeding from nothing");
	if(sl&&!salt) vf_fail("seeding with an absent salt");
	if(!out||!ol||ol>4096) vf_fail("seeding asks for %zu bytes",ol);
	volatile u8 sum=0; for(unsigned i=0;i<sl;i++) sum^=((const u8*)salt)[i];
	if(Z.calls<=8) Z.pass[Z.calls-1]=vf_hash(pl,pass,pl);
	if(Z.fail_at==Z.calls){ Z.failed=1; return -1; }
	Z.seq++; for(size_t i=0;i<ol;i++) ((u8*)out)[i]=(u8)(mix(Z.seq*64+i/8)>>(i%8*8));
	Z.keylen=ol; memcpy(Z.key,out,ol<32?ol:32); return 0;
}

#if defined(RAND_RTL) || defined(RAND_CRYPT)
/* ------------------------------------------------------------ Windows */
static struct { int load_fail, proc_fail, loaded, acquired, bad; int fail_at, calls; u8 *base; size_t max, got; int touch; int failed; u64 garbage; int zero; } W;
#define HANDLE1 ((void*)0x7F001234)
#ifdef RAND_RTL
static int ieq(const char *a, const char *b){ for(;*a||*b;a++,b++){ int x=*a,y=*b; if(x>='A'&&x<='Z') x+=32; if(y>='A'&&y<='Z') y+=32; if(x!=y) return 0; } return 1; }
#endif
/* the system source: takes a 32-bit length, returns one byte; the rest of the register is undefined */
static u64 source(void *p, u64 arg)
{
	size_t n=(uint32_t)arg; u8 *b=p; vf_trans(1); W.calls++;
	if(!W.base) W.base=b;   /* the self-test's own buffer */
	if(n&&b!=W.base+W.got) vf_fail("the system source is asked to write at offset %zd, after %zu bytes were obtained",(ssize_t)(b-W.base),W.got);
	if(W.got+n>W.max) vf_fail("the system source is asked for %zu bytes with only %zu to go",n,W.max-W.got);
	if(W.fail_at==W.calls){ W.failed=1; return W.garbage&~0xFFULL; }
	if(!n) W.zero++;
	if(W.touch) for(size_t i=0;i<n;i++) b[i]=(u8)(mix(W.got+i)>>7);
	else if(n){ b[0]=0x11; b[n-1]=0x22; }
	W.got+=n; if(W.calls>1000) vf_fail("the system source is called over and over"); return W.garbage|1;
}
static u64 rtl_source(void *p, u64 n){ return source(p,n); }
HMODULE vw_load(const char *name)
{
#ifdef RAND_RTL
	if(!ieq(name,"advapi32.dll")&&!ieq(name,"advapi32")) vf_fail("another library than advapi32 is loaded");
#endif
	if(W.load_fail){ W.failed=1; return 0; } W.loaded++; return HANDLE1;
}
FARPROC vw_proc(HMODULE m, const char *name)
{
	if(m!=HANDLE1||W.loaded<1) vf_fail("function looked up in a library that is not loaded");
	if(strcmp(name,"SystemFunction036")) vf_fail("another function than SystemFunction036 is looked up");
	if(W.proc_fail){ W.failed=1; return 0; } return (FARPROC)rtl_source;
}
BOOL vw_free(HMODULE m){ if(m!=HANDLE1||W.loaded<1) vf_fail("a library is released that is not loaded"); W.loaded--; return 1; }
#ifdef RAND_CRYPT
BOOL vw_acquire(HCRYPTPROV *p, const char *c, const char *pr, DWORD type, DWORD flags)
{ (void)c;(void)pr;(void)type;(void)flags; if(W.load_fail){ W.failed=1; return 0; } W.acquired++; *p=(HCRYPTPROV)0x7E115678; return 4; }
BOOL vw_cryptgen(HCRYPTPROV p, DWORD len, BYTE *out){ if(p!=0x7E115678||W.acquired<1) vf_fail("the source is asked through a provider that is not acquired"); return (source(out,len)&0xFF)?7:0; }
BOOL vw_release(HCRYPTPROV p, DWORD fl){ (void)fl; if(p!=0x7E115678||W.acquired<1) vf_fail("a provider is released that is not acquired"); W.acquired--; return 1; }
#endif
static u8 *big_at; static size_t big_n;
static void w_begin(void){ memset(&W,0,sizeof W); vf_heap_reset(); }
static kripto_random *w_create(int load, int proc, int mem)
{
	W.load_fail=load; W.proc_fail=proc; vf_fail_at=mem;
	kripto_random *r=R_create(); vf_trans(1); vf_validated(1);
	int f=W.failed||(mem&&vf_alloc_count>=mem); vf_fail_at=0;
	if(r&&f) vf_fail("creation succeeds although %s fails",W.failed?"the system source":"allocation");
	if(!r&&!f) vf_fail("creation fails for no reason");
	if(!r){ if(vf_heap_live()) vf_fail("failed creation leaks memory"); if(W.loaded||W.acquired) vf_fail("failed creation leaves the library or provider open"); }
	else if(!W.loaded&&!W.acquired) vf_fail("no system source was opened");
	W.failed=0; return r;
}
static void w_destroy(kripto_random *r){ R_destroy(r); vf_trans(1); vf_validated(1); if(vf_heap_live()) vf_fail("the destroyed generator leaves memory allocated"); if(W.loaded||W.acquired) vf_fail("the destroyed generator leaves its system source open"); }
/* one request; the source fails in its fail-th call */
static void w_gen(kripto_random *r, guard *g, size_t n, int side, int fail, u64 garbage)
{
	int small=n<=100000; u8 *b=small?guard_at(g,n,side):big_at; if(!small&&n>big_n) vf_fail("harness: too large");
	W.base=b; W.max=n; W.got=0; W.touch=small; W.calls=0; W.fail_at=fail; W.failed=0; W.garbage=garbage; if(small) memset(b,0x5A,n);
	size_t k=R_gen(r,b,n); vf_trans(1); vf_validated(1);
	if(k>W.got) vf_fail("%zu bytes reported for a request of %zu, the system source gave %zu",k,n,W.got);
	if(!W.failed&&k!=n) vf_fail("%zu bytes reported for a request of %zu that the system source answered",k,n);
	if(W.failed&&k>=n&&n) vf_fail("failure of the system source is not reported");
	if(small){ for(size_t i=0;i<W.got;i++) if(b[i]!=(u8)(mix(i)>>7)) vf_fail("byte %zu is not the one obtained",i); for(size_t i=W.got;i<n;i++) if(b[i]!=0x5A&&b[i]!=0) vf_fail("byte %zu was never obtained",i); guard_check(g,n,side,"random bytes"); }
	else { if(k&&(b[0]!=0x11||(k==n&&b[n-1]!=0x22))) vf_fail("the bytes obtained were changed"); madvise(big_at,big_n,MADV_DONTNEED); }
	u64 h[3]={n,(u64)fail,W.got}; vf_state(h,sizeof h); vf_nontrivial(1);
}
static void u_win(void *a)
{
	(void)a; guard g=guard_new(100000); big_n=((size_t)4<<32)+4096; big_at=mmap(0,big_n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(big_at==MAP_FAILED){ perror("mmap"); exit(2); }
	for(int load=0;load<2;load++) for(int proc=0;proc<2;proc++) for(int mem=0;mem<4;mem++) if(vf_case("creation: library fails %ld, function fails %ld, allocation %ld fails",(long)load,(long)proc,(long)mem))
	{ w_begin(); kripto_random *r=w_create(load,proc,mem); if(r){ w_gen(r,&g,20,0,0,0xABCDEF00); w_destroy(r); } u64 h=(u64)(load*8+proc*4+mem); vf_state2(7,&h,8); vf_nontrivial(1);
	  r=w_create(0,0,0); w_gen(r,&g,20,0,0,0); w_destroy(r); }
	static const u64 garb[]={0,0xFFFFFFFFFFFFFF00ULL,0x1234567800ULL,0x100};
	for(long n=0;n<=300;n++) for(int s=0;s<2;s++) for(int f=0;f<3;f++) for(int q=0;q<4;q++) if(vf_case("request of %ld bytes, side %ld, call %ld of the source fails, rest of the register %ld",n,(long)s,(long)f,(long)q))
	{ w_begin(); kripto_random *r=w_create(0,0,0); w_gen(r,&g,(size_t)n,s,f,garb[q]); w_gen(r,&g,7,s,0,garb[q]); w_destroy(r); }
	static const size_t big[]={4096,65535,65536,99999,(1u<<31)-1,1u<<31,(1u<<31)+5,0xFFFFFFFEu,0xFFFFFFFFu,0x100000000u,0x100000001u,0x100000005u,0x1FFFFFFFFu,0x200000000u,0x200000007u,0x3FFFFFFFFu,0x400000000u};
	for(unsigned i=0;i<sizeof big/sizeof *big;i++) for(int f=0;f<6;f++) for(int q=0;q<2;q++) if(vf_case("request of 0x%lx bytes, call %ld of the source fails, rest of the register %ld",(long)big[i],(long)f,(long)q))
	{ w_begin(); kripto_random *r=w_create(0,0,0); w_gen(r,&g,big[i],0,f,garb[q]); w_gen(r,&g,64,0,0,garb[q]); w_destroy(r); }
	int D=vf_thorough?5:4; static const size_t ls[]={0,1,33,4096,0x100000003u}; long N=1; for(int d=0;d<D;d++) N*=10;
	for(long x=0;x<N;x++) if(vf_case("sequence %ld of %ld requests",x,(long)D))
	{ w_begin(); kripto_random *r=w_create(0,0,0); long y=x; for(int d=0;d<D;d++){ long o=y%10; y/=10; w_gen(r,&g,ls[o%5],d&1,o>=5,0x77770000); } w_destroy(r); }
	for(int x=0;x<16;x++) if(vf_case("two generators, order %ld",(long)x))
	{ w_begin(); kripto_random *r=w_create(0,0,0), *q=w_create(0,0,0); w_gen(r,&g,9,0,x&1,0); w_gen(q,&g,10,0,x>>1&1,0); if(x&4){ R_destroy(r); w_gen(q,&g,11,0,x>>3&1,0); w_destroy(q); } else { R_destroy(q); w_gen(r,&g,11,0,x>>3&1,0); w_destroy(r); } }
	for(int f=1;f<3;f++) if(vf_case("self-test, source fails %ld",(long)(f==1)))
	{ w_begin(); kripto_random *r=w_create(0,0,0); W.base=0; W.got=0; W.max=1<<20; W.touch=1; W.calls=0; W.garbage=0x100; W.fail_at=f==1; int t=R_test(r); vf_trans(1); vf_validated(1); if(f==1&&t) vf_fail("self-test of a dead source succeeds"); if(f!=1&&!t) vf_fail("self-test of a uniform source fails"); w_destroy(r); }
}
static void reg(void){ vf_unit(u_win,0,"windows"); }

#else
/* ------------------------------------------------------------ built-in generator */
#define LIM KRIPTO_RESEED_OUTPUT
#define TIM KRIPTO_RESEED_TIME
#define QR(a,b,c,d) a+=b; d^=a; d=d<<16|d>>16; c+=d; b^=c; b=b<<12|b>>20; a+=b; d^=a; d=d<<8|d>>24; c+=d; b^=c; b=b<<7|b>>25;
static u32 le32(const u8 *p){ return p[0]|p[1]<<8|p[2]<<16|(u32)p[3]<<24; }
static void chacha20(const u8 *key, const u8 *iv, u64 ctr, u8 *out)
{
	u32 x[16]={0x61707865,0x3320646e,0x79622d32,0x6b206574}, y[16]; for(int i=0;i<8;i++) x[4+i]=le32(key+4*i); x[12]=(u32)ctr; x[13]=(u32)(ctr>>32); x[14]=le32(iv); x[15]=le32(iv+4); memcpy(y,x,64);
	for(int i=0;i<10;i++){ QR(y[0],y[4],y[8],y[12]) QR(y[1],y[5],y[9],y[13]) QR(y[2],y[6],y[10],y[14]) QR(y[3],y[7],y[11],y[15]) QR(y[0],y[5],y[10],y[15]) QR(y[1],y[6],y[11],y[12]) QR(y[2],y[7],y[8],y[13]) QR(y[3],y[4],y[9],y[14]) }
	for(int i=0;i<16;i++){ u32 v=y[i]+x[i]; for(int k=0;k<4;k++) out[4*i+k]=(u8)(v>>(8*k)); }
}
/* the model: a key, a nonce, a position; what was delivered and when since the last seeding */
typedef struct { u8 key[32], iv[8]; u64 pos; u64 after, with; time_t when; int pending; } model;
static void ks(const u8 *key, const u8 *iv, u64 pos, u8 *out, size_t n){ u8 b[64]; u64 have=~0ULL; for(size_t i=0;i<n;i++){ if((pos+i)/64!=have){ have=(pos+i)/64; chacha20(key,iv,have,b); } out[i]=b[(pos+i)%64]; } }
static u8 seen_key[32]; static int seen_on;
static void on_free(u8 *p, size_t n, int idx){ (void)idx; if(seen_on) for(size_t i=0;i+16<=n;i++) if(!memcmp(p+i,seen_key,16)) vf_fail("a released heap block holds the key of the generator"); }
static void b_begin(void){ memset(&Z,0,sizeof Z); vf_heap_reset(); T_now=1000000; T_clk=77; seen_on=0; vf_free_hook=on_free; }
static kripto_random *b_create(model *m, int sfail, int mem)
{
	Z.calls=0; Z.failed=0; Z.fail_at=sfail; vf_alloc_count=0; vf_fail_at=mem; int live=vf_heap_live();
	kripto_random *r=R_create(); vf_trans(1); vf_validated(1);
	int af=mem&&vf_alloc_count>=mem; vf_fail_at=0; Z.fail_at=0;
	if(r&&Z.failed) vf_fail("creation succeeds although seeding failed");
	if(!r&&!Z.failed&&!af) vf_fail("creation fails for no reason");
	if(!r){ if(vf_heap_live()!=live) vf_fail("failed creation leaks memory"); return 0; }
	if(!Z.calls||Z.keylen<32) vf_fail("the generator is not seeded");
	memset(m,0,sizeof *m); memcpy(m->key,Z.key,32); m->when=T_now; memcpy(seen_key,m->key,32); seen_on=1; return r;
}
static void b_destroy(kripto_random *r, int live){ R_destroy(r); vf_trans(1); vf_validated(1); if(vf_heap_live()!=live) vf_fail("the destroyed generator leaves memory allocated"); }
static u8 *bigbuf; static size_t bigmax;
/* compares what was delivered; long deliveries at both ends and at some positions in between */
static int cmp(const u8 *b, size_t n, const u8 *key, const u8 *iv, u64 pos, size_t *at)
{
	static u8 w[4096]; size_t step=n<=4096?4096:n/5;
	for(size_t o=0;;o+=step){ int last=0; if(n<=600||o+600>=n){ o=n>600&&o?n-600:o; last=1; } size_t k=n-o<(n<=4096?4096:600)?n-o:(n<=4096?4096:600); ks(key,iv,pos+o,w,k); for(size_t i=0;i<k;i++) if(w[i]!=b[o+i]){ *at=o+i; return 0; } if(last||o+k>=n) return 1; }
}
static size_t b_gen(kripto_random *r, model *m, guard *g, size_t n, int sfail, int mem)
{
	int small=n<=8000; u8 *b=small?guard_at(g,n,0):bigbuf; if(!small){ if(n>bigmax) vf_fail("harness: too large"); memset(b+n,0x5A,64); }
	Z.calls=0; Z.failed=0; Z.fail_at=sfail; vf_alloc_count=0; vf_fail_at=mem;
	size_t k=R_gen(r,b,n); vf_trans(1); vf_validated(1);
	int af=mem&&vf_alloc_count>=mem; vf_fail_at=0; Z.fail_at=0; vf_heap_check();
	if(small) guard_check(g,n,0,"random bytes"); else for(int i=0;i<64;i++) if(b[n+i]!=0x5A) vf_fail("write past the requested bytes");
	int must=m->after+n>LIM||T_now-m->when>TIM, mustnot=m->with+n<=LIM&&T_now-m->when<=TIM;
	if(k!=0&&k!=n) vf_fail("%zu bytes reported for a request of %zu",k,n);
	if(Z.calls&&mustnot) vf_fail("a new key is derived although it is not due");
	if(n&&k==n&&!Z.calls&&must) vf_fail("%zu bytes delivered without a new key, %llu bytes and %lld s after the last one",n,(unsigned long long)m->after,(long long)(T_now-m->when));
	if(n&&k==n&&Z.failed) vf_fail("bytes are delivered although seeding failed");
	if(n&&!k&&!Z.failed&&!af) vf_fail("the request fails for no reason");
	if(Z.failed||(n&&!k)){ m->pending++; m->with+=n; u64 h=n*7+(u64)m->pending; vf_state2(3,&h,8); return k; }
	size_t at=0;
	if(Z.calls)
	{
		model q=*m, w; int ok=0; if(Z.keylen<32) vf_fail("the new key has only %zu bytes",Z.keylen); memcpy(q.key,Z.key,32); if(!memcmp(q.key,m->key,32)) vf_fail("harness: same key");
		/* the nonce is the next keystream of the old key; failed seedings may have used some of it up */
		for(int j=0;j<=m->pending;j++){ ks(m->key,m->iv,m->pos+8*(u64)j,q.iv,8); if(cmp(b,n,q.key,q.iv,0,&at)){ if(!ok) w=q; ok++; } }
		if(!ok) vf_fail("request of %zu bytes after a new key: byte %zu is not the keystream of that key",n,at);
		q=w; q.pending=ok>1?-1:0; /* -1: too few bytes to tell which nonce was taken */
		q.after=0; q.with=n; q.when=T_now; q.pos=n; *m=q; memcpy(seen_key,m->key,32);
	}
	else
	{
		if(!cmp(b,n,m->key,m->iv,m->pos,&at)) vf_fail("request of %zu bytes at position %llu: byte %zu is not the keystream",n,(unsigned long long)m->pos,at);
		m->pos+=n; m->after+=n; m->with+=n;
	}
	u64 h[4]={n,m->pos,(u64)Z.calls,Z.seq}; vf_state(h,sizeof h); vf_nontrivial(1); return k;
}
static long ARG(void *a){ return (long)(intptr_t)a; }
#define PARTS 16
static void u_create(void *a)
{
	(void)a; guard g=guard_new(8192); model m;
	for(int s=0;s<5;s++) for(int f=0;f<8;f++) if(vf_case("creation: scrypt call %ld fails, allocation %ld fails",(long)s,(long)f))
	{ b_begin(); kripto_random *r=b_create(&m,s,f); u64 h=(u64)(s*16+f); vf_state2(1,&h,8); vf_nontrivial(1); if(r){ b_gen(r,&m,&g,33,0,0); b_destroy(r,0); } r=b_create(&m,0,0); b_gen(r,&m,&g,40,0,0); b_destroy(r,0); }
	for(int d=1;d<40;d++) if(vf_case("seeding %ld s or ticks later",(long)d))
	{
		b_begin(); u64 p0[8]; kripto_random *r=b_create(&m,0,0); int n0=Z.calls; memcpy(p0,Z.pass,sizeof p0); b_destroy(r,0);
		b_begin(); T_now+=d; r=b_create(&m,0,0); vf_true(Z.calls==n0,"another number of scrypt calls"); int diff=0; for(int i=0;i<n0&&i<8;i++) diff|=Z.pass[i]!=p0[i]; vf_true(diff,"the time of seeding makes no difference"); b_destroy(r,0);
		b_begin(); T_clk+=d; r=b_create(&m,0,0); diff=0; for(int i=0;i<n0&&i<8;i++) diff|=Z.pass[i]!=p0[i]; vf_true(diff,"the processor time of seeding makes no difference"); b_destroy(r,0);
	}
	for(long n=0;n<=400;n++) if(vf_case("repeated requests of %ld bytes",n)){ b_begin(); kripto_random *r=b_create(&m,0,0); for(int i=0;i<12;i++) b_gen(r,&m,&g,(size_t)n,0,0); b_destroy(r,0); }
	for(int x=0;x<256;x++) if(vf_case("two generators, order %ld",(long)x))
	{ model n; b_begin(); kripto_random *r=b_create(&m,0,0), *q=b_create(&n,0,0); for(int i=0;i<7;i++) if(x>>i&1) b_gen(r,&m,&g,(size_t)i*9+1,0,0); else b_gen(q,&n,&g,(size_t)i*7+2,0,0); int l; seen_on=0; if(x&128){ R_destroy(r); b_gen(q,&n,&g,50,0,0); b_destroy(q,0); } else { R_destroy(q); b_gen(r,&m,&g,50,0,0); b_destroy(r,0); } (void)l; }
	for(int s=0;s<3;s++) if(vf_case("self-test, scrypt call %ld fails",(long)s)){ b_begin(); kripto_random *r=b_create(&m,0,0); T_now+=TIM+1; Z.calls=0; Z.failed=0; Z.fail_at=s; int t=R_test(r); vf_trans(1); vf_validated(1); if(Z.failed&&t) vf_fail("self-test of a dead source succeeds"); Z.fail_at=0; vf_true(R_gen(r,bigbuf,100)==100,"the generator is dead after a failed seeding"); R_destroy(r); vf_true(!vf_heap_live(),"leak"); }
}
/* every sequence of requests x time steps x failures */
static void u_seq(void *a)
{
	long part=ARG(a); guard g=guard_new(8192); model m; int D=vf_thorough?4:3;
#ifdef RAND_SMALL
	static const size_t ls[]={0,1,40,99,100,101,300}; static const int ts[]={0,TIM,TIM+1};
	enum { NL=7, NT=3, NF=4 };
#else
	static const size_t ls[]={1,LIM/2,LIM-1,LIM,LIM+1}; static const int ts[]={0,TIM,TIM+1};
	enum { NL=5, NT=3, NF=1 }; D=vf_thorough?3:2;
#endif
	long per=NL*NT*NF, N=1; for(int d=0;d<D;d++) N*=per;
	for(long x=0;x<N;x++) if((x/7)%PARTS==part && vf_case("sequence %ld of %ld requests",x,(long)D))
	{
		b_begin(); kripto_random *r=b_create(&m,0,0); long y=x; int stop=0;
		for(int d=0;d<D&&!stop;d++)
		{
			long o=y%per; y/=per; T_now+=ts[o/NL%NT]; int f=(int)(o/NL/NT); b_gen(r,&m,&g,ls[o%NL],f==1||f==2?f:0,f==3);
			if(m.pending<0) stop=1;   /* the nonce after such a call is not determined */
			if(f) vf_log("failure %d",f);
		}
		if(!stop){ b_gen(r,&m,&g,17,0,0); if(m.pending>=0) b_gen(r,&m,&g,70,0,0); }
		b_destroy(r,0);
	}
}
/* long runs: many requests of one size through several seedings */
static void u_run(void *a)
{
	long part=ARG(a); guard g=guard_new(8192); model m;
#ifdef RAND_SMALL
	for(long n=1;n<=(vf_thorough?130:110);n++) for(long k=1;k<=n;k++) if((n+k)%PARTS==part && vf_case("requests of %ld and %ld bytes in turn",n,k))
	{ b_begin(); kripto_random *r=b_create(&m,0,0); for(int i=0;i<40;i++){ T_now+=i%5==4; b_gen(r,&m,&g,(size_t)(i&1?n:k),0,0); } b_destroy(r,0); }
#else
	static const size_t ls[]={4096,65536,1000003,LIM/3,2*LIM+7,3}; 
	for(int x=0;x<36;x++) if(x%PARTS==part && vf_case("requests of %ld and %ld bytes in turn",(long)ls[x/6],(long)ls[x%6]))
	{ b_begin(); kripto_random *r=b_create(&m,0,0); u64 tot=0; for(int i=0;tot<3*LIM&&i<4000;i++){ size_t n=ls[i&1?x/6:x%6]; b_gen(r,&m,&g,n,0,0); tot+=n; vf_alive(); } b_destroy(r,0); }
#endif
}
static void reg(void)
{
	bigmax=3*(size_t)LIM+100; bigbuf=mmap(0,bigmax+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	vf_unit(u_create,0,"builtin/creation");
	for(long i=0;i<PARTS;i++) vf_unit(u_seq,(void*)(intptr_t)i,"builtin/sequences/%ld",i), vf_unit(u_run,(void*)(intptr_t)i,"builtin/runs/%ld",i);
}
#endif
int main(int c, char **v){ return vf_main(c,v,reg); }
