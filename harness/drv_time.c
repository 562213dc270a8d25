/* X07: instruction and address traces of comparison and verification.
   trace: the library is compiled with a callback per basic block, load and store (own runtime here),
          its calls of memcmp and the like come to stand-ins that stop at the first difference;
   step:  the ordinary optimised library is single-stepped (trap flag), one record per instruction.
   All mismatching contents must give one trace, and all matching ones must give one trace; a
   difference between match and mismatch reveals only the result and is not judged. */
#define _GNU_SOURCE
#include "objs.h"
#include <kripto/memory.h>
#include <kripto/desc/mac.h>
#include <kripto/desc/ae.h>
#include <signal.h>
#include <ucontext.h>
#define NI __attribute__((noinline))
static volatile int on; static u64 th; static long tn; static int stepping;
static inline void ev(u64 a, u64 b){ th=(th^a)*0x9FB21C651E98DF25ULL; th^=th>>29; th=(th^b)*0xD6E8FEB86659FD93ULL; th^=th>>32; tn++; }
#define EV(k,x) do{ if(on) ev(k,(u64)(uintptr_t)(x)); }while(0)
/* compiler's callbacks */
void __sanitizer_cov_trace_pc(void){ EV(1,__builtin_return_address(0)); }
#define LS(n) void __sanitizer_cov_load##n(void *p){ EV(100+n,p); } void __sanitizer_cov_store##n(void *p){ EV(200+n,p); }
LS(1) LS(2) LS(4) LS(8) LS(16)
/* library calls of the string functions (variant tracepc) */
int vf_memcmp(const void *a, const void *b, size_t n){ const u8 *x=a,*y=b; EV(3,x); EV(4,y); for(size_t i=0;i<n;i++){ EV(5,i); if(x[i]!=y[i]) return x[i]-y[i]; } return 0; }
int vf_bcmp(const void *a, const void *b, size_t n){ return vf_memcmp(a,b,n); }
int vf_strcmp(const char *x, const char *y){ size_t i=0; EV(3,x); EV(4,y); for(;;i++){ EV(5,i); if(x[i]!=y[i]) return (u8)x[i]-(u8)y[i]; if(!x[i]) return 0; } }
int vf_strncmp(const char *x, const char *y, size_t n){ EV(3,x); EV(4,y); for(size_t i=0;i<n;i++){ EV(5,i); if(x[i]!=y[i]) return (u8)x[i]-(u8)y[i]; if(!x[i]) return 0; } return 0; }
void *vf_memchr(const void *x, int c, size_t n){ EV(3,x); for(size_t i=0;i<n;i++){ EV(5,i); if(((const u8*)x)[i]==(u8)c) return (u8*)x+i; } return 0; }
void *vf_memcpy(void *d, const void *s, size_t n){ EV(6,d); EV(7,s); EV(8,n); return memcpy(d,s,n); }
void *vf_memmove(void *d, const void *s, size_t n){ EV(6,d); EV(7,s); EV(8,n); return memmove(d,s,n); }
void *vf_memset(void *d, int c, size_t n){ EV(9,d); EV(8,n); return memset(d,c,n); }
/* single steps */
static void trap(int s, siginfo_t *i, void *u){ ucontext_t *c=u; (void)s; (void)i; ev(2,(u64)c->uc_mcontext.gregs[REG_RIP]); }
static inline __attribute__((always_inline)) void begin(void){ th=77; tn=0; if(stepping) __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc"); else on=1; }
static inline __attribute__((always_inline)) void end(void){ if(stepping) __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"memory","cc"); else on=0; }
typedef struct { u64 h; long n; int res; } trace;
NI static trace t_equals(const u8 *a, const u8 *b, size_t n){ begin(); int r=kripto_memory_equals(a,b,n); end(); vf_trans(1); return (trace){th,tn,r!=0}; }
NI static trace t_mac(kripto_mac *m, const u8 *t, unsigned n){ begin(); int r=kripto_mac_verify(m,t,n); end(); vf_trans(1); return (trace){th,tn,r!=0}; }
NI static trace t_ae(kripto_ae *m, const u8 *t, unsigned n){ begin(); int r=kripto_ae_verify(m,t,n); end(); vf_trans(1); return (trace){th,tn,r!=0}; }
static trace ref[2]; static int have[2]; static char refname[2][80];
static void forget(void){ have[0]=have[1]=0; }
static void judge(trace t, int match, const char *name, long x, long y)
{
	char b[80]; snprintf(b,sizeof b,name,x,y); if(t.res!=match) vf_fail("%s: result %d",b,t.res); if(!t.n) vf_fail("nothing was traced"); vf_state2((u64)match,&t.h,8);
	if(!have[match]){ have[match]=1; ref[match]=t; strcpy(refname[match],b); return; }
	vf_validated(1); vf_nontrivial(1);
	if(t.n!=ref[match].n) vf_fail("%s: %ld steps, but %ld for %s",b,t.n,ref[match].n,refname[match]);
	if(t.h!=ref[match].h) vf_fail("%s: another path or other addresses than for %s (%ld steps)",b,refname[match],t.n);
}
/* ---- memory equality */
static u8 A_[700] __attribute__((aligned(64))), B_[700] __attribute__((aligned(64)));
static void u_eq(void *arg)
{
	int part=(int)(intptr_t)arg; size_t L=stepping?(vf_thorough?130:40):(vf_thorough?600:260);
	for(size_t n=1;n<=L;n++) if((int)(n%8)==part) for(int al=0;al<(n<=40?9:2);al++)
	{
		u8 *a=A_+(al%3==2?7:al%3), *b=B_+(al/3);
		if(!vf_case("compare %ld bytes, placement %ld",(long)n,(long)al)) continue;
		forget();
		for(int f=0;f<4;f++){ for(size_t i=0;i<n;i++) a[i]=b[i]=f==0?0:f==1?0xFF:f==2?(u8)(i*29+7):(u8)(i&1?0x80:0); judge(t_equals(a,b,n),1,"equal contents %ld",f,0); }
		for(int f=0;f<(stepping?1:3);f++)
		{
			for(size_t i=0;i<n;i++) a[i]=b[i]=f==0?(u8)(i*29+7):f==1?0:0xFF;
			for(size_t i=0;i<n;i++)
			{
				int all = stepping ? (n<=8||i==0||i==n-1) : (n<=64||i<4||i+4>=n);
				for(int d=1;d<256;d++) if(all&&(!stepping||(d&(d-1))==0||d==255) || d==1 || d==0x80 || d==0xFF){ b[i]^=(u8)d; judge(t_equals(a,b,n),0,"byte %ld differs by %02lx",(long)i,d); b[i]^=(u8)d; }
				size_t st=stepping||n>130?n/8+1:1; for(size_t j=i+1;j<n;j+=st) for(int k=0;k<2;k++){ b[i]^=(u8)(k?0x41:1); b[j]^=(u8)(k?0x41:0x80); judge(t_equals(a,b,n),0,"bytes %ld and %ld differ",(long)i,(long)j); b[i]^=(u8)(k?0x41:1); b[j]^=(u8)(k?0x41:0x80); }
			}
			for(size_t i=0;i<n;i++){ for(size_t j=i;j<n;j++) b[j]^=0x5A; judge(t_equals(a,b,n),0,"all bytes from %ld on differ",(long)i,0); for(size_t j=i;j<n;j++) b[j]^=0x5A; }
			for(size_t i=0;i<n;i++){ for(size_t j=0;j<=i;j++) b[j]^=0x5A; judge(t_equals(a,b,n),0,"all bytes to %ld differ",(long)i,0); for(size_t j=0;j<=i;j++) b[j]^=0x5A; }
		}
	}
	/* every set of differing positions */
	for(size_t n=2;n<=(stepping?(vf_thorough?9u:6u):(vf_thorough?16u:12u));n++) if((int)(n%8)==part && vf_case("compare %ld bytes, every set of differing positions",(long)n))
	{
		forget(); for(size_t i=0;i<n;i++) A_[i]=(u8)(i*31+5);
		for(long x=1;x<1L<<n;x++){ for(size_t i=0;i<n;i++) B_[i]=A_[i]^(x>>i&1?0x10:0); judge(t_equals(A_,B_,n),0,"difference set %lx",x,0); if(!(x&4095)) vf_alive(); }
	}
	/* every value of both bytes */
	for(size_t n=1;n<=4;n++) if((int)(n%8)==part) for(size_t p=0;p<n;p++) for(int v=0;v<256;v+=stepping?51:1) if(vf_case("compare %ld bytes, byte %ld of the first is %ld",(long)n,(long)p,(long)v))
	{
		forget(); memset(A_,0x33,n); memset(B_,0x33,n); A_[p]=(u8)v;
		for(int w=0;w<256;w++){ B_[p]=(u8)w; judge(t_equals(A_,B_,n),v==w,"the second's is %ld",w,0); }
	}
}
/* ---- a descriptor with a trivial tag */
struct kripto_mac { const kripto_desc_mac *desc; const u8 *t; };
struct kripto_ae { const kripto_desc_ae *desc; unsigned multof; const u8 *t; };
static void fm_tag(kripto_mac *m, void *o, unsigned n){ for(unsigned i=0;i<n;i++) ((volatile u8*)o)[i]=m->t[i]; }
static void fa_tag(kripto_ae *m, void *o, unsigned n){ for(unsigned i=0;i<n;i++) ((volatile u8*)o)[i]=m->t[i]; }
static const kripto_desc_mac fmd={.tag=fm_tag,.maxtag=255,.maxkey=255}; static const kripto_desc_ae fad={.tag=fa_tag,.maxtag=255,.maxkey=255,.maxiv=255};
static struct kripto_mac fm={&fmd,A_}; static struct kripto_ae fa={&fad,1,A_};
static void u_fake(void *arg)
{
	int part=(int)(intptr_t)arg%8, ae=(int)(intptr_t)arg/8; unsigned L=stepping?(vf_thorough?130:40):(vf_thorough?255:140);
	for(unsigned n=1;n<=L;n++) if((int)(n%8)==part && vf_case("%ld-byte tag (authenticated mode: %ld)",(long)n,(long)ae))
	{
		forget(); for(unsigned f=0;f<3;f++){ for(unsigned i=0;i<n;i++) A_[i]=B_[i]=f==0?0:f==1?0xFF:(u8)(i*29+7); judge(ae?t_ae(&fa,B_,n):t_mac(&fm,B_,n),1,"right tag, contents %ld",f,0); }
		for(unsigned i=0;i<n;i++)
		{
			for(int d=1;d<256;d=stepping?d*4+3:d+1){ B_[i]^=(u8)d; judge(ae?t_ae(&fa,B_,n):t_mac(&fm,B_,n),0,"byte %ld differs by %02lx",i,d); B_[i]^=(u8)d; }
			for(unsigned j=i+1;j<n;j+=stepping?n/4+1:1){ B_[i]^=1; B_[j]^=0x80; judge(ae?t_ae(&fa,B_,n):t_mac(&fm,B_,n),0,"bytes %ld and %ld differ",i,j); B_[i]^=1; B_[j]^=0x80; }
			for(unsigned j=i;j<n;j++) B_[j]^=0x5A; judge(ae?t_ae(&fa,B_,n):t_mac(&fm,B_,n),0,"all bytes from %ld on differ",i,0); for(unsigned j=i;j<n;j++) B_[j]^=0x5A;
			for(unsigned j=0;j<=i;j++) B_[j]^=0x5A; judge(ae?t_ae(&fa,B_,n):t_mac(&fm,B_,n),0,"all bytes to %ld differ",i,0); for(unsigned j=0;j<=i;j++) B_[j]^=0x5A;
		}
	}
}
/* ---- the library's own */
static const prim *P; static par Q; static unsigned ml; static unsigned TL;
static trace ver(const u8 *t)
{
	static u8 o[64]; vf_heap_reset(); void *x=o_create(P,&Q); if(!x) vf_fail("create returned null"); trace r;
	if(P->kind==K_MAC){ kripto_mac_input(x,o_data,ml); r=t_mac(x,t,TL); }
	else { kripto_ae_header(x,o_data,3); kripto_ae_decrypt(x,o_data,o,ml); r=t_ae(x,t,TL); }
	o_destroy(P,x); return r;
}
static void right(u8 *t)
{
	static u8 o[64]; vf_heap_reset(); void *x=o_create(P,&Q); if(!x) vf_fail("create returned null");
	if(P->kind==K_MAC){ kripto_mac_input(x,o_data,ml); kripto_mac_tag(x,t,TL); }
	else { kripto_ae_header(x,o_data,3); kripto_ae_decrypt(x,o_data,o,ml); kripto_ae_tag(x,t,TL); }
	o_destroy(P,x);
}
static void u_ver(void *arg)
{
	P=arg; par q[8]; int nq=par_list(P,q,8); static u8 t[300], c[300];
	for(int z=0;z<nq&&z<(vf_thorough?7:2);z++) for(TL=1;TL<=P->xtag;TL++)
	{
		int full = TL==P->xtag||TL==8||TL==16; if(!vf_thorough&&!full&&z) continue; if(stepping&&(z||!(TL==P->xtag))) continue;
		Q=q[z]; Q.tl=TL; ml=P->unit>1?P->unit:5;
		if(!vf_case("set %ld, %ld-byte tag",(long)z,(long)TL)) continue;
		forget(); right(t); judge(ver(t),1,"right tag",0,0); memcpy(c,t,TL);
		for(unsigned i=0;i<TL;i++)
		{
			for(int d=1;d<256;d=stepping?d+254:full||vf_thorough?d*2:d+127){ c[i]^=(u8)d; judge(ver(c),0,"byte %ld differs by %02lx",i,d); c[i]^=(u8)d; }
			if(!stepping||i==0) for(unsigned j=i+1;j<TL;j+=full&&!stepping&&TL<=16?1:TL/3+1){ c[i]^=1; c[j]^=0x80; judge(ver(c),0,"bytes %ld and %ld differ",i,j); c[i]^=1; c[j]^=0x80; }
			vf_alive();
		}
		for(unsigned i=0;i<TL;i++){ for(unsigned j=i;j<TL;j++) c[j]^=0x5A; if(!stepping||i<2) judge(ver(c),0,"all bytes from %ld on differ",i,0); for(unsigned j=i;j<TL;j++) c[j]^=0x5A; }
	}
}
static void reg(void)
{
	stepping=strstr(vf_opt,"step")!=0; vf_fill=0xA5; prims_init();
	if(stepping){ struct sigaction a; memset(&a,0,sizeof a); a.sa_sigaction=trap; a.sa_flags=SA_SIGINFO; sigaction(SIGTRAP,&a,0); }
	for(int i=0;i<8;i++) vf_unit(u_eq,(void*)(intptr_t)i,"time/equality%d",i);
	for(int i=0;i<16;i++) vf_unit(u_fake,(void*)(intptr_t)i,"time/%s%d",i<8?"mac":"ae",i%8);
	for(int i=0;i<nprims;i++)
	{
		const prim *p=prims+i; if(p->kind!=K_MAC&&p->kind!=K_AE) continue;
		if(stepping&&!vf_thorough&&strcmp(p->name,"hmac/md5")&&strcmp(p->name,"omac/aes")&&strcmp(p->name,"eax/xtea")) continue;
		vf_unit(u_ver,(void*)p,"time/%s",p->name);
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
