/* X03: the library is compiled with a callback per memory access (the compiler's thread
   instrumentation, run-time in this file).  Two tasks run as coroutines under a scheduler that may
   switch at every access.
   sets:      each task alone: every access outside its own objects and stack is collected; two tasks
              conflict if one writes what the other touches.  Tasks without conflicting accesses are
              independent: all their interleavings are equivalent to running one after the other.
   schedules: every schedule with one switch away from the first task (and back) at each access to
              memory that is not private, or at each function entry if there are too many; every schedule
              with two switches for a shared block cipher object; results compared with those of
              the task alone. */
#define _GNU_SOURCE
#include "objs.h"
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/pkcs7.h>
#include <kripto/memory.h>
#include <ucontext.h>
#include <link.h>
#include <sys/mman.h>
void *o_construct(const prim *p);
/* ---- coroutines */
typedef struct { ucontext_t c; u8 *stack; void (*fn)(int); int done, id; long acc, ent; u8 tls[4096]; } task;
static task T_[2]; static ucontext_t mainc; static task *cur;
#define STK (1u<<20)
static u8 *tls_lo; static size_t tls_n;
static int ph(struct dl_phdr_info *i, size_t s, void *d){ (void)s; (void)d; if(i->dlpi_name&&i->dlpi_name[0]) return 0; for(int k=0;k<i->dlpi_phnum;k++) if(i->dlpi_phdr[k].p_type==PT_TLS){ tls_n=(i->dlpi_phdr[k].p_memsz+63)&~63UL; } return 1; }
static void tls_find(void){ dl_iterate_phdr(ph,0); if(tls_n>4096) tls_n=4096; tls_lo=(u8*)__builtin_thread_pointer()-tls_n; }
static void tramp(int id){ T_[id].fn(id); T_[id].done=1; for(;;) swapcontext(&T_[id].c,&mainc); }
static void spawn(int id, void (*fn)(int))
{
	task *t=T_+id; if(!t->stack) t->stack=mmap(0,STK,3,0x22,-1,0); memset(t->stack+STK-65536,0xA5,65536);
	getcontext(&t->c); t->c.uc_stack.ss_sp=t->stack; t->c.uc_stack.ss_size=STK; t->c.uc_link=0; t->fn=fn; t->done=0; t->id=id; t->acc=t->ent=0; makecontext(&t->c,(void(*)(void))tramp,1,id); if(tls_n) memcpy(t->tls,tls_lo,tls_n);
}
static void resume(int id){ if(T_[id].done) return; cur=T_+id; if(tls_n) memcpy(tls_lo,cur->tls,tls_n); swapcontext(&mainc,&T_[id].c); cur=0; }
static void give_up(void){ task *t=cur; if(tls_n) memcpy(t->tls,tls_lo,tls_n); swapcontext(&t->c,&mainc); }
/* ---- accesses */
static int collect;                     /* sets mode */
typedef struct { u8 *p; unsigned n; u8 old[64]; } undo; static undo *ul; static size_t nul, cul;
static long nread, nwrite; static u8 *firstw; static unsigned firstn; static void *firstpc; static u64 rh;
static u8 *privlo[4], *privhi[4]; static int npriv;
static int heap0;                       /* blocks from here on belong to the task */
static int sched_kind; static long sw1=-1, sw2=-1; /* switch away at this access number of the task */
static long xacc[2];
static int is_private(u8 *p, size_t n)
{
	if(cur && p>=cur->stack && p+n<=cur->stack+STK) return 1;
	for(int i=0;i<npriv;i++) if(p>=privlo[i]&&p+n<=privhi[i]) return 1;
	if(tls_n && p>=tls_lo && p+n<=tls_lo+tls_n) return 1;
	for(int i=vf_nblocks-1;i>=heap0;i--) if(p>=vf_blocks[i].p && p+n<=vf_blocks[i].p+vf_blocks[i].n) return 1;
	return 0;
}
static void point(void)
{
	long k=cur->acc++;
	if(cur->id==0 ? k==sw1 : k==sw2) give_up();
}
static void access_(u8 *p, size_t n, int w, void *pc)
{
	if(!cur||!n) return;
	if(collect)
	{
		if(is_private(p,n)) return;
		if(w)
		{
			nwrite++; if(!firstw){ firstw=p; firstn=(unsigned)n; firstpc=pc; }
			for(size_t k=0;k<n;k+=64){ if(nul==cul){ cul=cul?2*cul:1024; ul=realloc(ul,cul*sizeof *ul); } undo *u=ul+nul++; u->p=p+k; u->n=n-k<64?(unsigned)(n-k):64; memcpy(u->old,p+k,u->n); }
		}
		else { nread++; rh+=(u64)(uintptr_t)p*0x9E3779B97F4A7C15ULL; }
		cur->acc++; return;
	}
	if(sched_kind==0 && !(p>=cur->stack && p+n<=cur->stack+STK)) point();
}
#define PC __builtin_return_address(0)
void __tsan_init(void){}
void __tsan_func_entry(void *pc){ (void)pc; if(!cur) return; if(collect) cur->ent++; else if(sched_kind==1) point(); }
void __tsan_func_exit(void){}
#define RW(n) void __tsan_read##n(void *p){ access_(p,n,0,PC); } void __tsan_write##n(void *p){ access_(p,n,1,PC); } void __tsan_read_write##n(void *p){ access_(p,n,1,PC); } \
 void __tsan_unaligned_read##n(void *p){ access_(p,n,0,PC); } void __tsan_unaligned_write##n(void *p){ access_(p,n,1,PC); } void __tsan_unaligned_read_write##n(void *p){ access_(p,n,1,PC); } \
 void __tsan_volatile_read##n(void *p){ access_(p,n,0,PC); } void __tsan_volatile_write##n(void *p){ access_(p,n,1,PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n){ access_(p,n,0,PC); } void __tsan_write_range(void *p, size_t n){ access_(p,n,1,PC); }
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
void *__tsan_memcpy(void *d, const void *s, size_t n){ access_((u8*)s,n,0,PC); access_(d,n,1,PC); return memcpy(d,s,n); }
void *__tsan_memmove(void *d, const void *s, size_t n){ access_((u8*)s,n,0,PC); access_(d,n,1,PC); return memmove(d,s,n); }
void *__tsan_memset(void *d, int c, size_t n){ access_(d,n,1,PC); return memset(d,c,n); }
void *vf_memcpy(void *d, const void *s, size_t n){ return __tsan_memcpy(d,s,n); }
void *vf_memmove(void *d, const void *s, size_t n){ return __tsan_memmove(d,s,n); }
void *vf_memset(void *d, int c, size_t n){ return __tsan_memset(d,c,n); }
int vf_memcmp(const void *a, const void *b, size_t n){ access_((u8*)a,n,0,PC); access_((u8*)b,n,0,PC); return memcmp(a,b,n); }
int vf_bcmp(const void *a, const void *b, size_t n){ return vf_memcmp(a,b,n); }
int vf_strcmp(const char *a, const char *b){ return strcmp(a,b); }
int vf_strncmp(const char *a, const char *b, size_t n){ return strncmp(a,b,n); }
void *vf_memchr(const void *a, int c, size_t n){ return (void*)memchr(a,c,n); }
/* atomic accesses synchronise */
#define AT(b,t) t __tsan_atomic##b##_load(const volatile t *a,int m){ (void)m; return *a; } void __tsan_atomic##b##_store(volatile t *a,t v,int m){ (void)m; *a=v; } \
 t __tsan_atomic##b##_exchange(volatile t *a,t v,int m){ (void)m; t o=*a; *a=v; return o; } t __tsan_atomic##b##_fetch_add(volatile t *a,t v,int m){ (void)m; t o=*a; *a=(t)(o+v); return o; } \
 t __tsan_atomic##b##_fetch_sub(volatile t *a,t v,int m){ (void)m; t o=*a; *a=(t)(o-v); return o; } t __tsan_atomic##b##_fetch_or(volatile t *a,t v,int m){ (void)m; t o=*a; *a=(t)(o|v); return o; } \
 t __tsan_atomic##b##_fetch_and(volatile t *a,t v,int m){ (void)m; t o=*a; *a=(t)(o&v); return o; } t __tsan_atomic##b##_fetch_xor(volatile t *a,t v,int m){ (void)m; t o=*a; *a=(t)(o^v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile t *a,t *e,t v,int m,int n){ (void)m; (void)n; if(*a==*e){ *a=v; return 1; } *e=*a; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile t *a,t *e,t v,int m,int n){ (void)m; (void)n; if(*a==*e){ *a=v; return 1; } *e=*a; return 0; } \
 t __tsan_atomic##b##_compare_exchange_val(volatile t *a,t e,t v,int m,int n){ (void)m; (void)n; t o=*a; if(o==e) *a=v; return o; }
AT(8,u8) AT(16,u16) AT(32,u32) AT(64,u64)
void __tsan_atomic_thread_fence(int m){ (void)m; } void __tsan_atomic_signal_fence(int m){ (void)m; }
/* ---- task programs; each has private output */
typedef struct { const prim *p; par a, b; int fl, form; void *shared; u32 seed; int cnt; } prog;
static prog G[2]; static u8 OUTB[2][PROBE_MAX*4] __attribute__((aligned(64))); static size_t outn[2]; static const char *err[2];
static void life(int id)
{
	prog *g=G+id; const prim *p=g->p; u8 *o=OUTB[id]; size_t n=0; err[id]=0;
	void *x=o_create(p,&g->a); if(!x){ err[id]="create returned null"; return; }
	if(g->form==0){ n+=o_probe(p,x,&g->a,g->fl,o); x=o_recreate(p,x,&g->b); if(!x){ err[id]="re-creation returned null"; return; } n+=o_probe(p,x,&g->b,(g->fl+1)%o_flavours(p),o+n); }
	else if(g->form==1){ opst st={0,0}; for(int i=0;i<o_nops(p);i++) if(o_legal(p,&st,i)) n+=o_op(p,x,&g->a,&st,i,o+n); }
	else if(g->form==2){ opst st={0,0}; for(int i=o_nops(p)-1;i>=0;i--) if(o_legal(p,&st,i)&&!(i&&(p->kind==K_MAC||p->kind==K_AE)&&i==o_nops(p)-1)) n+=o_op(p,x,&g->a,&st,i,o+n); if(p->kind==K_MAC||p->kind==K_AE) n+=o_op(p,x,&g->a,&st,o_nops(p)-1,o+n); }
	else n+=o_probe(p,x,&g->a,g->fl,o);
	o_destroy(p,x); outn[id]=n;
}
static void blockuse(int id)
{
	prog *g=G+id; u8 *o=OUTB[id]; unsigned B=g->p->b->bs; u8 *in=o+PROBE_MAX*2; memcpy(in,o_data+(g->seed%2000),B); size_t n=0;
	for(int i=0;i<g->cnt;i++){ if((g->fl>>i)&1) kripto_block_decrypt(g->shared,in,o+n); else kripto_block_encrypt(g->shared,in,o+n); memcpy(in,o+n,B); n+=B; vf_trans(1); }
	outn[id]=n; err[id]=0;
}
static void extra(int id)
{
	prog *g=G+id; u8 *o=OUTB[id]; size_t n=0; u8 buf[300]; const prim *p=g->p; err[id]=0; vf_trans(1);
	switch(g->form)
	{
	case 0: if(kripto_pbkdf2(p->desc,0,2,o_data,8,o_data+100,9,o,p->maxtag+3)) err[id]="key derivation failed"; n=p->maxtag+3; break;
	case 1: if(kripto_scrypt(p->desc,0,4,1,2,o_data,8,o_data+100,9,o,40)) err[id]="key derivation failed"; n=40; break;
	case 2: if(kripto_mac_all(p->desc,0,o_data,8,o_data+50,70,o,p->xtag)) err[id]="one call failed"; n=p->xtag; break;
	case 3: if(kripto_hash_all(p->desc,0,0,0,o_data+50,170,o,p->xtag)) err[id]="one call failed"; n=p->xtag; break;
	case 4: { void *d=o_construct(p); if(!d){ err[id]="constructor returned null"; return; } const prim *s=p; prim t=*s; t.desc=d; par a; par_list(s,&a,1); void *x=o_create(&t,&a); if(!x){ err[id]="create returned null"; return; } n=o_probe(&t,x,&a,0,o); o_destroy(&t,x); vf_free(d); break; }
	case 5: memcpy(buf,o_data,77); n=kripto_pkcs7_add(buf,77,sizeof buf,16); memcpy(o,buf,n); o[n]=(u8)kripto_pkcs7_rem(buf,n); n++; o[n]=kripto_memory_equals(buf,o,77); n++; kripto_memory_wipe(buf,sizeof buf); break;
	case 6: { opst st={0,0}; u8 t[256]; par a=g->a; void *x=o_create(p,&a); if(!x){ err[id]="create returned null"; return; } o_op(p,x,&a,&st,0,o); memcpy(t,o_data,a.tl); o[0]=p->kind==K_MAC?kripto_mac_verify(x,t,a.tl)!=0:kripto_ae_verify(x,t,a.tl)!=0; n=1; o_destroy(p,x); break; }
	}
	outn[id]=n;
}
/* alone; leaves results in OUTB[id] and the number of points in xacc */
static long xent;
static void alone(int id, void (*fn)(int), int check)
{
	collect=1; nul=0; nread=nwrite=0; firstw=0; rh=0; heap0=vf_nblocks; npriv=0; privlo[npriv]=OUTB[id]; privhi[npriv++]=OUTB[id]+sizeof OUTB[id];
	spawn(id,fn); resume(id); collect=0; if(!T_[id].done) vf_fail("the task did not end");
	if(err[id]) vf_fail("%s",err[id]);
	xacc[id]=T_[id].acc; xent=T_[id].ent;
	while(nul){ nul--; memcpy(ul[nul].p,ul[nul].old,ul[nul].n); } /* back to the initial shared memory */
	if(check)
	{
		vf_validated(1); vf_state2((u64)nread,&rh,8); if(nread) vf_nontrivial(1);
		if(nwrite) vf_fail("conflicting accesses: two threads in this call both write shared memory (first: %u bytes at %p, %ld writes in all)",firstn,(void*)firstw,nwrite);
	}
}
static u8 EXP[2][PROBE_MAX*4]; static size_t expn[2];
static void expect(int id){ memcpy(EXP[id],OUTB[id],outn[id]); expn[id]=outn[id]; }
static void compare(const char *w){ for(int i=0;i<2;i++){ if(err[i]) vf_fail("%s: %s",w,err[i]); if(!T_[i].done) vf_fail("%s: a task did not end",w); if(outn[i]!=expn[i]) vf_fail("%s: %zu result bytes",w,outn[i]); vf_eq(OUTB[i],EXP[i],outn[i],w); } }
/* schedule: task 0 to its point a, task 1 to its point b (or its end), task 0 to the end, task 1 to the end */
static void schedule(void (*f)(int), void (*h)(int), long a, long b){ sw1=a; sw2=b; spawn(0,f); spawn(1,h); resume(0); resume(1); resume(0); resume(1); sw1=sw2=-1; }
static void u_prim(void *arg)
{
	const prim *p=arg; par q[8]; int nq=par_list(p,q,8), full=vf_thorough; tls_find();
	for(int i=0;i<nq;i++) for(int f=0;f<o_flavours(p);f++) for(int form=0;form<3;form++) for(int j=0;j<(form?1:nq);j++) if(vf_case("alone: set %ld flavour %ld form %ld then set %ld",(long)i,(long)f,(long)form,(long)j))
	{ G[0]=(prog){p,q[i],q[j],f,form,0,0,0}; if(form&&f) continue; alone(0,life,1); }
	for(int form=0;form<7;form++)
	{
		if(form<2 && !(p->kind==K_MAC&&p->maxtag)) continue; if(form==2&&p->kind!=K_MAC) continue; if(form==3&&p->kind!=K_HASH) continue; if(form==5&&strcmp(p->name,"hash/md5")) continue; if(form==6&&p->kind!=K_MAC&&p->kind!=K_AE) continue;
		if(form==4&&(p->kind==K_HASH||(p->kind==K_BLOCK&&!p->b->mk)||p->mode==P_KECMAC||p->mode==P_SKMAC||p->mode==P_CHACHA||p->mode==P_SALSA||p->mode==P_RC4||p->mode==P_KECS||p->mode==P_SKS)) continue;
		if(vf_case("alone: other entry point %ld",(long)form)){ G[0]=(prog){p,q[0],q[0],0,form,0,0,0}; alone(0,extra,1); }
	}
	/* two lives under every schedule with one switch inside the first, then back */
	for(int i=0;i<(full?nq:1);i++) for(int f=0;f<o_flavours(p);f++)
	{
		G[0]=(prog){p,q[i],q[i],f,full?0:3,0,0,0}; G[0].b=q[(i+2)%nq]; G[1]=(prog){p,q[(i+1)%nq],q[i],f,3,0,0,0};
		vf_heap_reset(); alone(0,life,0); expect(0); long n0=xacc[0], e0=xent; vf_heap_reset(); alone(1,life,0); expect(1); (void)n0;
		/* number of points: accesses outside the stack */
		sched_kind=0; vf_heap_reset(); schedule(life,life,-1,-1); long m0=T_[0].acc; if(m0>(full?60000:1200)){ sched_kind=1; m0=e0; }
		if(m0>(full?200000:1200)) m0=full?200000:1200;
		for(long s=0;s<m0;s+=64) if(vf_case("two objects: set %ld flavour %ld, switch at points from %ld (kind %ld)",(long)i,(long)f,s,(long)sched_kind))
			for(long k=s;k<s+64&&k<m0;k++){ vf_heap_reset(); schedule(life,life,k,-1); compare("two objects, interleaved"); vf_nontrivial(1); vf_state2((u64)k,OUTB[0],8); }
	}
	/* one block cipher object used by both */
	if(p->kind==K_BLOCK)
	{
		for(int i=0;i<nq;i++) for(int f=0;f<8;f++) for(int s=0;s<(full?40:4);s++) if(vf_case("shared object, set %ld, directions %ld, data %ld: alone",(long)i,(long)f,(long)s))
		{ void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); G[0]=(prog){p,q[i],q[i],f,0,o,(u32)s*37,3}; alone(0,blockuse,1); o_destroy(p,o); }
		for(int i=0;i<(full?nq:2);i++) for(int f=0;f<4;f++)
		{
			vf_heap_reset(); void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); G[0]=(prog){p,q[i],q[i],f&1,0,o,11,1}; G[1]=(prog){p,q[i],q[i],f>>1,0,o,99,1};
			alone(0,blockuse,0); expect(0); alone(1,blockuse,0); expect(1);
			sched_kind=0; schedule(blockuse,blockuse,-1,-1); long n=T_[0].acc, m=T_[1].acc; int two = (double)n*(double)m < (full?4e6:40000);
			for(long a=0;a<n;a++) if(vf_case("shared object, set %ld, directions %ld: first switch at %ld, second anywhere (%ld)",(long)i,(long)f,a,(long)two))
			{
				vf_heap_reset(); o=o_create(p,q+i); G[0].shared=G[1].shared=o;
				for(long b=-1;b<(two?m:0);b++){ schedule(blockuse,blockuse,a,b); compare("shared block cipher object, interleaved"); vf_nontrivial(1); vf_state2((u64)a*65536+(u64)(b+1),OUTB[0],8); }
				vf_alive();
			}
		}
	}
}
static void reg(void){ vf_fill=0xA5; prims_init(); for(int i=0;i<nprims;i++) vf_unit(u_prim,prims+i,"threads/%s",prims[i].name); }
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
