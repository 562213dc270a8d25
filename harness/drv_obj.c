/* Properties of every kind of object: X01 re-creation, X02 independence, X05 allocation failure,
   X06 wiping, X08 determinism, X13 metadata and defaults. */
#include "objs.h"
#include <limits.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/mac/hmac.h>
typedef struct { const prim *p, *q; int fam, a; } cfg;
static u8 out[PROBE_MAX], exp_[16][3][PROBE_MAX]; static size_t explen[16][3];
static const char *hist(const prim *p, const int *h, int n){ static char b[200]; b[0]=0; for(int i=0;i<n;i++){ strcat(b,o_opname(p,h[i])); strcat(b," "); } return b; }

/* ------------------------------------------------------------ X01 */
static void fresh(const prim *p, const par *q, int nq)
{
	for(int j=0;j<nq;j++) for(int f=0;f<o_flavours(p);f++)
	{
		vf_heap_reset(); void *o=o_create(p,q+j); if(!o) vf_fail("create returned null");
		memset(exp_[j][f],0,PROBE_MAX); explen[j][f]=o_probe(p,o,q+j,f,exp_[j][f]); o_destroy(p,o);
	}
}
/* enumerates legal operation sequences up to a depth: index -> sequence; returns length or -1 if illegal */
static int seq_of(const prim *p, const par *q, long x, int d, int *h)
{
	opst st={0,0}; int n=o_nops(p);
	for(int i=0;i<d;i++){ h[i]=(int)(x%n); x/=n; if(!o_legal(p,&st,h[i])) return -1;
		/* follow the phase without running */
		if(p->kind==K_HASH && h[i]>=3){ st.used += h[i]==3? (q->tl-(unsigned)st.used>5?5:(int)q->tl-st.used):(int)q->tl-st.used; st.phase=(unsigned)st.used>=q->tl?2:1; }
		if((p->kind==K_MAC&&h[i]==2)||(p->kind==K_AE&&h[i]==4)) st.phase=2; }
	return d;
}
static void runseq(const prim *p, void *o, const par *q, const int *h, int d){ opst st={0,0}; u8 t[2048]; for(int i=0;i<d;i++){ o_op(p,o,q,&st,h[i],t); u64 x=vf_heap_hash(); vf_state(&x,8); } }
static void u_re(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8), h[8], n=o_nops(p); int j0=c->a, dep=vf_thorough?3:2;
	fresh(p,q,nq);
	/* from every parameter set, after every history, to set j0 */
	for(int i=0;i<nq;i++) for(int d=0;d<=dep;d++)
	{
		long tot=1; for(int k=0;k<d;k++) tot*=n;
		for(long x=0;x<tot;x++) if(seq_of(p,q+i,x,d,h)>=0) for(int f=0;f<o_flavours(p);f++) if(vf_case("set %ld, %ld operations #%ld, re-create with set %ld, flavour %ld",(long)i,(long)d,x,(long)j0,(long)f))
		{
			void *o=o_create(p,q+i); if(!o) vf_fail("create returned null");
			vf_log("history: %s",hist(p,h,d)); runseq(p,o,q+i,h,d);
			o=o_recreate(p,o,q+j0); if(!o) vf_fail("re-creation returned null");
			memset(out,0,sizeof out); size_t m=o_probe(p,o,q+j0,f,out); o_destroy(p,o);
			if(m!=explen[j0][f]) vf_fail("re-created object gives %zu bytes",m);
			vf_eq(out,exp_[j0][f],m,"re-created object versus fresh object"); vf_nontrivial(1);
			if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
		}
	}
	/* chains of three parameter sets, used in between */
	for(int i=0;i<nq;i++) for(int k=0;k<nq;k++) for(int u=0;u<4;u++) for(int f=0;f<o_flavours(p);f++) if(vf_case("sets %ld,%ld,%ld use=%ld flavour %ld",(long)i,(long)k,(long)j0,(long)u,(long)f))
	{
		static u8 t[PROBE_MAX]; void *o=o_create(p,q+i); if(!o) vf_fail("create returned null");
		if(u&1) o_probe(p,o,q+i,f,t);
		o=o_recreate(p,o,q+k); if(!o) vf_fail("re-creation returned null");
		if(u&2) o_probe(p,o,q+k,f,t);
		o=o_recreate(p,o,q+j0); if(!o) vf_fail("re-creation returned null");
		memset(out,0,sizeof out); size_t m=o_probe(p,o,q+j0,f,out); o_destroy(p,o);
		vf_eq(out,exp_[j0][f],m,"twice re-created object versus fresh object");
		if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
	}
	/* every short continuation after re-creation */
	for(int i=0;i<nq;i++) for(int d=1;d<=2;d++)
	{
		long tot=d==1?n:(long)n*n;
		for(long x=0;x<tot;x++) if(seq_of(p,q+j0,x,d,h)>=0) if(vf_case("set %ld used, re-create with set %ld, continue %ld #%ld",(long)i,(long)j0,(long)d,x))
		{
			static u8 t[PROBE_MAX], y[PROBE_MAX]; size_t m=0,z=0; opst s={0,0};
			void *e=o_create(p,q+j0); if(!e) vf_fail("create returned null");
			for(int k=0;k<d;k++) m+=o_op(p,e,q+j0,&s,h[k],t+m);
			o_destroy(p,e);
			void *o=o_create(p,q+i); if(!o) vf_fail("create returned null");
			o_probe(p,o,q+i,0,out); o=o_recreate(p,o,q+j0); if(!o) vf_fail("re-creation returned null");
			s.phase=s.used=0; for(int k=0;k<d;k++) z+=o_op(p,o,q+j0,&s,h[k],y+z);
			o_destroy(p,o); vf_log("continuation: %s",hist(p,h,d));
			vf_eq(y,t,m,"continuation of a re-created object versus a fresh one");
		}
	}
}
/* every pair of key (salt), IV and tag lengths */
static void u_re2(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned ks[40],vs[12],ts[12]; int nk=0,nv=0,nt=0;
	unsigned X=p->xkey; for(unsigned k=p->minkey;k<=X;k++){ int z=X<=16||k<=3||k+3>X||k%(X>64?16:4)<=1; if(z&&nk<40) ks[nk++]=k; }
	if(nk==40&&ks[39]!=X) ks[39]=X;
	for(unsigned k=0;k<=p->xiv;k++){ int z=k<=1||k+2>p->xiv||(p->xiv<=24?k%4==0:k%40==0); if(z&&nv<12) vs[nv++]=k; }
	for(unsigned k=1;k<=p->xtag;k++){ int z=k<=1||k+2>p->xtag||k==p->xtag/2||k==p->xtag/4; if(z&&nt<12) ts[nt++]=k; }
	if(!nv) vs[nv++]=0; if(!nt) ts[nt++]=0;
	for(int b=c->a;b<nk*nv*nt;b+=4)
	{
		par to={0,ks[b%nk],vs[b/nk%nv],ts[b/nk/nv],2,2}; if(p->mode==P_EAX2 && to.kl<2) continue;
		vf_heap_reset(); void *o=o_create(p,&to); if(!o) vf_fail("create returned null"); static u8 e[PROBE_MAX]; size_t m=o_probe(p,o,&to,0,e); o_destroy(p,o);
		for(int z=0;z<nk*nv*nt;z++)
		{
			int dk=(z%nk)!=(b%nk), dv=(z/nk%nv)!=(b/nk%nv), dt=(z/nk/nv)!=(b/nk/nv); if(!vf_thorough && dk+dv+dt>1 && z!=0 && z!=nk*nv*nt-1) continue;
			par fr={0,ks[z%nk],vs[z/nk%nv],ts[z/nk/nv],1,1}; if(p->mode==P_EAX2 && fr.kl<2) continue;
			if(!vf_case("key %ld to %ld, iv %ld to %ld, tag %ld to %ld",(long)fr.kl,(long)to.kl,(long)fr.ivl,(long)to.ivl,(long)fr.tl,(long)to.tl)) continue;
			o=o_create(p,&fr); if(!o) vf_fail("create returned null"); if(z&1) o_probe(p,o,&fr,0,out);
			o=o_recreate(p,o,&to); if(!o) vf_fail("re-creation returned null"); o_probe(p,o,&to,0,out); o_destroy(p,o);
			vf_eq(out,e,m,"re-created object versus fresh object");
		}
	}
	/* every pair of round counts */
	unsigned rr[8]; int nr=(int)prim_rounds(p,rr); rr[nr++]=0;
	if(c->a==0) for(int i=0;i<nr;i++) for(int j=0;j<nr;j++) for(int k=0;k<2;k++) if(vf_case("rounds %ld to %ld, key %ld",(long)rr[i],(long)rr[j],(long)(k?p->xkey:p->xkey/2+p->minkey)))
	{
		par fr={rr[i],p->xkey,p->xiv,p->xtag,1,1}, to={rr[j],k?p->xkey:p->xkey/2+p->minkey,p->xiv,p->xtag,2,2}; if(to.kl>p->xkey) to.kl=p->xkey; static u8 e[PROBE_MAX];
		void *o=o_create(p,&to); if(!o) vf_fail("create returned null"); size_t m=o_probe(p,o,&to,0,e); o_destroy(p,o);
		o=o_create(p,&fr); if(!o) vf_fail("create returned null"); o_probe(p,o,&fr,0,out);
		o=o_recreate(p,o,&to); if(!o) vf_fail("re-creation returned null"); o_probe(p,o,&to,0,out); o_destroy(p,o);
		vf_eq(out,e,m,"re-created object versus fresh object");
	}
}
/* ------------------------------------------------------------ X02 */
/* one object's life: create, two or three operations, destroy; steps are interleaved */
typedef struct { const prim *p; par q; void *o; opst st; u8 res[PROBE_MAX]; size_t n; int seq[6], len, at; } life;
static void step(life *l)
{
	int i=l->at++;
	if(i==0){ l->o=o_create(l->p,&l->q); if(!l->o) vf_fail("create returned null"); l->st.phase=l->st.used=0; l->n=0; return; }
	if(i==l->len+1){ o_destroy(l->p,l->o); return; }
	if(l->seq[i-1]==99){ l->o=o_recreate(l->p,l->o,&l->q); if(!l->o) vf_fail("re-creation returned null"); l->st.phase=l->st.used=0; return; }
	l->n+=o_op(l->p,l->o,&l->q,&l->st,l->seq[i-1],l->res+l->n); u64 x=vf_heap_hash(); vf_state(&x,8);
}
static void plan(life *l, const prim *p, const par *q, int variant)
{
	memset(l,0,sizeof *l); l->p=p; l->q=*q;
	static const int H[2][4]={{0,1,3,4},{2,4,99,4}},M[2][4]={{0,1,2,-1},{1,2,99,2}},S[2][4]={{0,1,1,-1},{3,2,99,1}},B[2][4]={{0,1,0,-1},{1,0,99,1}},A[2][4]={{0,2,1,4},{2,4,99,4}};
	const int *s; switch(p->kind){ case K_HASH: s=H[variant]; break; case K_MAC: s=M[variant]; break; case K_STREAM: s=S[variant]; break; case K_BLOCK: s=B[variant]; break; default: s=A[variant]; }
	for(int i=0;i<4;i++) if(s[i]>=0) l->seq[l->len++]=s[i];
}
static void alone(const life *l, u8 *r, size_t *n){ static life x; x=*l; vf_heap_reset(); x.at=0; for(int i=0;i<x.len+2;i++) step(&x); memcpy(r,x.res,x.n); *n=x.n; }
static void interleave(life *a, life *b, const u8 *ra, size_t na, const u8 *rb, size_t nb, u32 mask, int total)
{
	a->at=b->at=0;
	for(int i=0;i<total;i++) step((mask>>i)&1?b:a);
	if(a->n!=na||b->n!=nb) vf_fail("result lengths differ");
	vf_eq(a->res,ra,na,"first object under interleaving versus alone"); vf_eq(b->res,rb,nb,"second object under interleaving versus alone"); vf_nontrivial(1);
}
static int bits(u32 x){ int n=0; while(x){ n+=x&1; x>>=1; } return n; }
static life A,Bo; static u8 RA[PROBE_MAX],RB[PROBE_MAX];
static void u_ind(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8); size_t na,nb;
	if(c->fam==0) /* two objects of one kind: every interleaving of two whole lives */
	{
		for(int v=0;v<2;v++) for(int w=0;w<2;w++) for(int i=0;i<(vf_thorough?nq:2);i++) for(int j=0;j<(vf_thorough?nq:3);j++)
		{
			plan(&A,p,q+i,v); plan(&Bo,p,q+(j+1)%nq,w); alone(&A,RA,&na); alone(&Bo,RB,&nb);
			int ta=A.len+2,tb=Bo.len+2,T=ta+tb;
			for(u32 m=0;m<(1u<<T);m++) if(bits(m)==tb && vf_case("sets %ld,%ld lives %ld,%ld schedule %ld",(long)i,(long)((j+1)%nq),(long)v,(long)w,(long)m)) interleave(&A,&Bo,RA,na,RB,nb,m,T);
		}
		return;
	}
	/* with every other primitive: three schedules */
	for(int k=c->a;k<nprims;k+=1)
	{
		const prim *o=prims+k; if(o==p) continue;
		par q2[8]; par_list(o,q2,8);
		plan(&A,p,q,0); plan(&Bo,o,q2,0);
		int ta=A.len+2,tb=Bo.len+2,T=ta+tb; u32 ms[3]; int have=0;
		ms[0]=0; { int x=0,y=0; for(int i=0;i<T;i++){ if((i&1)&&y<tb){ ms[0]|=1u<<i; y++; } else if(x<ta) x++; else { ms[0]|=1u<<i; y++; } } }
		ms[1]=((1u<<tb)-1)<<2;          /* b lives inside a */
		ms[2]=(1u<<(T-1))|((1u<<(tb-1))-1); /* a lives inside b */
		for(int s=0;s<3;s++) if(vf_case("with primitive %ld schedule %ld",(long)k,(long)s))
		{
			if(!have){ alone(&A,RA,&na); alone(&Bo,RB,&nb); vf_heap_reset(); have=1; vf_log("other: %s",o->name); }
			interleave(&A,&Bo,RA,na,RB,nb,ms[s],T);
		}
	}
}
/* verification: the verdict on (key, message, tag) is the same after every other verification or tag computation */
static void *vstart(const prim *p, const par *q, int key, int msg)
{
	par x=*q; x.ks=x.is=1+key; void *o=o_create(p,&x); if(!o) vf_fail("create returned null"); static u8 t[256];
	vf_trans(2);
	if(p->kind==K_MAC) kripto_mac_input(o,o_data+40*msg,9+(unsigned)msg);
	else { kripto_ae_header(o,o_data+30*msg,3); kripto_ae_encrypt(o,o_data+60*msg,t,p->unit*2); }
	return o;
}
static int vend(const prim *p, void *o, const u8 *tag, unsigned tl){ vf_trans(1); int r=p->kind==K_MAC?kripto_mac_verify(o,tag,tl):kripto_ae_verify(o,tag,tl); return r; }
static void vtag(const prim *p, void *o, u8 *tag, unsigned tl){ vf_trans(1); if(p->kind==K_MAC) kripto_mac_tag(o,tag,tl); else kripto_ae_tag(o,tag,tl); }
static void u_ver(void *a)
{
	cfg *c=a; const prim *p=c->p; par q={0,p->xkey<16?p->xkey:16,p->xiv,p->xtag,1,1}; if(p->xkey>=32&&p->mode!=P_EAX) q.kl=32;
	static u8 T[5][256]; unsigned tls[2]={p->xtag,p->xtag>8?p->xtag/2:p->xtag};
	for(int L=0;L<2;L++)
	{
		unsigned tl=tls[L]; if(L&&tl==tls[0]) break; q.tl=tl;
		for(int k=0;k<2;k++) for(int m=0;m<2;m++){ void *o=vstart(p,&q,k,m); memset(T[k*2+m],0,256); vtag(p,o,T[k*2+m],tl); o_destroy(p,o); }
		memcpy(T[4],T[0],256); T[4][tl-1]^=1;
		if(tl<4) continue;
		/* an action: on a fresh object (key, message): compute the tag, or verify tag 0..4; 4 x 6 actions */
		int d=vf_thorough?3:2; long tot=1; for(int i=0;i<d;i++) tot*=24;
		for(int nest=0;nest<2;nest++) for(long s=0;s<tot;s++) if(vf_case("tag length %ld actions #%ld nested=%ld",(long)tl,s,(long)nest))
		{
			void *o[3]; int act[3]; long y=s; for(int i=0;i<d;i++){ act[i]=(int)(y%24); y/=24; }
			if(nest) for(int i=0;i<d;i++) o[i]=vstart(p,&q,act[i]/12,act[i]/6%2);
			for(int i=0;i<d;i++)
			{
				int w=act[i]/6, t=act[i]%6; u8 g[256]={0};
				if(!nest) o[i]=vstart(p,&q,w/2,w%2);
				vf_log("  key %d message %d %s %d",w/2,w%2,t==5?"compute tag":"verify tag",t);
				if(t==5){ vtag(p,o[i],g,tl); vf_eq(g,T[w],tl,"tag after other verifications"); }
				else { int e=!memcmp(T[t],T[w],tl), r=vend(p,o[i],T[t],tl); vf_validated(1); if(!!r!=e) vf_fail("verification of tag %d for key %d message %d said %d",t,w/2,w%2,r); }
				if(!nest) o_destroy(p,o[i]);
			}
			if(nest) for(int i=0;i<d;i++) o_destroy(p,o[i]);
			vf_nontrivial(1);
		}
	}
}
/* encryption and decryption leave the cipher unchanged */
static void u_const(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8); unsigned B=p->b->bs; int dep=vf_thorough?7:5;
	for(int i=0;i<nq;i++)
	{
		u8 e[4][128],t[128]; vf_heap_reset();
		for(int k=0;k<4;k++){ void *o=o_create(p,q+i); if(k&1) kripto_block_decrypt(o,o_data+50*k,e[k]); else kripto_block_encrypt(o,o_data+50*k,e[k]); o_destroy(p,o); }
		for(int d=1;d<=dep;d++) for(long x=0;x<1L<<(2*d);x++) if(d==dep||x<0) if(vf_case("set %ld calls %ld #%ld",(long)i,(long)d,x))
		{
			void *o=o_create(p,q+i); long y=x; u64 h0=vf_heap_hash();
			for(int k=0;k<d;k++){ int z=(int)(y&3); y>>=2; if(z&1) kripto_block_decrypt(o,o_data+50*z,t); else kripto_block_encrypt(o,o_data+50*z,t); vf_trans(1); vf_eq(t,e[z],B,"repeated use of a cipher object"); }
			u64 h=vf_heap_hash(); vf_state(&h,8); (void)h0; o_destroy(p,o);
		}
	}
}
/* ------------------------------------------------------------ X05 */
static u8 kbuf[KMAX],vbuf[KMAX];
static void after_failure(const prim *p, const par *q, int live0, const char *what)
{
	vf_fail_at=vf_fail_from=0;
	if(vf_heap_live()!=live0) vf_fail("%s: %d heap blocks leaked",what,vf_heap_live()-live0);
	vf_heap_check();
	void *o=o_create(p,q); if(!o) vf_fail("%s: a later creation with enough memory failed",what);
	memset(out,0,sizeof out); size_t m=o_probe(p,o,q,0,out); o_destroy(p,o); vf_eq(out,exp_[0][0],m,"later object after a failure");
	vf_nontrivial(1);
}
static void u_oom(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8); long n;
	fresh(p,q,1);
	for(int i=0;i<nq;i++)
	{
		vf_heap_reset(); void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); n=vf_alloc_count;
		for(int from=0;from<2;from++) for(long k=1;k<=n;k++) if(vf_case("create set %ld: allocation %ld fails (all later too: %ld)",(long)i,k,(long)from))
		{
			if(from) vf_fail_from=k; else vf_fail_at=k;
			o=o_create(p,q+i); vf_validated(1); if(o) vf_fail("create succeeded although allocation %ld failed",k);
			after_failure(p,q,0,"failed create");
		}
		/* re-creation from every other set, unused and used */
		for(int j=0;j<nq;j++) for(int u=0;u<2;u++)
		{
			long n0; vf_heap_reset(); o=o_create(p,q+i); if(!o) vf_fail("create returned null"); if(u) o_probe(p,o,q+i,0,out); n0=vf_alloc_count;
			o=o_recreate(p,o,q+j); if(!o) vf_fail("re-creation returned null"); n=vf_alloc_count-n0;
			for(int from=0;from<2;from++) for(long k=1;k<=n;k++) if(vf_case("re-create set %ld (used %ld) with set %ld: allocation %ld fails (all later: %ld)",(long)i,(long)u,(long)j,k,(long)from))
			{
				o=o_create(p,q+i); if(!o) vf_fail("create returned null"); if(u) o_probe(p,o,q+i,0,out);
				if(from) vf_fail_from=vf_alloc_count+k; else vf_fail_at=vf_alloc_count+k;
				o=o_recreate(p,o,q+j); vf_validated(1); if(o) vf_fail("re-creation succeeded although allocation %ld failed",k);
				after_failure(p,q,0,"failed re-creation");
			}
		}
		/* operations that return nothing must not depend on memory */
		for(int f=0;f<o_flavours(p);f++) if(vf_case("use of set %ld without memory, flavour %ld",(long)i,(long)f))
		{
			o=o_create(p,q+i); if(!o) vf_fail("create returned null"); static u8 e[PROBE_MAX]; size_t m=o_probe(p,o,q+i,f,e); o_destroy(p,o);
			o=o_create(p,q+i); vf_fail_from=vf_alloc_count+1; o_probe(p,o,q+i,f,out); o_destroy(p,o); vf_fail_from=0;
			vf_eq(out,e,m,"results without free memory"); if(vf_heap_live()) vf_fail("leak");
		}
		/* one-shot calls */
		if(p->kind==K_HASH||p->kind==K_MAC)
		{
			par_key(q+i,kbuf); vf_heap_reset();
#define ONE (p->kind==K_HASH?kripto_hash_all(p->desc,q[i].rounds,q[i].kl?kbuf:0,q[i].kl,o_data,300,out,q[i].tl):kripto_mac_all(p->desc,q[i].rounds,kbuf,q[i].kl,o_data,300,out,q[i].tl))
			if(ONE) vf_fail("one-shot call failed"); n=vf_alloc_count;
			for(int from=0;from<2;from++) for(long k=1;k<=n;k++) if(vf_case("one-shot set %ld: allocation %ld fails (all later: %ld)",(long)i,k,(long)from))
			{
				if(from) vf_fail_from=k; else vf_fail_at=k;
				vf_validated(1); if(!ONE) vf_fail("one-shot call succeeded although allocation %ld failed",k);
				after_failure(p,q,0,"failed one-shot call");
			}
		}
	}
}
static const kripto_desc_mac *kdfmac(const prim *p){ return p->desc; }
static int kdf(const prim *p, int which, const par *q, u8 *o, size_t n)
{
	par_key(q,kbuf); par_iv(q,vbuf); vf_trans(1);
	if(which==0) return kripto_pbkdf2(kdfmac(p),q->rounds,3,kbuf,q->kl,vbuf,q->ivl,o,n);
	return kripto_scrypt(kdfmac(p),q->rounds,4,2,2,kbuf,q->kl,vbuf,q->ivl,o,n);
}
static par kpar(const prim *p, int i){ par q={0,i==0?p->xkey:i==1?1:p->xkey/2+1,i==0?13:i==1?0:40,0,1+i,1+i}; return q; }
static void u_oomk(void *a)
{
	cfg *c=a; const prim *p=c->p; u8 e[300],o[300]; 
	for(int i=0;i<3;i++)
	{
		par q=kpar(p,i); size_t L=i==1?p->xtag*2+5:i==0?p->xtag:p->xtag/2+1; if(L>250) L=250;
		vf_heap_reset(); if(kdf(p,c->fam,&q,e,L)) vf_fail("key derivation failed"); long n=vf_alloc_count; if(vf_heap_live()) vf_fail("leak");
		for(int from=0;from<2;from++) for(long k=1;k<=n;k++) if(vf_case("set %ld: allocation %ld fails (all later: %ld)",(long)i,k,(long)from))
		{
			if(from) vf_fail_from=k; else vf_fail_at=k;
			vf_validated(1); if(!kdf(p,c->fam,&q,o,L)) vf_fail("key derivation succeeded although allocation %ld failed",k);
			vf_fail_at=vf_fail_from=0; if(vf_heap_live()) vf_fail("%d heap blocks leaked",vf_heap_live());
			if(kdf(p,c->fam,&q,o,L)) vf_fail("later key derivation with enough memory failed"); vf_eq(o,e,L,"later key derivation"); vf_nontrivial(1);
		}
	}
}
/* constructors of composed descriptors */
static void u_oomc(void *a)
{
	cfg *c=a; (void)c;
	for(int i=0;i<nprims;i++) if(vf_case("constructor of primitive %ld without memory",(long)i))
	{
		const prim *p=prims+i; void *d=(void*)1; vf_log("%s",p->name); vf_fail_from=1; vf_trans(1);
		extern void *o_construct(const prim*); d=o_construct(p);
		vf_validated(1); if(d && vf_alloc_count) vf_fail("%s: constructor succeeded without memory",p->name);
		if(vf_heap_live()) vf_fail("leak"); vf_nontrivial(1);
	}
}
/* ------------------------------------------------------------ X06 */
/* contents of every released block must not depend on keys, IVs or data */
#define MAXF 600
static u64 fh[4][MAXF]; static size_t fs[4][MAXF]; static int fn[4]; static int curset; static u8 fcont[4][1<<17]; static size_t fpos[4];
static size_t foff[4][MAXF];
static void on_free(u8 *p, size_t n, int idx)
{
	(void)idx; int i=fn[curset]; if(i>=MAXF) return;
	fh[curset][i]=vf_hash(1,p,n); fs[curset][i]=n; foff[curset][i]=fpos[curset];
	if(fpos[curset]+n<=sizeof fcont[0]){ memcpy(fcont[curset]+fpos[curset],p,n); fpos[curset]+=n; }
	fn[curset]++;
}
static void secret(int s){ vf_fillpat(o_data,sizeof o_data,4242u+(unsigned)s*77u); }
static void wipe_begin(int s){ vf_heap_reset(); curset=s; fn[s]=0; fpos[s]=0; vf_free_hook=on_free; secret(s); }
static void wipe_end(int ns)
{
	vf_free_hook=0; secret(0);
	for(int s=1;s<ns;s++)
	{
		vf_validated(1);
		if(fn[s]!=fn[0]) vf_fail("number of released blocks depends on secret data (%d, %d)",fn[0],fn[s]);
		for(int i=0;i<fn[0];i++) if(fs[s][i]!=fs[0][i]||fh[s][i]!=fh[0][i])
		{
			size_t o=0; if(foff[0][i]==foff[s][i]) while(o<fs[0][i] && fcont[0][foff[0][i]+o]==fcont[s][foff[s][i]+o]) o++;
			vf_fail("released block %d of %zu bytes still depends on secret data at byte %zu",i,fs[0][i],o);
		}
	}
	if(fn[0]) vf_nontrivial(1);
}
static int legal1(const prim *p, int op){ opst st={0,0}; return o_legal(p,&st,op); }
static void u_wipe(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8),h[8],n=o_nops(p),NS=3,dep=vf_thorough?3:2;
	for(int i=0;i<nq;i++) for(int d=0;d<=dep;d++)
	{
		long tot=1; for(int k=0;k<d;k++) tot*=n;
		for(long x=0;x<tot;x++) if(seq_of(p,q+i,x,d,h)>=0)
		{
			for(int j=-1;j<nq;j++) if((j<0||d<2||vf_thorough) && vf_case("set %ld, %ld operations #%ld, then re-create with set %ld (-1: none), destroy",(long)i,(long)d,x,(long)j))
			{
				for(int s=0;s<NS;s++)
				{
					wipe_begin(s); par f=q[i]; f.ks+=100*s; f.is+=100*s;
					void *o=o_create(p,&f); if(!o) vf_fail("create returned null"); runseq(p,o,&f,h,d);
					if(j>=0){ par g=q[j]; g.ks+=100*s+50; g.is+=100*s+50; o=o_recreate(p,o,&g); if(!o) vf_fail("re-creation returned null"); if(d==1) o_probe(p,o,&g,0,out); }
					o_destroy(p,o);
				}
				wipe_end(NS);
			}
		}
	}
	/* one-shot calls */
	if(p->kind==K_HASH||p->kind==K_MAC) for(int i=0;i<nq;i++) for(int L=0;L<3;L++) if(vf_case("one-shot set %ld length %ld",(long)i,(long)(L*150)))
	{
		for(int s=0;s<NS;s++){ wipe_begin(s); par f=q[i]; f.ks+=100*s; par_key(&f,kbuf); q[i].kl=f.kl; size_t m=(size_t)L*150;
			int r=p->kind==K_HASH?kripto_hash_all(p->desc,f.rounds,f.kl?kbuf:0,f.kl,o_data,m,out,f.tl):kripto_mac_all(p->desc,f.rounds,kbuf,f.kl,o_data,(unsigned)m,out,f.tl); if(r) vf_fail("one-shot call failed"); }
		wipe_end(NS);
	}
	/* failing calls */
	for(int i=0;i<nq;i++)
	{
		vf_heap_reset(); void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); long m=vf_alloc_count;
		for(long k=1;k<=m;k++) if(vf_case("create set %ld with failing allocation %ld",(long)i,k))
		{
			for(int s=0;s<NS;s++){ wipe_begin(s); par f=q[i]; f.ks+=100*s; f.is+=100*s; vf_fail_at=k; o=o_create(p,&f); if(o) o_destroy(p,o); }
			wipe_end(NS);
		}
		for(int j=0;j<nq;j++)
		{
			vf_heap_reset(); o=o_create(p,q+i); if(!o) vf_fail("create returned null"); long n0=vf_alloc_count; o=o_recreate(p,o,q+j); if(!o) vf_fail("re-creation returned null"); long n1=vf_alloc_count-n0;
			/* after every way of using the object before: what is left in it must go too */
			for(long k=1;k<=n1;k++) for(int fl=0;fl<=o_flavours(p)+n;fl++) if((fl<=o_flavours(p)||legal1(p,fl-o_flavours(p)-1)) && vf_case("re-create set %ld with set %ld, failing allocation %ld, after use %ld",(long)i,(long)j,k,(long)fl))
			{
				for(int s=0;s<NS;s++){ wipe_begin(s); par f=q[i],g=q[j]; f.ks+=100*s; f.is+=100*s; g.ks+=100*s+50; g.is+=100*s+50; o=o_create(p,&f); if(!o) vf_fail("create returned null"); if(fl<o_flavours(p)) o_probe(p,o,&f,fl,out); else if(fl>o_flavours(p)){ h[0]=fl-o_flavours(p)-1; runseq(p,o,&f,h,1); } vf_fail_at=vf_alloc_count+k; o=o_recreate(p,o,&g); if(o) o_destroy(p,o); }
				wipe_end(NS);
			}
		}
	}
}
static void u_wipek(void *a)
{
	cfg *c=a; const prim *p=c->p; u8 o[300];
	for(int i=0;i<3;i++)
	{
		par q=kpar(p,i); size_t L=i==1?p->xtag*2+5:i==0?p->xtag:p->xtag/2+1; if(L>250) L=250;
		vf_heap_reset(); if(kdf(p,c->fam,&q,o,L)) vf_fail("key derivation failed"); long n=vf_alloc_count;
		for(long k=0;k<=n;k++) if(vf_case("set %ld, failing allocation %ld (0: none)",(long)i,k))
		{
			for(int s=0;s<3;s++){ wipe_begin(s); par f=q; f.ks+=100*s; f.is+=100*s; vf_fail_at=k; kdf(p,c->fam,&f,o,L); }
			wipe_end(3);
		}
	}
}
/* ------------------------------------------------------------ X08 */
static void __attribute__((noinline)) poison(int v){ volatile u8 a[1<<15]; for(size_t i=0;i<sizeof a;i++) a[i]=(u8)(v==3?i*7:v==2?0xFF:v==1?0x55:0); __asm__ volatile(""::"r"(a):"memory"); }
static void u_det(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8),h[8],n=o_nops(p); static u8 e[PROBE_MAX];
	static const u8 fills[]={0,0xFF,0xA5,1};
	for(int i=0;i<nq;i++) for(int f=0;f<o_flavours(p);f++)
	{
		vf_fill=0x77; vf_fill_mode=0; vf_heap_skew=0; vf_heap_reset(); void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); memset(e,0,sizeof e); size_t m=o_probe(p,o,q+i,f,e); o_destroy(p,o);
		for(int x=0;x<4;x++) for(int sk=0;sk<3;sk++) for(int po=0;po<4;po++) for(int ob=0;ob<2;ob++) if(vf_case("set %ld flavour %ld: heap fill %ld, address shift %ld, stack %ld, output %ld",(long)i,(long)f,(long)x,(long)sk,(long)po,(long)ob))
		{
			vf_fill=fills[x]; vf_fill_mode=x==3; vf_heap_skew=sk==0?0:sk==1?48:4096+16; memset(out,ob?0xFF:0,sizeof out);
			poison(po); o=o_create(p,q+i); if(!o) vf_fail("create returned null"); poison(po); o_probe(p,o,q+i,f,out); o_destroy(p,o);
			vf_eq(out,e,m,"results with other stale memory"); vf_nontrivial(1); vf_heap_skew=0; u64 z=vf_heap_hash(); vf_state2((u64)x*100+sk*10+po,&z,8);
		}
	}
	/* every short operation sequence, and re-creation, under two memories */
	int dep=vf_thorough?4:3;
	for(int i=0;i<nq;i++) for(int d=1;d<=dep;d++)
	{
		long tot=1; for(int k=0;k<d;k++) tot*=n;
		for(long x=0;x<tot;x++) if(seq_of(p,q+i,x,d,h)>=0 && vf_case("set %ld sequence %ld #%ld",(long)i,(long)d,x))
		{
			static u8 r[3][PROBE_MAX*2]; size_t m[3];
			for(int s=0;s<3;s++)
			{
				vf_heap_reset(); vf_fill=s==0?0:s==1?0xFF:0x3C; vf_fill_mode=s==2; vf_heap_skew=s*32; memset(r[s],s==1?0xFF:0,sizeof r[s]);
				opst st={0,0}; m[s]=0; poison(s); void *o=o_create(p,q+i); if(!o) vf_fail("create returned null");
				for(int k=0;k<d;k++){ poison(2-s); m[s]+=o_op(p,o,q+i,&st,h[k],r[s]+m[s]); }
				poison(s); o=o_recreate(p,o,q+(i+1)%nq); if(!o) vf_fail("re-creation returned null"); m[s]+=o_probe(p,o,q+(i+1)%nq,0,r[s]+m[s]); o_destroy(p,o);
			}
			vf_heap_skew=0; vf_log("%s",hist(p,h,d));
			vf_eq(r[1],r[0],m[0],"results with other stale memory"); vf_eq(r[2],r[0],m[0],"results with other stale memory");
		}
	}
}
static void u_detk(void *a)
{
	cfg *c=a; const prim *p=c->p; u8 e[300],o[300];
	for(int i=0;i<3;i++)
	{
		par q=kpar(p,i); size_t L=i==1?p->xtag*2+5:i==0?p->xtag:p->xtag/2+1; if(L>250) L=250;
		vf_fill=0; vf_heap_reset(); memset(e,0,sizeof e); if(kdf(p,c->fam,&q,e,L)) vf_fail("key derivation failed");
		for(int x=0;x<4;x++) for(int po=0;po<4;po++) if(vf_case("set %ld fill %ld stack %ld",(long)i,(long)x,(long)po))
		{ static const u8 fl[]={0,0xFF,0xA5,1}; vf_fill=fl[x]; vf_fill_mode=x==3; vf_heap_skew=(size_t)x*16; memset(o,x,sizeof o); poison(po); if(kdf(p,c->fam,&q,o,L)) vf_fail("key derivation failed"); vf_eq(o,e,L,"derived key with other stale memory"); vf_nontrivial(1); }
		vf_fill_mode=0; vf_heap_skew=0;
	}
}
/* ------------------------------------------------------------ X13 */
static void same(unsigned got, unsigned want, const char *what){ vf_validated(1); if(got!=want) vf_fail("%s is %u, should be %u",what,got,want); }
static const void *descof(const prim *p, void *o){ switch(p->kind){ case K_HASH: return kripto_hash_getdesc(o); case K_BLOCK: return kripto_block_getdesc(o); case K_MAC: return kripto_mac_getdesc(o); case K_STREAM: return kripto_stream_getdesc(o); default: return kripto_ae_getdesc(o); } }
static unsigned defr(const prim *p, unsigned kl)
{
	switch(p->mode)
	{
	case P_CHACHA: case P_SALSA: return 20;
	case P_RC4: return 0;
	case P_XCBC: { unsigned a=cat_defrounds(p->b,kl),b=cat_defrounds(p->b,p->b->bs); return a==b?a:0; }
	case P_EAX2: return 0;
	default: if(p->h) return p->h->rounds[0]?p->h->defrounds:0; return p->b->rounds[0]?cat_defrounds(p->b,kl):0;
	}
}
static void u_meta(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8); const void *d=p->desc;
	if(vf_case("advertised sizes%.0ld",0L)) switch(p->kind)
	{
	case K_HASH: same(kripto_hash_maxout(d),p->h->maxout,"maximal digest length"); same(kripto_hash_blocksize(d),p->h->blocksize,"block size"); same(kripto_hash_maxsalt(d),p->h->maxsalt,"maximal salt length"); break;
	case K_BLOCK: same(kripto_block_size(d),p->b->bs,"block size"); same(kripto_block_maxkey(d),p->b->maxkey,"maximal key length"); same(kripto_block_maxtweak(d),p->b->maxtweak,"maximal tweak length"); break;
	case K_MAC: same(kripto_mac_maxtag(d),p->maxtag,"maximal tag length"); same(kripto_mac_maxkey(d),p->maxkey,"maximal key length"); break;
	case K_STREAM: same(kripto_stream_maxkey(d),p->maxkey,"maximal key length"); same(kripto_stream_maxiv(d),p->maxiv,"maximal IV length"); break;
	default: same(kripto_ae_maxkey(d),p->maxkey,"maximal key length"); same(kripto_ae_maxiv(d),p->maxiv,"maximal IV length"); same(kripto_ae_maxtag(d),p->maxtag,"maximal tag length");
	}
	for(int i=0;i<nq;i++) for(int j=0;j<nq;j++) if(vf_case("origin, sets %ld %ld",(long)i,(long)j))
	{
		void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); vf_true(descof(p,o)==d,"object does not report its primitive after creation");
		if(p->kind==K_STREAM) same(kripto_stream_multof(o),p->unit,"data unit"); if(p->kind==K_AE) same(kripto_ae_multof(o),p->unit,"data unit");
		o_probe(p,o,q+i,0,out); vf_true(descof(p,o)==d,"object does not report its primitive after use");
		o=o_recreate(p,o,q+j); if(!o) vf_fail("re-creation returned null"); vf_true(descof(p,o)==d,"object does not report its primitive after re-creation");
		if(p->kind==K_STREAM) same(kripto_stream_multof(o),p->unit,"data unit"); if(p->kind==K_AE) same(kripto_ae_multof(o),p->unit,"data unit");
		if(p->kind==K_BLOCK) same(kripto_block_size(d),p->b->bs,"block size");
		o_destroy(p,o);
	}
	/* every parameter up to its maximum is usable, with and without the others at their maxima */
	unsigned X=p->maxkey<1100?p->maxkey:vf_thorough?1000:p->xkey+40; if(X>KMAX) X=KMAX; if(p->kind==K_HASH&&p->maxkey==UINT_MAX) X=300;
	for(unsigned k=p->minkey;k<=X;k++) for(int hi=0;hi<2;hi++) if(vf_case("key of %ld bytes, others maximal %ld",(long)k,(long)hi))
	{ par z={0,k,hi?p->xiv:0,hi||p->kind==K_BLOCK||p->kind==K_STREAM?p->xtag:1,3,3}; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); o_probe(p,o,&z,0,out); o=o_recreate(p,o,&z); if(!o) vf_fail("re-creation returned null"); o_destroy(p,o); vf_validated(1); }
	for(unsigned v=0;v<=p->xiv;v++) for(int hi=0;hi<2;hi++) if(vf_case("iv of %ld bytes, others maximal %ld",(long)v,(long)hi))
	{ par z={0,hi?p->xkey:p->minkey,v,hi||p->kind==K_STREAM?p->xtag:1,3,3}; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); o_probe(p,o,&z,0,out); o=o_recreate(p,o,&z); if(!o) vf_fail("re-creation returned null"); o_destroy(p,o); vf_validated(1); }
	if(p->kind==K_HASH||p->kind==K_MAC||p->kind==K_AE) for(unsigned t=1;t<=p->xtag;t++) for(int hi=0;hi<2;hi++) if(vf_case("tag or digest of %ld bytes, others maximal %ld",(long)t,(long)hi))
	{ par z={0,hi?p->xkey:p->minkey,hi?p->xiv:0,t,3,3}; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); o_probe(p,o,&z,0,out); o=o_recreate(p,o,&z); if(!o) vf_fail("re-creation returned null"); o_destroy(p,o); vf_validated(1); }
	if(p->kind==K_BLOCK && p->b->maxtweak) for(unsigned t=1;t<=p->b->maxtweak;t++) if(vf_case("tweak of %ld bytes",(long)t)){ void *o=o_create(p,q); kripto_block_tweak(o,o_data,t); u8 x[128]; kripto_block_encrypt(o,o_data,x); kripto_block_decrypt(o,x,x); vf_eq(x,o_data,p->b->bs,"inversion under a tweak"); o_destroy(p,o); }
	/* zero rounds and the default number */
	for(unsigned k=p->minkey;k<=p->xkey;k++) if(p->kind==K_BLOCK||p->b||k<8||k==p->xkey||vf_thorough)
	{
		unsigned r=defr(p,k); if(!r) continue;
		for(int f=0;f<o_flavours(p);f++) if(vf_case("key of %ld bytes: %ld rounds are the default, flavour %ld",(long)k,(long)r,(long)f))
		{
			par z={0,k,p->xiv,p->xtag,3,3}; static u8 e[PROBE_MAX]; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); size_t m=o_probe(p,o,&z,f,e); o_destroy(p,o);
			z.rounds=r; o=o_create(p,&z); if(!o) vf_fail("create with the default number of rounds returned null"); o_probe(p,o,&z,f,out); vf_eq(out,e,m,"explicit default rounds versus zero");
			o=o_recreate(p,o,&z); if(!o) vf_fail("re-creation returned null"); o_probe(p,o,&z,f,out); o_destroy(p,o); vf_eq(out,e,m,"explicit default rounds after re-creation versus zero"); vf_nontrivial(1);
		}
	}
}
/* ------------------------------------------------------------ X14 */
/* an object owns what it allocated: all of it is released, once, by its destruction; nothing piles up */
static size_t live_bytes(void){ size_t t=0; for(int i=0;i<vf_nblocks;i++) if(vf_blocks[i].live) t+=vf_blocks[i].n; return t; }
static void gone(const char *w){ vf_validated(1); if(vf_heap_live()) vf_fail("%s: %d heap blocks (%zu bytes) are never released",w,vf_heap_live(),live_bytes()); }
static void u_own(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8), no=o_nops(p), dep=vf_thorough?3:2; static u8 t[PROBE_MAX];
	for(int i=0;i<nq;i++)
	{
		/* every short history, then destruction, directly or after a re-creation and a use */
		for(int d=0;d<=dep;d++){ long M=1; for(int k=0;k<d;k++) M*=no; for(long x=0;x<M;x++)
		{
			int h[4],ok=1; long y=x; opst st={0,0}; for(int k=0;k<d;k++){ h[k]=(int)(y%no); y/=no; }
			for(int j=-1;j<nq;j++) if(vf_case("set %ld history depth=%ld #%ld, re-created with %ld",(long)i,(long)d,x,(long)j))
			{
				void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); st.phase=st.used=0; ok=1;
				for(int k=0;k<d&&ok;k++){ if(!o_legal(p,&st,h[k])) ok=0; else o_op(p,o,q+i,&st,h[k],t); }
				if(j>=0){ o=o_recreate(p,o,q+j); if(!o) vf_fail("re-creation returned null"); o_probe(p,o,q+j,0,t); }
				u64 hh=vf_heap_hash(); vf_state(&hh,8); o_destroy(p,o); gone("destroyed object"); vf_heap_check(); vf_nontrivial(1);
			}
		}}
		/* long lives: re-creation over and over must not pile up memory */
		for(int j=0;j<nq;j++) if(vf_case("set %ld re-created 40 times, alternating with set %ld",(long)i,(long)j))
		{
			int l0=0; size_t b0=0; void *o=o_create(p,q+i); if(!o) vf_fail("create returned null");
			for(int k=0;k<40;k++)
			{
				const par *z=k&1?q+i:q+j; o=o_recreate(p,o,z); if(!o) vf_fail("re-creation returned null"); o_probe(p,o,z,k%o_flavours(p),t);
				int l=vf_heap_live(); size_t b=live_bytes();
				if(k<8){ if(l>l0) l0=l; if(b>b0) b0=b; } else if(l>l0||b>b0) vf_fail("re-creation %d: %d blocks (%zu bytes) are held, at most %d (%zu) in the first 8",k,l,b,l0,b0);
			}
			o_destroy(p,o); gone("object re-created many times"); vf_nontrivial(1);
		}
		/* one-shot calls */
		if(p->kind==K_HASH||p->kind==K_MAC) for(int n=0;n<4;n++) if(vf_case("one-shot call, set %ld, %ld bytes",(long)i,(long)n*100))
		{
			par_key(q+i,kbuf); const size_t L=(size_t)n*100; vf_trans(1);
			if(p->kind==K_HASH?kripto_hash_all(p->desc,q[i].rounds,q[i].kl?kbuf:0,q[i].kl,o_data,L,out,q[i].tl):kripto_mac_all(p->desc,q[i].rounds,kbuf,q[i].kl,o_data,(unsigned)L,out,q[i].tl)) vf_fail("one-shot call failed");
			gone("one-shot call"); vf_nontrivial(1);
		}
		if(p->kind==K_MAC||p->kind==K_AE) for(int good=0;good<2;good++) if(vf_case("verification, set %ld, tag right %ld",(long)i,(long)good))
		{
			void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); if(p->kind==K_MAC) kripto_mac_tag(o,t,q[i].tl); else kripto_ae_tag(o,t,q[i].tl); o_destroy(p,o); if(!good) t[q[i].tl-1]^=1;
			o=o_create(p,q+i); if(!o) vf_fail("create returned null"); int l=vf_heap_live(); vf_trans(2); if(p->kind==K_MAC) kripto_mac_verify(o,t,q[i].tl); else kripto_ae_verify(o,t,q[i].tl);
			if(vf_heap_live()>l) vf_fail("verification leaves %d heap blocks",vf_heap_live()-l); o_destroy(p,o); gone("object after a verification"); vf_nontrivial(1);
		}
	}
	/* two objects: destroying one leaves the other's memory alone */
	for(int i=0;i<nq;i++) for(int j=0;j<nq;j++) for(int w=0;w<2;w++) if(vf_case("two objects, sets %ld and %ld, the first destroyed last: %ld",(long)i,(long)j,(long)w))
	{
		void *x=o_create(p,q+i); if(!x) vf_fail("create returned null"); int lx=vf_heap_live(); void *y=o_create(p,q+j); if(!y) vf_fail("create returned null"); int ly=vf_heap_live()-lx;
		o_probe(p,x,q+i,0,t); o_probe(p,y,q+j,0,t); int both=vf_heap_live(); (void)both; o_destroy(p,w?y:x); vf_validated(1);
		if(vf_heap_live()!=(w?lx:ly)) vf_fail("destroying one of two objects releases memory of the other or leaves its own (%d of %d, %d blocks)",vf_heap_live(),lx,ly);
		o_destroy(p,w?x:y); gone("two objects"); vf_nontrivial(1);
	}
	/* a composed descriptor is released by one free */
	if(vf_case("descriptor of set %ld",0L))
	{
		extern void *o_construct(const prim*); vf_heap_reset(); void *d=o_construct(p); vf_trans(1);
		if(d && vf_heap_live()){ vf_free(d); } gone("descriptor"); vf_nontrivial(1);
	}
}
static void u_ownk(void *a)
{
	cfg *c=a; const prim *p=c->p; u8 o[300];
	for(int i=0;i<3;i++){ par q=kpar(p,i); size_t X=p->xtag*2+5; if(X>250) X=250; for(size_t L=0;L<=X;L+=L<3||vf_thorough?1:L<p->xtag-1?p->xtag-1-L:L<p->xtag+1?1:p->xtag) if(vf_case("set %ld, %ld bytes",(long)i,(long)L))
	{ if(kdf(p,c->fam,&q,o,L)) vf_fail("key derivation failed"); gone("key derivation"); vf_nontrivial(1); } }
}
static cfg *mkc(const prim *p, int fam, int a){ cfg *c=calloc(1,sizeof *c); c->p=p; c->fam=fam; c->a=a; return c; }
static void reg(void)
{
	prims_init(); vf_fill=0xA5;
	for(int i=0;i<nprims;i++)
	{
		const prim *p=prims+i; par q[8]; int nq=par_list(p,q,8);
		int kdfok = p->kind==K_MAC && p->maxtag;
		if(strstr(vf_opt,"recreate")){ for(int j=0;j<nq;j++) vf_unit(u_re,mkc(p,0,j),"recreate/%s/to%d",p->name,j); for(int j=0;j<4;j++) vf_unit(u_re2,mkc(p,0,j),"recreate2/%s/%d",p->name,j); }
		if(strstr(vf_opt,"indep")){ vf_unit(u_ind,mkc(p,0,0),"indep/%s/pair",p->name); vf_unit(u_ind,mkc(p,1,i),"indep/%s/cross",p->name); if(p->kind==K_MAC||p->kind==K_AE) vf_unit(u_ver,mkc(p,0,0),"indep/%s/verify",p->name); if(p->kind==K_BLOCK) vf_unit(u_const,mkc(p,0,0),"indep/%s/const",p->name); }
		if(strstr(vf_opt,"oom")){ vf_unit(u_oom,mkc(p,0,0),"oom/%s",p->name); if(kdfok) for(int f=0;f<2;f++) vf_unit(u_oomk,mkc(p,f,0),"oom/%s/%s",f?"scrypt":"pbkdf2",p->name); if(i==0) vf_unit(u_oomc,mkc(p,0,0),"oom/constructors"); }
		if(strstr(vf_opt,"wipe")){ vf_unit(u_wipe,mkc(p,0,0),"wipe/%s",p->name); if(kdfok) for(int f=0;f<2;f++) vf_unit(u_wipek,mkc(p,f,0),"wipe/%s/%s",f?"scrypt":"pbkdf2",p->name); }
		if(strstr(vf_opt,"det")){ vf_unit(u_det,mkc(p,0,0),"det/%s",p->name); if(kdfok) for(int f=0;f<2;f++) vf_unit(u_detk,mkc(p,f,0),"det/%s/%s",f?"scrypt":"pbkdf2",p->name); }
		if(strstr(vf_opt,"own")){ vf_unit(u_own,mkc(p,0,0),"own/%s",p->name); if(kdfok) for(int f=0;f<2;f++) vf_unit(u_ownk,mkc(p,f,0),"own/%s/%s",f?"scrypt":"pbkdf2",p->name); }
		if(strstr(vf_opt,"meta")) vf_unit(u_meta,mkc(p,0,0),"meta/%s",p->name);
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
