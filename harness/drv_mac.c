/* MAC properties: M01 split invariance and verification, M02 conformance to the definitions. */
#include "objs.h"
typedef struct { const prim *p; par q; int fam; } cfg;
static u8 msg[1<<20];
static unsigned blk(const prim *p, unsigned tl)
{
	if(p->b) return p->b->bs;
	switch(p->h->ref){ case RH_SHA3: case RH_KECCAK1600: return 200-2*tl; case RH_KECCAK800: return 100-2*tl; default: return p->h->block; }
}
static void *mk(const cfg *c){ void *o=o_create(c->p,&c->q); if(!o) vf_fail("create returned null"); return o; }
static void in(void *o, const u8 *m, size_t n){ vf_trans(1); vf_log("  input %zu",n); kripto_mac_input(o,m,n); u64 h=vf_heap_hash(); vf_state(&h,8); }
static void tag(void *o, u8 *t, unsigned n){ vf_trans(1); kripto_mac_tag(o,t,n); }
static void whole(const cfg *c, size_t L, u8 *t){ void *o=mk(c); in(o,msg,L); tag(o,t,c->q.tl); o_destroy(c->p,o); }
static int all(const cfg *c, size_t L, u8 *t){ u8 k[KMAX]; par_key(&c->q,k); vf_trans(1); return kripto_mac_all(c->p->desc,c->q.rounds,k,c->q.kl,msg,(unsigned)L,t,c->q.tl); }
static void expect_verify(const cfg *c, size_t L, const u8 *t, int want, const char *what)
{
	u8 x[512]; memcpy(x,t,c->q.tl);
	void *o=mk(c); in(o,msg,L); vf_trans(1);
	int r=kripto_mac_verify(o,x,c->q.tl); o_destroy(c->p,o);
	vf_validated(1);
	if(memcmp(x,t,c->q.tl)) vf_fail("verification changed the presented tag");
	if(!!r != want) vf_fail("%s: verification returned %d", what, r);
}
static void u_split(void *a)
{
	cfg *c=a; unsigned T=c->q.tl, B=blk(c->p,T); size_t L; u8 ref[512],d[512];
	switch(c->fam)
	{
	case 0:
		for(L=0;L<=2*B+2;L++)
		{
			vf_heap_reset(); whole(c,L,ref);
			if(vf_case("all len=%ld",(long)L)){ memset(d,0x5A,sizeof d); if(all(c,L,d)) vf_fail("one-shot call failed"); vf_eq(d,ref,T,"one-shot tag versus incremental tag"); if(d[T]!=0x5A) vf_fail("one-shot call wrote past the tag"); }
			for(size_t k=0;k<=L;k++) if(vf_case("len=%ld cut=%ld",(long)L,(long)k))
			{
				void *o=mk(c); in(o,msg,k); in(o,msg+k,L-k); tag(o,d,T); o_destroy(c->p,o);
				vf_eq(d,ref,T,"tag with the message cut in two"); vf_nontrivial(1);
			}
		}
		break;
	case 1:
	{
		size_t Ls[]={B-1,B,B+1,2*B,2*B+1,3*B}; int n=vf_thorough?6:B>64?3:5;
		for(int x=0;x<n;x++)
		{
			L=Ls[x]; vf_heap_reset(); whole(c,L,ref);
			for(size_t k=0;k<=L;k++) for(size_t m=k;m<=L;m++) if(vf_case("len=%ld cuts=%ld,%ld",(long)L,(long)k,(long)m))
			{
				void *o=mk(c); in(o,msg,k); in(o,msg+k,m-k); in(o,msg+m,L-m); tag(o,d,T); o_destroy(c->p,o);
				vf_eq(d,ref,T,"tag with the message cut in three"); vf_nontrivial(1);
			}
		}
		break;
	}
	case 2:
	{
		size_t al[]={0,1,B-1,B,B+1,2*B,B/2}; int na=vf_thorough?7:5, dep=vf_thorough?5:4;
		for(int d2=1;d2<=dep;d2++)
		{
			long tot=1; for(int i=0;i<d2;i++) tot*=na;
			for(long x=0;x<tot;x++) if(vf_case("pieces depth=%ld seq=%ld",(long)d2,x))
			{
				void *o=mk(c); long y=x; L=0;
				for(int i=0;i<d2;i++){ size_t n=al[y%na]; y/=na; in(o,msg+L,n); L+=n; }
				tag(o,d,T); o_destroy(c->p,o); whole(c,L,ref);
				vf_eq(d,ref,T,"tag with the message in pieces"); vf_nontrivial(1);
			}
		}
		break;
	}
	case 4: /* long pieces: around every power of two, from several positions in a block; many short calls */
		for(int k=8;k<=(vf_thorough?19:16);k++) for(int e=-1;e<=1;e++) for(int r=0;r<(vf_thorough&&k<13?(int)B:4);r++)
		{
			size_t n=((size_t)1<<k)+(size_t)e, rr=vf_thorough&&k<13?(size_t)r:r==0?0:r==1?1:r==2?B/2:B-1; L=rr+n+3; int have=0;
			for(int w=0;w<4;w++) if((w<2||(r==0&&(w==3||k>=(vf_thorough?12:16)))) && vf_case("long=%ld after %ld, variant %ld",(long)n,(long)rr,(long)w))
			{
				if(!have){ vf_heap_reset(); whole(c,L,ref); have=1; }
				if(w==3){ memset(d,0x5A,sizeof d); if(all(c,L,d)) vf_fail("one-shot call failed"); vf_eq(d,ref,T,"one-shot tag versus incremental tag"); continue; }
				void *o=mk(c); size_t st=w==0?61:1, at=0;
				if(w==1){ in(o,msg,rr); in(o,msg+rr,n); in(o,msg+rr+n,3); } else for(;at<L;at+=st){ vf_trans(1); kripto_mac_input(o,msg+at,L-at<st?L-at:st); }
				tag(o,d,T); o_destroy(c->p,o); vf_eq(d,ref,T,"tag of a long message in pieces"); vf_nontrivial(1); vf_alive();
			}
		}
		break;
	case 5: /* the tag in pieces (HMAC gives it in one) */
	{
		size_t Ls[]={0,1,B-1,B,B+1,2*B}; unsigned t2=T<40||vf_thorough?T:40;
		for(int x=0;x<6;x++)
		{
			L=Ls[x]; vf_heap_reset(); whole(c,L,ref);
			for(unsigned k=0;k<=T;k++) for(unsigned m=k;m<=T;m+=m<k+2||T<=t2||m+2>=T?1:T-m-2) if(vf_case("len=%ld tag cuts=%ld,%ld",(long)L,(long)k,(long)m))
			{
				void *o=mk(c); in(o,msg,L); memset(d,0x5A,sizeof d); tag(o,d,k); tag(o,d+k,m-k); tag(o,d+m,T-m); o_destroy(c->p,o);
				vf_eq(d,ref,T,"tag read in three pieces"); if(d[T]!=0x5A) vf_fail("the last piece of the tag is too long"); vf_nontrivial(1);
			}
			if(vf_case("len=%ld tag bytewise",(long)L)){ void *o=mk(c); in(o,msg,L); for(unsigned k=0;k<T;k++) tag(o,d+k,1); o_destroy(c->p,o); vf_eq(d,ref,T,"tag read bytewise"); vf_nontrivial(1); }
		}
		break;
	}
	case 3: /* verification */
	{
		size_t Ls[]={0,1,B,2*B+3};
		for(int x=0;x<(vf_thorough?4:2);x++)
		{
			L=Ls[vf_thorough?x:2*x+1]; vf_heap_reset(); whole(c,L,ref);
			if(vf_case("verify len=%ld exact",(long)L)) expect_verify(c,L,ref,1,"the computed tag");
			for(unsigned i=0;i<T;i++) for(int b=0;b<8;b++) if(vf_case("verify len=%ld byte %ld bit %ld",(long)L,(long)i,(long)b)){ memcpy(d,ref,T); d[i]^=(u8)(1<<b); expect_verify(c,L,d,0,"a tag with one altered bit"); vf_nontrivial(1); }
			for(unsigned i=0;i<T;i++) if(vf_thorough||i==0||i==T-1||i==T/2) for(int v=1;v<256;v++) if(vf_case("verify len=%ld byte %ld xor %ld",(long)L,(long)i,(long)v)){ memcpy(d,ref,T); d[i]^=(u8)v; expect_verify(c,L,d,0,"a tag with one altered byte"); }
			static const int dl[]={1,0x80,0xFF,0x55,2,4,8,16,32,64};
			for(unsigned i=0;i<T;i++) for(unsigned j=i+1;j<T;j++) if(vf_thorough||T<=32||j==i+1||j==i+4||j==i+8||j==T-1) for(int k=0;k<(vf_thorough?10:3);k++) if(vf_case("verify len=%ld bytes %ld,%ld xor %ld",(long)L,(long)i,(long)j,(long)dl[k]))
			{ memcpy(d,ref,T); d[i]^=(u8)dl[k]; d[j]^=(u8)dl[k]; expect_verify(c,L,d,0,"a tag with two bytes altered alike"); }
			for(unsigned i=0;i<T;i++) for(unsigned j=i+1;j<T;j++) if(j==i+1||vf_thorough) if(vf_case("verify len=%ld bytes %ld +1,%ld -1",(long)L,(long)i,(long)j))
			{ memcpy(d,ref,T); d[i]++; d[j]--; expect_verify(c,L,d,0,"a tag with two bytes altered oppositely"); }
			for(unsigned i=0;i+1<T;i++) if(ref[i]!=ref[i+1]) if(vf_case("verify len=%ld swap %ld",(long)L,(long)i)){ memcpy(d,ref,T); d[i]=ref[i+1]; d[i+1]=ref[i]; expect_verify(c,L,d,0,"a tag with two bytes swapped"); }
			for(int v=1;v<256;v+=vf_thorough?1:6) if(vf_case("verify len=%ld all xor %ld",(long)L,(long)v)){ for(unsigned i=0;i<T;i++) d[i]=ref[i]^(u8)v; expect_verify(c,L,d,0,"a tag with every byte altered"); }
			for(unsigned i=1;i<T;i++) if(vf_case("verify len=%ld from byte %ld",(long)L,(long)i)){ for(unsigned j=0;j<T;j++) d[j]=ref[j]^(j>=i?0x01:0); expect_verify(c,L,d,0,"a tag with an altered tail"); for(unsigned j=0;j<T;j++) d[j]=ref[j]^(j<i?0x10:0); expect_verify(c,L,d,0,"a tag with an altered head"); }
			u8 z[512]; memset(z,0,sizeof z); if(memcmp(z,ref,T) && vf_case("verify len=%ld zero tag",(long)L)) expect_verify(c,L,z,0,"the all-zero tag");
		}
		break;
	}
	}
}
static void conf1(cfg *c, size_t L)
{
	u8 k[KMAX],t[512],e[512]; par_key(&c->q,k); memset(t,0x5A,sizeof t);
	void *o=mk(c); in(o,msg,L); tag(o,t,c->q.tl); o_destroy(c->p,o);
	m_mac(c->p,c->q.rounds,k,c->q.kl,msg,L,e,c->q.tl,0);
	/* Keccak-family hashes under HMAC: either the advertised block (200, 100) or the rate is accepted
	   here; which of them FIPS 202 prescribes is decided by its own case (family 6) */
	if(c->p->mode==P_HMAC && (c->p->h->ref==RH_SHA3||c->p->h->ref==RH_KECCAK1600||c->p->h->ref==RH_KECCAK800) && memcmp(t,e,c->q.tl))
		m_mac(c->p,c->q.rounds,k,c->q.kl,msg,L,e,c->q.tl,(c->p->h->ref==RH_KECCAK800?100:200)-2*c->q.tl);
	vf_eq(t,e,c->q.tl,"tag versus definition"); vf_nontrivial(1);
	if(t[c->q.tl]!=0x5A) vf_fail("wrote past the tag");
	memset(t,0x5A,sizeof t); if(all(c,L,t)) vf_fail("one-shot call failed");
	vf_eq(t,e,c->q.tl,"one-shot tag versus definition"); if(t[c->q.tl]!=0x5A) vf_fail("one-shot call wrote past the tag");
}
static void u_conf(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p,c->q.tl); 
	switch(c->fam)
	{
	case 0: for(unsigned L=0;L<=(vf_thorough?9:3)*B+3;L++) if(vf_case("len=%ld",(long)L)) conf1(c,L); break;
	case 1: /* every key length */
	{
		size_t Ls[]={0,1,B-1,B,B+1,2*B}; unsigned X=vf_thorough&&p->maxkey>KMAX?900:p->xkey;
		for(unsigned kl=1;kl<=X;kl++) for(int x=0;x<6;x++) if(vf_case("key=%ld len=%ld",(long)kl,(long)Ls[x])){ c->q.kl=kl; conf1(c,Ls[x]); }
		break;
	}
	case 2: /* every tag length, short and long key */
		for(unsigned t=1;t<=p->xtag;t++)
		{
			unsigned b2=blk(p,t); size_t Ls[]={0,1,b2-1,b2,b2+1,2*b2+1}; 
			for(int x=0;x<6;x++) for(int kk=0;kk<2;kk++) if(vf_case("tag=%ld len=%ld key=%ld",(long)t,(long)Ls[x],(long)(kk?p->xkey:p->xkey/3+1))){ c->q.tl=t; c->q.kl=kk?p->xkey:p->xkey/3+1; conf1(c,Ls[x]); }
		}
		break;
	case 3:
	{
		unsigned rr[512]; int n=0; if(p->h) while(p->h->rounds[n]){ rr[n]=p->h->rounds[n]; n++; } else n=cat_rounds(p->b,rr);
		size_t Ls[]={0,B-1,B,2*B+1};
		for(int i=0;i<n;i++) for(int x=0;x<4;x++) for(int kk=0;kk<3;kk++) if(vf_case("rounds=%ld len=%ld key=%ld",(long)rr[i],(long)Ls[x],(long)(kk==0?1:kk==1?p->xkey/2+1:p->xkey))){ c->q.rounds=rr[i]; c->q.kl=kk==0?1:kk==1?p->xkey/2+1:p->xkey; conf1(c,Ls[x]); }
		break;
	}
	case 4: /* many keys: both branches of each subkey doubling */
	{
		size_t Ls[]={0,1,B,B+1};
		for(int k=0;k<(vf_thorough?400:48);k++) for(int x=0;x<4;x++) if(vf_case("key content=%ld len=%ld",(long)k,(long)Ls[x])){ c->q.ks=10+k; conf1(c,Ls[x]); }
		break;
	}
	case 5: /* every value of every byte of a message of a block and a bit */
		for(unsigned i=0;i<B+2;i+=(vf_thorough||B<=32)?1:3) for(int v=0;v<256;v+=vf_thorough?1:5) { u8 k=msg[i]; msg[i]=(u8)v; if(vf_case("byte %ld=%ld",(long)i,(long)v)) conf1(c,B+2); msg[i]=k; }
		break;
	case 6: /* FIPS 202 HMAC block of the SHA-3 functions */
		if(vf_case("HMAC-SHA3 uses the rate of SHA3-%ld as block",8L*c->q.tl))
		{
			u8 k[KMAX],t[512],e[512]; par_key(&c->q,k);
			void *o=mk(c); in(o,msg,50); tag(o,t,c->q.tl); o_destroy(c->p,o);
			m_mac(p,0,k,c->q.kl,msg,50,e,c->q.tl,200-2*c->q.tl);
			vf_eq(t,e,c->q.tl,"HMAC-SHA3 tag versus FIPS 202 block size");
		}
		break;
	}
}
static void reg(void)
{
	prims_init(); vf_fillpat(msg,sizeof msg,7);
	for(int i=0;i<nprims;i++)
	{
		const prim *p=prims+i; if(p->kind!=K_MAC) continue;
		if(strstr(vf_opt,"split"))
		{
			par q[8]; int n=par_list(p,q,8);
			for(int f=0;f<6;f++) for(int k=0;k<n;k++)
			{
				if(f!=3 && k!=0 && !(k==1&&f!=1) && !vf_thorough) continue;
				if((f==1||f==4) && k>1) continue;
				if(f==4 && k && !vf_thorough) continue;
				if(f==5 && p->mode==P_HMAC) continue;
				cfg *c=calloc(1,sizeof *c); c->p=p; c->q=q[k]; c->fam=f;
				vf_unit(u_split,c,"macsplit/%s/p%d/fam%d",p->name,k,f);
			}
		}
		if(strstr(vf_opt,"conf")) for(int f=0;f<6;f++) for(int v=0;v<(f==0||f==4?3:1);v++)
		{
			cfg *c=calloc(1,sizeof *c); c->p=p; c->fam=f; par q={0,v==0?p->xkey:v==1?p->xkey/2+1:1,0,v==1&&p->xtag>1?p->xtag/2:p->xtag,1,1}; c->q=q;
			vf_unit(u_conf,c,"macconf/%s/fam%d.%d",p->name,f,v);
		}
		if(strstr(vf_opt,"conf") && !strstr(vf_opt,"m32") && !strcmp(p->name,"hmac/sha3"))
		{
			static const unsigned tl[]={28,32,48,64};
			for(int v=0;v<4;v++){ cfg *c=calloc(1,sizeof *c); c->p=p; c->fam=6; par q={0,20,0,tl[v],1,1}; c->q=q; vf_unit(u_conf,c,"macconf/%s/fips202.%u",p->name,tl[v]*8); }
		}
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
