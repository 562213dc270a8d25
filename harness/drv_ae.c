/* Authenticated modes: A01 round trip and detection, A02 conformance to the definitions. */
#include "objs.h"
typedef struct { const prim *p; par q; int fam; } cfg;
static u8 msg[1<<19], hdr[1<<19], ct[1<<19], pt[1<<19], rct[1<<19];
static unsigned blk(const prim *p){ const prim *s=p->mode==P_EAX2?p->s:p; return s->b?s->b->bs:s->mode==P_RC4?16:64; }
static u8 K[KMAX], V[KMAX];
static void *mkx(const cfg *c){ void *o=kripto_ae_create(c->p->desc,c->q.rounds,K,c->q.kl,c->q.ivl?V:0,c->q.ivl,c->q.tl); vf_trans(1); if(!o) vf_fail("create returned null"); return o; }
static void kv(const cfg *c){ par_key(&c->q,K); par_iv(&c->q,V); }
static void st(void){ u64 h=vf_heap_hash(); vf_state(&h,8); }
static void hd(void *o, const u8 *h, size_t n){ vf_trans(1); vf_log("  header %zu",n); kripto_ae_header(o,h,n); st(); }
static void ed(void *o, int dec, const u8 *i, u8 *x, size_t n){ vf_trans(1); vf_log("  %s %zu%s",dec?"decrypt":"encrypt",n,i==x?" in place":""); if(dec) kripto_ae_decrypt(o,i,x,n); else kripto_ae_encrypt(o,i,x,n); st(); }
static void piece(void *o, int dec, int ip, const u8 *i, u8 *x, size_t n){ if(ip){ if(n) memcpy(x,i,n); ed(o,dec,x,x,n); } else ed(o,dec,i,x,n); }
static void tg(void *o, u8 *t, unsigned n){ vf_trans(1); kripto_ae_tag(o,t,n); }
static int ver(void *o, const u8 *t, unsigned n){ u8 x[512]; memcpy(x,t,n); vf_trans(1); int r=kripto_ae_verify(o,x,n); if(memcmp(x,t,n)) vf_fail("verification changed the presented tag"); return !!r; }
static void seal(const cfg *c, size_t hl, size_t n, u8 *out, u8 *t){ void *o=mkx(c); hd(o,hdr,hl); ed(o,0,msg,out,n); tg(o,t,c->q.tl); o_destroy(c->p,o); }
static void guard(const u8 *b, size_t n){ for(int k=0;k<32;k++) if(b[n+k]!=0x5A) vf_fail("wrote past the end of the output"); }
/* receiver with every input explicit; 1 if verification succeeded */
static int opn(const cfg *c, const u8 *h, size_t hl, const u8 *x, size_t n, const u8 *t, unsigned tl){ void *o=mkx(c); hd(o,h,hl); ed(o,1,x,pt,n); int r=ver(o,t,tl); o_destroy(c->p,o); return r; }
static void reject(const cfg *c, const u8 *h, size_t hl, const u8 *x, size_t n, const u8 *t, unsigned tl, const char *what){ vf_validated(1); vf_nontrivial(1); if(opn(c,h,hl,x,n,t,tl)) vf_fail("%s: verification succeeded",what); }
static void clr2(size_t n){ memset(ct,0x5A,n+64); memset(pt,0x5A,n+64); }
static void u_rt(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p), u=p->unit, T=c->q.tl; size_t L,S=u,LM=u>1?(vf_thorough?9:6):2*B+2; u8 t[512],t2[512];
	kv(c);
	switch(c->fam)
	{
	case 0: /* every length, every cut, both sides */
		for(size_t l=0;l<=LM;l++)
		{
			L=l*S; vf_heap_reset(); seal(c,9,L,rct,t);
			for(size_t k=0;k<=l;k++) for(int ip=0;ip<(l<=B+1||u>1||vf_thorough?2:1);ip++) if(vf_case("len=%ld cut=%ld ip=%ld",(long)L,(long)(k*S),(long)ip))
			{
				memset(ct,0x5A,L+64); memset(pt,0x5A,L+64); memset(t2,0x5A,sizeof t2);
				void *o=mkx(c); hd(o,hdr,9); piece(o,0,ip,msg,ct,k*S); piece(o,0,ip,msg+k*S,ct+k*S,L-k*S); tg(o,t2,T); o_destroy(p,o);
				vf_eq(ct,rct,L,"ciphertext of data cut in two"); vf_eq(t2,t,T,"tag of data cut in two"); guard(ct,L); if(t2[T]!=0x5A) vf_fail("wrote past the tag");
				o=mkx(c); hd(o,hdr,9); piece(o,1,!ip,rct,pt,(l-k)*S); piece(o,1,!ip,rct+(l-k)*S,pt+(l-k)*S,k*S);
				vf_eq(pt,msg,L,"decrypted data"); guard(pt,L); vf_true(ver(o,t,T),"the genuine tag was not accepted"); o_destroy(p,o); vf_nontrivial(1);
			}
		}
		break;
	case 1: /* every header length, every cut */
		for(L=0;L<=2*B+2;L++)
		{
			vf_heap_reset(); seal(c,L,u,rct,t);
			for(size_t k=0;k<=L;k++) if(vf_case("header len=%ld cut=%ld",(long)L,(long)k))
			{
				void *o=mkx(c); hd(o,hdr,k); ed(o,0,msg,ct,u); hd(o,hdr+k,L-k); tg(o,t2,T); o_destroy(p,o);
				vf_eq(ct,rct,u,"ciphertext with the header cut in two"); vf_eq(t2,t,T,"tag with the header cut in two");
				o=mkx(c); hd(o,hdr,L-k); hd(o,hdr+L-k,k); ed(o,1,rct,pt,u); vf_eq(pt,msg,u,"decrypted data"); vf_true(ver(o,t,T),"the genuine tag was not accepted"); o_destroy(p,o); vf_nontrivial(1);
			}
		}
		break;
	case 2: /* every interleaving of header and data calls */
	{
		size_t hs[]={0,3,B},d1[]={0,1,B-1,B+1},du[]={0,u,2*u,3*u}; const size_t *ds=u>1?du:d1; int na=7,dep=vf_thorough?5:4;
		for(int d=1;d<=dep;d++)
		{
			long tot=1; for(int i=0;i<d;i++) tot*=na;
			for(long x=0;x<tot;x++) if(vf_case("calls depth=%ld seq=%ld",(long)d,x))
			{
				size_t H=0; long y=x; L=0; void *o=mkx(c);
				for(int i=0;i<d;i++){ int k=(int)(y%na); y/=na; if(k<3){ hd(o,hdr+H,hs[k]); H+=hs[k]; } else { piece(o,0,(int)((x>>i)&1),msg+L,ct+L,ds[k-3]); L+=ds[k-3]; } }
				tg(o,t2,T); o_destroy(p,o);
				seal(c,H,L,rct,t); vf_eq(ct,rct,L,"ciphertext under interleaved calls"); vf_eq(t2,t,T,"tag under interleaved calls");
				o=mkx(c); y=x; H=L=0;
				for(int i=0;i<d;i++){ int k=(int)(y%na); y/=na; if(k<3){ hd(o,hdr+H,hs[k]); H+=hs[k]; } else { piece(o,1,(int)((x>>i)&1)^1,rct+L,pt+L,ds[k-3]); L+=ds[k-3]; } }
				vf_eq(pt,msg,L,"decrypted data"); vf_true(ver(o,t,T),"the genuine tag was not accepted"); o_destroy(p,o); vf_nontrivial(1);
			}
		}
		break;
	}
	case 4: /* long data and headers: around every power of two, from several positions in a block */
		for(int k=8;k<=(vf_thorough?18:15);k++) for(int e=-1;e<=1;e++) for(int r=0;r<(u>1?2:4);r++) for(int side=0;side<2;side++) if(vf_case("long=2^%ld%+ld position#%ld header %ld",(long)k,(long)e,(long)r,(long)side))
		{
			size_t n=((size_t)1<<k)+(size_t)e, H=5, rr=r==0?0:r==1?1:r==2?B/2:B-1, E=3; vf_alive();
			if(side){ H=rr+n+E; L=2*u; } else { if(u>1){ n=n/S*S+(size_t)(e+1)*S; rr=(size_t)r*S; E=S; } L=rr+n+E; }
			vf_heap_reset(); seal(c,H,L,rct,t); clr2(L);
			void *o=mkx(c);
			if(side){ hd(o,hdr,rr); hd(o,hdr+rr,n); hd(o,hdr+rr+n,E); ed(o,0,msg,ct,L); }
			else { hd(o,hdr,H); piece(o,0,0,msg,ct,rr); piece(o,0,0,msg+rr,ct+rr,n); piece(o,0,1,msg+rr+n,ct+rr+n,E); }
			tg(o,t2,T); o_destroy(p,o); vf_eq(ct,rct,L,"ciphertext of long data in pieces"); vf_eq(t2,t,T,"tag of long data in pieces"); guard(ct,L);
			o=mkx(c); for(size_t at=0;at<H;at+=61) hd(o,hdr+at,H-at<61?H-at:61);
			for(size_t at=0;at<L;at+=61*S) piece(o,1,(int)(at/61/S)&1,rct+at,pt+at,L-at<61*S?L-at:61*S);
			vf_eq(pt,msg,L,"decrypted data"); guard(pt,L); vf_true(ver(o,t,T),"the genuine tag was not accepted"); o_destroy(p,o); vf_nontrivial(1);
			/* one altered bit far inside */
			if(side) hdr[H/2]^=4; else rct[L/2]^=4;
			if(T>=4){ o=mkx(c); hd(o,hdr,H); ed(o,1,rct,pt,L); int ok=ver(o,t,T); o_destroy(p,o); if(side) hdr[H/2]^=4; if(ok) vf_fail("verification succeeded although a bit in the middle was altered"); } else if(side) hdr[H/2]^=4;
		}
		break;
	case 3: /* every alteration */
	{
		size_t Ls1[]={0,B+3,1,3*B},Lsu[]={0,2*u,u,4*u}, Hs[]={0,B+2,1,2*B}; u8 x[1024],h2[1024],tk[512]; int n=vf_thorough?4:2; 
		if(T<4) break;
		for(int z=0;z<n;z++) for(int zh=0;zh<n;zh++)
		{
			L=(u>1?Lsu:Ls1)[z]; size_t H=Hs[zh]; kv(c); vf_heap_reset(); seal(c,H,L,rct,t);
#define C(fmt,...) vf_case("alter len=%ld header=%ld: " fmt,(long)L,(long)H,__VA_ARGS__)
			if(C("none%.0ld",0L)) vf_true(opn(c,hdr,H,rct,L,t,T),"the genuine tag was not accepted");
			for(unsigned i=0;i<T;i++) for(int b=0;b<8;b++) if(C("tag byte %ld bit %ld",(long)i,(long)b)){ memcpy(tk,t,T); tk[i]^=(u8)(1<<b); reject(c,hdr,H,rct,L,tk,T,"altered tag"); }
			static const int dl[]={1,0x80,0xFF,0x55};
			for(unsigned i=0;i<T;i++) for(unsigned j=i+1;j<T;j++) if(vf_thorough||T<=16||j==i+1||j==T-1) for(int k=0;k<4;k++) if(C("tag bytes %ld,%ld xor %ld",(long)i,(long)j,(long)dl[k])){ memcpy(tk,t,T); tk[i]^=(u8)dl[k]; tk[j]^=(u8)dl[k]; reject(c,hdr,H,rct,L,tk,T,"tag with two bytes altered alike"); }
			for(unsigned i=0;i+1<T;i++) if(C("tag bytes %ld +1, next -1",(long)i)){ memcpy(tk,t,T); tk[i]++; tk[i+1]--; reject(c,hdr,H,rct,L,tk,T,"tag with two bytes altered oppositely"); }
			for(int v=1;v<256;v+=vf_thorough?1:12) if(C("whole tag xor %ld",(long)v)){ for(unsigned i=0;i<T;i++) tk[i]=t[i]^(u8)v; reject(c,hdr,H,rct,L,tk,T,"tag with every byte altered"); }
			for(size_t i=0;i<L;i++) for(int b=0;b<8;b++) if((vf_thorough||L<=100||b==(int)(i%8)) && C("data byte %ld bit %ld",(long)i,(long)b)){ memcpy(x,rct,L); x[i]^=(u8)(1<<b); reject(c,hdr,H,x,L,t,T,"altered ciphertext"); }
			for(size_t i=0;i+B<L;i++) if(C("data bytes %ld and a block later xor 1",(long)i)){ memcpy(x,rct,L); x[i]^=1; x[i+B]^=1; reject(c,hdr,H,x,L,t,T,"ciphertext with two bytes altered alike"); }
			if(L>=2*B) if(C("data blocks %ld,%ld swapped",0L,1L)){ memcpy(x,rct+B,B); memcpy(x+B,rct,B); memcpy(x+2*B,rct+2*B,L-2*B); reject(c,hdr,H,x,L,t,T,"ciphertext with two blocks swapped"); }
			for(size_t i=0;i<H;i++) for(int b=0;b<8;b++) if(C("header byte %ld bit %ld",(long)i,(long)b)){ memcpy(h2,hdr,H); h2[i]^=(u8)(1<<b); reject(c,h2,H,rct,L,t,T,"altered header"); }
			for(size_t k=1;k<=2;k++) if(L>=k*S && C("data cut by %ld",(long)(k*S))) reject(c,hdr,H,rct,L-k*S,t,T,"shortened ciphertext");
			for(size_t k=1;k<=2;k++) if(C("data extended by %ld",(long)(k*S))){ memset(x,0,sizeof x); memcpy(x,rct,L); reject(c,hdr,H,x,L+k*S,t,T,"extended ciphertext"); }
			for(size_t k=1;k<=2;k++){ if(H>=k && C("header cut by %ld",(long)k)) reject(c,hdr,H-k,rct,L,t,T,"shortened header"); if(C("header extended by %ld",(long)k)){ memset(h2,0,sizeof h2); memcpy(h2,hdr,H); reject(c,h2,H+k,rct,L,t,T,"extended header"); } }
			if(H && L && H%S==0 && L==H && C("header and data exchanged%.0ld",0L)) reject(c,rct,L,hdr,H,t,T,"header and data exchanged");
			if(H>=S && u==1 && C("header byte moved into data%.0ld",0L)){ x[0]=hdr[H-1]; memcpy(x+1,rct,L); reject(c,hdr,H-1,x,L+1,t,T,"header byte moved into the data"); }
			if(L>=1 && u==1 && C("data byte moved into header%.0ld",0L)){ memcpy(h2,hdr,H); h2[H]=rct[0]; reject(c,h2,H+1,rct+1,L-1,t,T,"data byte moved into the header"); }
			for(unsigned i=0;i<c->q.ivl;i++) for(int b=0;b<8;b++) if(C("nonce byte %ld bit %ld",(long)i,(long)b)){ kv(c); V[i]^=(u8)(1<<b); reject(c,hdr,H,rct,L,t,T,"altered nonce"); kv(c); }
			for(unsigned k=1;k<=2;k++)
			{
				cfg d=*c; if(c->q.ivl>=k && C("nonce cut by %ld",(long)k)){ d.q.ivl-=k; reject(&d,hdr,H,rct,L,t,T,"shortened nonce"); }
				d=*c; if(c->q.ivl+k<=p->maxiv && c->q.ivl+k<KMAX && C("nonce extended by %ld",(long)k)){ V[c->q.ivl]=V[c->q.ivl+1]=0; d.q.ivl+=k; reject(&d,hdr,H,rct,L,t,T,"extended nonce"); kv(c); }
			}
			/* key bits; parity bits of DES keys are not part of the key.  With no data only the MAC part of a split key decides. */
			for(unsigned i=0;i<c->q.kl;i++) for(int b=0;b<8;b++)
			{
				const char *nm = p->mode==P_EAX2?"":p->b->name; unsigned mk=0;
				if(p->mode==P_EAX2){ unsigned sk=(c->q.kl+1)/2; if(sk>p->s->maxkey) sk=p->s->maxkey; mk=c->q.kl-sk; if(mk>p->m->maxkey) mk=p->m->maxkey; if(i>=mk) continue; if(p->m->b) nm=p->m->b->name; }
				if(!strcmp(nm,"des") && b==0) continue;
				if(c->q.kl>64 && !vf_thorough && b!=(int)(i%8)) continue;
				if(C("key byte %ld bit %ld",(long)i,(long)b)){ kv(c); K[i]^=(u8)(1<<b); reject(c,hdr,H,rct,L,t,T,"altered key"); kv(c); }
			}
#undef C
		}
		break;
	}
	}
}
static void conf1(cfg *c, size_t hl, size_t L)
{
	u8 t[512],e[512]; const prim *p=c->p; kv(c);
	memset(ct,0x5A,L+64); memset(t,0x5A,sizeof t);
	void *o=mkx(c); hd(o,hdr,hl); ed(o,0,msg,ct,L); tg(o,t,c->q.tl); o_destroy(p,o);
	m_ae(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,hdr,hl,msg,L,rct,e,c->q.tl);
	vf_eq(ct,rct,L,"ciphertext versus definition"); vf_eq(t,e,c->q.tl,"tag versus definition"); guard(ct,L); if(t[c->q.tl]!=0x5A) vf_fail("wrote past the tag"); vf_nontrivial(1);
	memset(pt,0x5A,L+64);
	o=mkx(c); ed(o,1,rct,pt,L); hd(o,hdr,hl); vf_eq(pt,msg,L,"decryption versus definition"); guard(pt,L); vf_true(ver(o,e,c->q.tl),"the defined tag was not accepted"); o_destroy(p,o);
}
static void u_conf(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p), u=p->unit; size_t S=u, L1[]={0,1,B-1,B,2*B+1},Lu[]={0,u,2*u,3*u,5*u}; const size_t *Ls=u>1?Lu:L1;
	switch(c->fam)
	{
	case 0: for(size_t l=0;l<=(u>1?10:(B>64?2:4)*B+3);l++) for(int h=0;h<4;h++){ size_t H[]={0,1,B,2*B+1}; if(vf_case("len=%ld header=%ld",(long)(l*S),(long)H[h])) conf1(c,H[h],l*S); } break;
	case 1: for(size_t h=0;h<=3*B+2;h++) for(int x=0;x<3;x++) if(vf_case("header=%ld len=%ld",(long)h,(long)Ls[x*2])) conf1(c,h,Ls[x*2]); break;
	case 2: for(unsigned v=0;v<=p->xiv;v++) for(int x=0;x<3;x++) if(vf_case("iv=%ld len=%ld",(long)v,(long)Ls[x*2])){ c->q.ivl=v; conf1(c,x*7,Ls[x*2]); } break;
	case 3: for(unsigned k=p->minkey;k<=p->xkey;k++) for(int x=0;x<3;x++) if(vf_case("key=%ld len=%ld",(long)k,(long)Ls[x*2])){ c->q.kl=k; conf1(c,5,Ls[x*2]); } break;
	case 4: for(unsigned t=1;t<=p->xtag;t++) for(int v=0;v<4;v++) for(int x=0;x<2;x++){ unsigned iv[]={0,1,p->xiv/2,p->xiv}; if(iv[v]<=p->xiv && vf_case("tag=%ld iv=%ld len=%ld",(long)t,(long)iv[v],(long)Ls[x*4])){ c->q.tl=t; c->q.ivl=iv[v]; conf1(c,5,Ls[x*4]); } } break;
	case 5:
	{
		unsigned rr[512]; int n=0; if(p->mode==P_EAX) n=cat_rounds(p->b,rr); else n=(int)prim_rounds(p,rr);
		for(int i=0;i<n;i++) for(int x=0;x<2;x++) for(int kk=0;kk<2;kk++) if(vf_case("rounds=%ld len=%ld key#%ld",(long)rr[i],(long)Ls[x*4],(long)kk)){ c->q.rounds=rr[i]; c->q.kl=kk?p->xkey/2+1:p->xkey; conf1(c,5,Ls[x*4]); }
		break;
	}
	case 6:
		for(int k=0;k<(vf_thorough?300:30);k++) for(int x=0;x<3;x++) if(vf_case("contents %ld len=%ld",(long)k,(long)Ls[x*2])){ c->q.ks=50+k; c->q.is=90+k; conf1(c,B+1,Ls[x*2]); }
		break;
	case 7:
	{
		size_t n=(size_t)B*(vf_thorough?70000:700); if(n>(vf_thorough?400000:40000)) n=vf_thorough?400000:40000; n=n/u*u;
		if(vf_case("long len=%ld",(long)n)) conf1(c,4000,n);
		break;
	}
	}
}
static void reg(void)
{
	prims_init(); vf_fillpat(msg,sizeof msg,7); vf_fillpat(hdr,sizeof hdr,8);
	for(int i=0;i<nprims;i++)
	{
		const prim *p=prims+i; if(p->kind!=K_AE) continue;
		if(strstr(vf_opt,"rt"))
		{
			par q[8]; int n=par_list(p,q,8);
			for(int f=0;f<5;f++) for(int k=0;k<n;k++)
			{
				if(k>(vf_thorough?6:f==3?3:f==4?0:1)) continue;
				cfg *c=calloc(1,sizeof *c); c->p=p; c->q=q[k]; c->fam=f;
				if(f==3){ unsigned mk=p->mode==P_EAX2?16:8; c->q.rounds=0; if(c->q.kl<mk) c->q.kl=mk<p->xkey?mk:p->xkey; } /* reduced rounds and tiny keys may really be weak */
				if(f==3 && c->q.tl<p->xtag && c->q.tl<8) c->q.tl=p->xtag;
				vf_unit(u_rt,c,"aert/%s/p%d/fam%d",p->name,k,f);
			}
		}
		if(strstr(vf_opt,"conf")) for(int f=0;f<8;f++) for(int v=0;v<(f<2?2:1);v++)
		{
			cfg *c=calloc(1,sizeof *c); c->p=p; c->fam=f; par q={0,v?p->xkey/2+1:p->xkey,v?p->xiv/2:p->xiv,v&&p->xtag>1?p->xtag/2:p->xtag,1,1}; c->q=q; if(c->q.kl<p->minkey) c->q.kl=p->minkey;
			vf_unit(u_conf,c,"aeconf/%s/fam%d.%d",p->name,f,v);
		}
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
