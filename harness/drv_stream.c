/* Stream properties: S01 splitting, in-place, inversion, keystream; S02 modes; S03 stream ciphers. */
#include "objs.h"
typedef struct { const prim *p; par q; int fam; } cfg;
static u8 msg[1<<20], outb[1<<20], ref[1<<20], zero[1<<16], tmp[1<<20];
static unsigned blk(const prim *p, unsigned kl)
{
	if(p->b) return p->b->bs;
	switch(p->mode){ case P_CHACHA: case P_SALSA: return 64; case P_RC4: return 16; case P_KECS: return (p->h->ref==RH_KECCAK1600?200:100)-2*kl; default: return p->h->block; }
}
static void *mk(const cfg *c){ void *o=o_create(c->p,&c->q); if(!o) vf_fail("create returned null"); return o; }
static void st(void){ u64 h=vf_heap_hash(); vf_state(&h,8); }
static void ed(void *o, int dec, const u8 *i, u8 *x, size_t n){ vf_trans(1); vf_log("  %s %zu%s",dec?"decrypt":"encrypt",n,i==x?" in place":""); if(dec) kripto_stream_decrypt(o,i,x,n); else kripto_stream_encrypt(o,i,x,n); st(); }
static void pr(void *o, u8 *x, size_t n){ vf_trans(1); vf_log("  prng %zu",n); kripto_stream_prng(o,x,n); st(); }
static void whole(const cfg *c, int dec, const u8 *i, u8 *x, size_t n){ void *o=mk(c); ed(o,dec,i,x,n); o_destroy(c->p,o); }
/* crypts a piece; ip: in place through the output buffer */
static void piece(void *o, int dec, int ip, const u8 *i, u8 *x, size_t n){ if(ip){ if(n) memcpy(x,i,n); ed(o,dec,x,x,n); } else ed(o,dec,i,x,n); }
static void cmp(const u8 *exp, size_t n, const char *what){ vf_eq(outb,exp,n,what); for(int k=0;k<32;k++) if(outb[n+k]!=0x5A) vf_fail("%s: wrote past the end of the output",what); vf_nontrivial(1); }
static void clr(size_t n){ memset(outb,0x5A,n+64); }
static void u_split(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p,c->q.kl), u=p->unit; size_t L;
	size_t LM = u>1 ? (vf_thorough?10:7) : 2*B+3, S = u;
	switch(c->fam)
	{
	case 0:
		for(int dec=0;dec<2;dec++) for(size_t l=0;l<=LM;l++)
		{
			L=l*S; vf_heap_reset(); whole(c,dec,msg,ref,L);
			if(vf_case("dec=%ld len=%ld in place",(long)dec,(long)L)){ void *o=mk(c); clr(L); piece(o,dec,1,msg,outb,L); o_destroy(p,o); cmp(ref,L,"in place versus separate buffers"); }
			for(size_t k=0;k<=l;k++) for(int ip=0;ip<4;ip++) if((ip==0||ip==3||l<=B+1||vf_thorough) && vf_case("dec=%ld len=%ld cut=%ld ip=%ld",(long)dec,(long)L,(long)(k*S),(long)ip))
			{
				void *o=mk(c); clr(L); piece(o,dec,ip&1,msg,outb,k*S); piece(o,dec,ip>>1,msg+k*S,outb+k*S,L-k*S); o_destroy(p,o);
				cmp(ref,L,"data cut in two");
			}
		}
		break;
	case 1:
	{
		size_t l = u>1?6:B>64?B+1:2*B+1; L=l*S;
		for(int dec=0;dec<2;dec++)
		{
			vf_heap_reset(); whole(c,dec,msg,ref,L);
			for(size_t k=0;k<=l;k++) for(size_t m=k;m<=l;m++) if(vf_case("dec=%ld len=%ld cuts=%ld,%ld",(long)dec,(long)L,(long)(k*S),(long)(m*S)))
			{
				void *o=mk(c); clr(L); piece(o,dec,0,msg,outb,k*S); piece(o,dec,0,msg+k*S,outb+k*S,(m-k)*S); piece(o,dec,0,msg+m*S,outb+m*S,L-m*S); o_destroy(p,o);
				cmp(ref,L,"data cut in three");
			}
		}
		break;
	}
	case 2: /* every sequence over {size} x {separate, in place} */
	{
		size_t al1[]={0,1,B-1,B,B+1,2*B},alu[]={0,u,2*u,3*u}; const size_t *al=u>1?alu:al1; int na=u>1?4:5, dep=vf_thorough?5:4;
		for(int dec=0;dec<2;dec++) for(int d=1;d<=dep;d++)
		{
			long tot=1; for(int i=0;i<d;i++) tot*=2*na;
			for(long x=0;x<tot;x++) if(vf_case("dec=%ld pieces depth=%ld seq=%ld",(long)dec,(long)d,x))
			{
				L=0; long y=x; for(int i=0;i<d;i++){ L+=al[(y/2)%na]; y/=2*na; }
				clr(L); void *o=mk(c); y=x; L=0;
				for(int i=0;i<d;i++){ size_t n=al[(y/2)%na]; piece(o,dec,(int)(y&1),msg+L,outb+L,n); L+=n; y/=2*na; }
				o_destroy(p,o); whole(c,dec,msg,ref,L); cmp(ref,L,"data in pieces");
			}
		}
		break;
	}
	case 3: /* keystream calls versus encrypting zeros, every sequence */
	{
		if(!p->hasprng) break;
		size_t al[]={0,1,B-1,B,B+1,2*B+3}; int na=6,dep=4;
		for(int d=1;d<=dep;d++)
		{
			long tot=1; for(int i=0;i<d;i++) tot*=2*na;
			for(long x=0;x<tot;x++) if(vf_case("prng depth=%ld seq=%ld",(long)d,x))
			{
				void *o=mk(c),*e=mk(c); long y=x; L=0; clr(d*(2*B+4));
				for(int i=0;i<d;i++)
				{
					size_t n=al[(y/2)%na];
					if(y&1){ ed(o,0,msg+L,outb+L,n); ed(e,0,msg+L,ref+L,n); } else { pr(o,outb+L,n); ed(e,0,zero,ref+L,n); }
					L+=n; y/=2*na;
				}
				o_destroy(p,o); o_destroy(p,e); cmp(ref,L,"keystream calls versus encrypting zeros");
			}
		}
		break;
	}
	case 7: /* long pieces: around every power of two, from several positions in a block */
		for(int k=8;k<=(vf_thorough?19:16);k++) for(int e=-1;e<=1;e++) for(int r=0;r<(u>1?2:4);r++)
		{
			size_t n=(((size_t)1<<k)/S+(size_t)(e+1)-1)*S, rr=u>1?(size_t)r*S:r==0?0:r==1?1:r==2?B/2:B-1, E=u>1?S:3; L=rr+n+E;
			for(int kd=0;kd<3;kd++)
			{
				if(kd==2&&!p->hasprng) continue; int have=0, dec=kd==1;
				for(int w=0;w<3;w++) if((w<2||k==8) && vf_case("long=%ld after %ld, kind %ld variant %ld",(long)n,(long)rr,(long)kd,(long)w))
				{
					if(!have){ vf_heap_reset(); void *o=mk(c); size_t st=61*S; for(size_t at=0;at<L;at+=st){ size_t m=L-at<st?L-at:st; vf_trans(1); if(kd==2) kripto_stream_prng(o,ref+at,m); else if(dec) kripto_stream_decrypt(o,msg+at,ref+at,m); else kripto_stream_encrypt(o,msg+at,ref+at,m); } o_destroy(p,o); have=1; }
					void *o=mk(c); clr(L);
					if(kd==2){ if(w==1){ pr(o,outb,rr); pr(o,outb+rr,n); pr(o,outb+rr+n,E); } else pr(o,outb,L); }
					else if(w==1){ piece(o,dec,0,msg,outb,rr); piece(o,dec,0,msg+rr,outb+rr,n); piece(o,dec,1,msg+rr+n,outb+rr+n,E); }
					else piece(o,dec,w==2,msg,outb,L);
					o_destroy(p,o); cmp(ref,L,"long data in one call versus short pieces"); vf_alive();
				}
			}
		}
		break;
	case 6: /* every position in a block, reached by each kind of call, x every length of the next call x alignment */
	{
		static const u8 al[][2]={{0,0},{1,0},{0,1},{4,4},{3,7}}; size_t R=u>1?4:B, NM=u>1?6:3*B+2;
		for(size_t r=0;r<R;r++) for(size_t n=0;n<=NM;n++)
		{
			if(B>32 && u==1 && !vf_thorough && n%B>2 && n%B<B-2 && (r+n)%B>1 && (r+n)%B!=B-1) continue;
			if(B>32 && u==1 && !vf_thorough && r>2 && r%16 && r+2<B && r%8!=5) continue;
			for(int kd=0;kd<(p->hasprng?9:6);kd++) for(int z=0;z<(kd%3==2?1:5);z++) if(vf_case("position=%ld length=%ld calls=%ld alignment=%ld",(long)(r*S),(long)(n*S),(long)kd,(long)z))
			{
				/* kd/3: first call encrypts (0), decrypts throughout (1), keystream (2); kd%3: second separate, in place, keystream */
				int f=kd/3, s2=kd%3, dec=f==1; if(s2==2 && !p->hasprng) continue; if(dec && s2==2) continue;
				size_t ri=r*S, ni=n*S; u8 *x=outb+16+al[z][1]; const u8 *m=msg+16+al[z][0];
				memset(outb,0x5A,ri+ni+96);
				void *o=mk(c); if(f==2) pr(o,x,ri); else ed(o,dec,m,x,ri);
				if(s2==2) pr(o,x+ri,ni); else if(s2==1){ if(ni) memcpy(x+ri,m+ri,ni); ed(o,dec,x+ri,x+ri,ni); } else ed(o,dec,m+ri,x+ri,ni);
				o_destroy(p,o);
				/* one call over the same data, zeros where the keystream was asked for */
				if(ri){ if(f==2) memset(tmp,0,ri); else memcpy(tmp,m,ri); } if(ni){ if(s2==2) memset(tmp+ri,0,ni); else memcpy(tmp+ri,m+ri,ni); }
				whole(c,dec,tmp,ref,ri+ni);
				vf_eq(x,ref,ri+ni,"two calls versus one"); for(int k=0;k<16;k++) if(x[ri+ni+k]!=0x5A||x[-1-k]!=0x5A&&k<16+al[z][1]) vf_fail("wrote outside the output"); vf_nontrivial(1);
			}
		}
		break;
	}
	case 4: /* inversion, decryption cut differently */
		for(size_t l=0;l<=LM;l++) for(size_t k=0;k<=l;k+=(l>40&&!vf_thorough?3:1)) for(int dir=0;dir<2;dir++) if(vf_case("inverse dir=%ld len=%ld cut=%ld",(long)dir,(long)(l*S),(long)(k*S)))
		{
			L=l*S; clr(L); whole(c,dir,msg,tmp,L);
			void *o=mk(c); piece(o,!dir,1,tmp,outb,k*S); piece(o,!dir,0,tmp+k*S,outb+k*S,L-k*S); o_destroy(p,o);
			cmp(msg,L,dir?"encryption of a decryption":"decryption of an encryption");
		}
		break;
	case 5: /* long data: one call, bytewise, odd pieces */
	{
		size_t n=(vf_thorough?65536:6000)/(u>1?u:1)*(u>1?u:1), st2[]={u>1?u:1,u>1?5*u:61,u>1?16*u:1024};
		for(int dec=0;dec<2;dec++) for(int k=0;k<3;k++) if(vf_case("dec=%ld long piece=%ld",(long)dec,(long)st2[k]))
		{
			whole(c,dec,msg,ref,n); clr(n); void *o=mk(c);
			for(size_t i=0;i<n;i+=st2[k]) piece(o,dec,0,msg+i,outb+i,n-i<st2[k]?n-i:st2[k]);
			o_destroy(p,o); cmp(ref,n,"long data in pieces"); vf_alive();
		}
		break;
	}
	}
}
/* ---- conformance */
static u8 K[KMAX], V[KMAX];
static void conf2(const cfg *c, size_t L, int dec)
{
	const prim *p=c->p; clr(L); vf_trans(2);
	kripto_stream *o=kripto_stream_create(p->desc,c->q.rounds,K,c->q.kl,c->q.ivl?V:0,c->q.ivl); if(!o) vf_fail("create returned null");
	ed(o,dec,msg,outb,L); kripto_stream_destroy(o);
	m_stream(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,dec,msg,ref,L);
	cmp(ref,L,dec?"decryption versus definition":"encryption versus definition");
	if(!dec && p->hasprng)
	{
		/* the keystream alone, asked for as such: the encryption of zeros */
		static u8 zero[1<<20]; clr(L); vf_trans(1);
		o=kripto_stream_create(p->desc,c->q.rounds,K,c->q.kl,c->q.ivl?V:0,c->q.ivl); if(!o) vf_fail("create returned null");
		kripto_stream_prng(o,outb,L); kripto_stream_destroy(o);
		m_stream(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,0,zero,ref,L);
		cmp(ref,L,"keystream versus definition");
	}
}
static void kv(const cfg *c){ par_key(&c->q,K); par_iv(&c->q,V); }
static void conf1(cfg *c, size_t L, int dec){ kv(c); conf2(c,L,dec); }
static void u_conf(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p,c->q.kl), u=p->unit; size_t S=u;
	size_t Ls1[]={1,B-1,B,B+1,3*B+2}, Lsu[]={u,2*u,3*u,4*u,7*u}; const size_t *Ls=u>1?Lsu:Ls1;
	switch(c->fam)
	{
	case 0: for(int ct=0;ct<3;ct++){ if(ct==1) memset(msg,0,2048); if(ct==2) memset(msg,0xFF,2048); for(size_t l=0;l<=(u>1?12:(B>64?3:5)*B+3);l++) for(int dec=0;dec<2;dec++) if(l*S<2048&&vf_case("content=%ld dec=%ld len=%ld",(long)ct,(long)dec,(long)(l*S))) conf1(c,l*S,dec); } break;
	case 1: /* every key length x iv lengths */
		for(unsigned kl=1;kl<=p->xkey;kl++)
		{
			unsigned vs[]={0,p->xiv/3,p->xiv/2,p->xiv>12?12:p->xiv,p->xiv}; unsigned b2=blk(p,kl);
			for(int v=0;v<5;v++) if(!v||vs[v]!=vs[v-1]) for(int x=0;x<3;x++) for(int dec=0;dec<2;dec++){ size_t L=u>1?Ls[x]:x==0?1:x==1?b2:2*b2+1; if(vf_case("key=%ld iv=%ld len=%ld dec=%ld",(long)kl,(long)vs[v],(long)L,(long)dec)){ c->q.kl=kl; c->q.ivl=vs[v]; conf1(c,L,dec); } }
		}
		break;
	case 2: /* every iv length */
		for(unsigned v=0;v<=p->xiv;v++) for(int kk=0;kk<3;kk++) for(int x=0;x<(vf_thorough?5:3);x++) if(vf_case("iv=%ld key#%ld len=%ld",(long)v,(long)kk,(long)Ls[4-x])){ c->q.ivl=v; c->q.kl=kk==0?p->xkey:kk==1?p->xkey/2+1:1; conf1(c,Ls[4-x],x&1); }
		break;
	case 3:
	{
		unsigned rr[512]; int n=0;
		if(p->mode==P_CHACHA||p->mode==P_SALSA) for(unsigned r=1;r<=40;r++) rr[n++]=r;
		else if(p->mode==P_RC4){ for(unsigned r=1;r<400;r++) rr[n++]=r; rr[n++]=768; rr[n++]=3072; rr[n++]=4096; }
		else if(p->h) while(p->h->rounds[n]){ rr[n]=p->h->rounds[n]; n++; } else n=cat_rounds(p->b,rr);
		for(int i=0;i<n;i++) for(int x=1;x<5;x+=3) for(int kk=0;kk<3;kk++) for(int dec=0;dec<2;dec++) if(vf_case("rounds=%ld len=%ld key#%ld dec=%ld",(long)rr[i],(long)Ls[x],(long)kk,(long)dec)){ c->q.rounds=rr[i]; c->q.kl=kk==0?p->xkey:kk==1?p->xkey/2+1:1; conf1(c,Ls[x],dec); }
		break;
	}
	case 4: /* counter carries (block modes): every run of trailing FF bytes, reached at each of the first blocks */
		if(p->mode!=P_CTR&&p->mode!=P_OFB&&p->mode!=P_CFB&&p->mode!=P_CBC) break;
		for(unsigned j=0;j<=B;j++) for(int back=0;back<4;back++) for(int hi=0;hi<3;hi++) if(vf_case("iv ends in %ld bytes FF minus %ld, rest %ld",(long)j,(long)back,(long)hi))
		{
			kv(c); c->q.ivl=B; if(hi==0) memset(V,0,B); else if(hi==1) memset(V,0xFE,B); else vf_fillpat(V,B,j*7+1);
			if(j){ memset(V+B-j,0xFF,j); V[B-1]-=(u8)back; }
			conf2(c,u>1?5*B:5*B+1,0); if(vf_thorough||back==0) conf2(c,u>1?5*B:5*B+1,1);
		}
		break;
	case 5: /* long data */
	{
		size_t n=(size_t)B*(vf_thorough?70000:700); if(n>(vf_thorough?1000000:60000)) n=vf_thorough?1000000:60000; n=n/u*u;
		for(int dec=0;dec<2;dec++) if(vf_case("long len=%ld dec=%ld",(long)n,(long)dec)){ c->q.ivl=p->xiv; conf1(c,n,dec); }
		break;
	}
	case 6: /* every value of every IV byte, key contents */
		for(unsigned i=0;i<p->xiv&&i<32;i++) for(int v=0;v<256;v+=vf_thorough||p->b==0?1:17) if(vf_case("iv byte %ld=%ld",(long)i,(long)v)){ kv(c); V[i]=(u8)v; conf2(c,u>1?2*u:B+1,0); }
		for(int k=0;k<(vf_thorough?200:20);k++) if(vf_case("key content %ld",(long)k)){ c->q.ks=50+k; c->q.is=90+k; kv(c); conf2(c,u>1?3*u:2*B+1,k&1); }
		break;
	}
}
/* ---- S03: positions far into the keystream */
#include "inject.h"
static kripto_stream *cur; static unsigned curB;
static void one_block(void *x){ (void)x; kripto_stream_prng(cur,tmp,curB); }
static u8 endref[40*256];
/* produces n bytes of keystream: 0 keystream, 1 encryption, 2 decryption of zeros */
static void keyed(int how, u8 *o, size_t n){ vf_trans(1); if(how==0){ kripto_stream_prng(cur,o,n); return; } static u8 z[40*256]; if(how==1) kripto_stream_encrypt(cur,z,o,n); else kripto_stream_decrypt(cur,z,o,n); }
/* makes cur an object about to produce block pos; 0 if the counter is not found */
static int reach(const cfg *c, u64 pos)
{
	const prim *p=c->p; unsigned B=curB; inj_field f[8]; int n; u8 e[256];
	cur=o_create(p,&c->q); if(!cur) vf_fail("create returned null");
	u64 strides[]={1};
	n=inj_find(one_block,0,strides,1,f,8);
	/* six blocks have been produced while looking */
	/* is a field understood?  positions 1000 and 3000 were really reached in family 0 */
	u64 bi[]={1000,3000}; int ok=0; inj_field *g=f; int gn=1;
	for(int t=0;t<=n&&!ok;t++)
	{
		if(t==n && n<2) break;
		g = t<n?f+t:f; gn = t<n?1:n; ok=1;
		for(int k=0;k<2&&ok;k++){ for(int z=0;z<gn;z++) inj_set(g+z,bi[k]-INJ_STEPS); kripto_stream_prng(cur,tmp,B); m_keystream_at(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,bi[k],e); if(memcmp(tmp,e,B)) ok=0; }
		if(!ok) for(int z=0;z<gn;z++) inj_set(g+z,0);
	}
	if(!ok){ vf_log("counter not identified (%d candidates)",n); return 0; }
	for(int z=0;z<gn;z++) inj_set(g+z,pos-INJ_STEPS);
	return 1;
}
static void u_pos(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p,c->q.kl); u8 e[256];
	kv(c); curB=B;
	if(c->fam==0)
	{
		/* every block up to a bound, really generated */
		u64 nb=vf_thorough?(1u<<20):(1u<<16)+1000; if(p->mode!=P_CHACHA&&p->mode!=P_SALSA) nb=vf_thorough?(1u<<18):(1u<<16)+600;
		if(!vf_case("first %ld blocks",(long)nb)) return;
		cur=o_create(p,&c->q); if(!cur) vf_fail("create returned null");
		for(u64 i=0;i<nb;i++)
		{
			if(i%2){ memset(tmp,0,B); kripto_stream_encrypt(cur,tmp,tmp,B); } else kripto_stream_prng(cur,tmp,B);
			vf_trans(1); m_keystream_at(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,i,e); vf_eq(tmp,e,B,"keystream block versus definition"); if(i%4096==0) vf_alive();
		}
		vf_nontrivial(1); kripto_stream_destroy(cur);
		return;
	}
	/* the counter, found in the object's memory by its regular change, is moved; the carry itself is executed,
	   by keystream, encryption, decryption and by pieces that cross blocks */
	static const u64 bound[]={1ULL<<8,1ULL<<16,1ULL<<24,1ULL<<32,1ULL<<40,1ULL<<48,1ULL<<56};
	for(int how=0;how<5;how++) for(int q=0;q<7;q++) for(int back=1;back<=4;back++) if(vf_case("position 2^%ld minus %ld, by %ld",8L*(q+1),(long)back,(long)how))
	{
		if(!reach(c,bound[q]-(u64)back)){ kripto_stream_destroy(cur); continue; }
		u64 pos=bound[q]-(u64)back;
		if(how<4) for(int k=0;k<6;k++){ keyed(how==3?k%3:how,tmp,B); m_keystream_at(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,pos+(u64)k,e); vf_eq(tmp,e,B,"keystream across a counter carry versus definition"); vf_nontrivial(1); }
		else
		{
			static u8 all[6*256], got_[6*256]; size_t i=0; for(int k=0;k<6;k++) m_keystream_at(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,pos+(u64)k,all+(size_t)k*B);
			for(int k=0;i<6*B;k++){ size_t n=B-1+(size_t)k%4; if(n>6*B-i) n=6*B-i; keyed(k%3,got_+i,n); i+=n; }
			vf_eq(got_,all,6*B,"keystream in pieces across a counter carry versus definition"); vf_nontrivial(1);
		}
		kripto_stream_destroy(cur);
	}
}
/* ---- X16: the end of the counter */
#include "child.h"
typedef struct { int how; unsigned blocks; size_t first; } endreq;
static int a_end(void *v){ endreq *r=v; static u8 o[40*256]; size_t n=r->blocks*(size_t)curB; if(r->first) keyed(r->how,o,r->first); keyed(r->how,o+r->first,n-r->first); return 0; }
static int a_endeq(void *v){ endreq *r=v; static u8 o[40*256]; size_t n=r->blocks*(size_t)curB; keyed(r->how,o,n); return memcmp(o,endref,n)?2:0; }
static void u_end(void *a)
{
	cfg *c=a; const prim *p=c->p; unsigned B=blk(p,c->q.kl); kv(c); curB=B;
	for(int how=0;how<3;how++) for(unsigned back=1;back<=6;back++)
	{
		/* blocks 2^64-back.. : those that exist may be refused or must be right; block 2^64 does not exist */
		for(unsigned n=1;n<=back+8;n++) for(int cut=0;cut<4;cut++) if((cut<2||n>1) && vf_case("from 2^64-%ld, %ld blocks, by %ld, cut %ld",(long)back,(long)n,(long)how,(long)cut))
		{
			if(!reach(c,0-(u64)back)){ vf_log("counter not identified"); kripto_stream_destroy(cur); continue; }
			endreq r={how,n,cut==0?0:cut==1?1:cut==2?B:(n-1)*(size_t)B-1}; vf_trans(1); vf_validated(1); vf_nontrivial(1); vf_state2(back,&r,sizeof r);
			if(n<=back)
			{
				for(unsigned k=0;k<n;k++) m_keystream_at(p,c->q.rounds,K,c->q.kl,V,c->q.ivl,0-(u64)back+k,endref+k*(size_t)B);
				int z=child_run(a_endeq,&r,0); if(z==2) vf_fail("keystream before the end of the counter differs from the definition");
				if(z>=100) vf_fail("keystream before the end of the counter: signal %d",z-100);
				if(z==1 && n<back) vf_fail("keystream before the end of the counter is refused");
			}
			else { int z=child_run(a_end,&r,0); if(z!=1) vf_fail("keystream is produced past the end of the counter (%d): it repeats",z); }
			kripto_stream_destroy(cur);
		}
	}
}
static void reg(void)
{
	prims_init(); vf_fillpat(msg,sizeof msg,7);
	int sp=!!strstr(vf_opt,"split"), s2=!!strstr(vf_opt,"modes"), s3=!!strstr(vf_opt,"ciphers"), en=!!strstr(vf_opt,"exhaust");
	for(int i=0;i<nprims;i++)
	{
		const prim *p=prims+i; if(p->kind!=K_STREAM) continue;
		if(sp)
		{
			par q[8]; int n=par_list(p,q,8);
			for(int f=0;f<8;f++) for(int k=0;k<n;k++)
			{
				if(k>(vf_thorough?6:f==1||f>=6?0:1)) continue;
				cfg *c=calloc(1,sizeof *c); c->p=p; c->q=q[k]; c->fam=f;
				vf_unit(u_split,c,"strsplit/%s/p%d/fam%d",p->name,k,f);
			}
		}
		if((p->b&&s2)||(!p->b&&s3)) for(int f=0;f<7;f++) for(int v=0;v<(f==0||f==6?2:1);v++)
		{
			cfg *c=calloc(1,sizeof *c); c->p=p; c->fam=f; par q={0,v?p->xkey/2+1:p->xkey,v?p->xiv/2:p->xiv,0,1,1}; c->q=q;
			vf_unit(u_conf,c,"strconf/%s/fam%d.%d",p->name,f,v);
		}
		if(en && (p->mode==P_CHACHA||p->mode==P_SALSA||p->mode==P_SKS)) for(int v=0;v<4;v++)
		{
			cfg *c=calloc(1,sizeof *c); c->p=p; par q={0,v<2?32:16,v&1?24:8,0,1,1}; c->q=q; vf_unit(u_end,c,"strend/%s/key%u.iv%u",p->name,q.kl,q.ivl);
		}
		if(s3 && (p->mode==P_CHACHA||p->mode==P_SALSA||p->mode==P_SKS)) for(int f=0;f<2;f++) for(int v=0;v<2;v++)
		{
			cfg *c=calloc(1,sizeof *c); c->p=p; c->fam=f; par q={0,32,v?24:8,0,1,1}; c->q=q;
			vf_unit(u_pos,c,"strpos/%s/fam%d.iv%u",p->name,f,q.ivl);
		}
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
