/* Block cipher properties: B01 inversion, B02 conformance, B03 tweaks. */
#include "cat.h"
#include "refhash.h"
enum { INV=1, CONF=2 };
typedef struct { const cat_block *b; int mode, fam, aux; } ucfg;
static u8 key[256], blkv[256], alph[8][8];

typedef struct { kripto_block *s; kripto_block *g; unsigned bs; int mode; } pair;
static void mkpair(pair *p, const ucfg *c, unsigned r, unsigned kl)
{
	p->bs = c->b->bs; p->mode = c->mode; p->g = 0;
	vf_trans(1);
	p->s = kripto_block_create(cat_bdesc(c->b), r, key, kl);
	if(!p->s) vf_fail("create returned null");
	if(c->mode & CONF){ p->g = g_kripto_block_create(cat_gdesc(c->b), r, key, kl); if(!p->g) vf_fail("harness: reference create failed"); }
}
static void freepair(pair *p){ vf_trans(1); kripto_block_destroy(p->s); if(p->g) g_kripto_block_destroy(p->g); }
/* one block through all the required comparisons; result is the ciphertext */
static void one(pair *p, const u8 *x, u8 *ct)
{
	u8 a[160], b[160], e[160]; unsigned n = p->bs;
	vf_trans(2); vf_nontrivial(1);
	memset(a,0xEE,sizeof a);
	kripto_block_encrypt(p->s, x, a);
	if(p->mode & CONF)
	{
		g_kripto_block_encrypt(p->g, x, e); vf_eq(a, e, n, "ciphertext versus specification");
		kripto_block_decrypt(p->s, x, b); g_kripto_block_decrypt(p->g, x, e); vf_eq(b, e, n, "decryption versus specification");
	}
	if(p->mode & INV)
	{
		vf_trans(6);
		kripto_block_decrypt(p->s, a, b); vf_eq(b, x, n, "decrypt(encrypt(x))");
		memcpy(b,x,n); kripto_block_encrypt(p->s,b,b); vf_eq(b, a, n, "in-place encryption versus separate buffers");
		kripto_block_decrypt(p->s,b,b); vf_eq(b, x, n, "in-place decrypt(encrypt(x))");
		kripto_block_decrypt(p->s,x,b); kripto_block_encrypt(p->s,b,e); vf_eq(e, x, n, "encrypt(decrypt(x))");
		memcpy(e,x,n); kripto_block_decrypt(p->s,e,e); vf_eq(e, b, n, "in-place decryption versus separate buffers");
		if(a[n]!=0xEE) vf_fail("encryption wrote past the block");
	}
	memcpy(ct,a,n);
	vf_state(a,n);
}
static void kpat(unsigned kl, int pat)
{
	switch(pat){
	case 0: vf_fillpat(key,256,kl*3+1); break;
	case 1: memset(key,0,256); break;
	case 2: memset(key,0xFF,256); break;
	case 3: for(int i=0;i<256;i++) key[i]=(u8)i; break;
	case 4: for(int i=0;i<256;i++) key[i]=(u8)(i&1?0x80:0); break;
	default: vf_fillpat(key,256,kl*31+(unsigned)pat); break;
	}
}
/* a family of blocks */
static int data(unsigned n, int i, u8 *x)
{
	if(i==0){ memset(x,0,n); return 1; }
	if(i==1){ memset(x,0xFF,n); return 1; }
	if(i<10){ vf_fillpat(x,n,(unsigned)i); return 1; }
	i-=10; if(i<(int)n*8){ memset(x,0,n); x[i/8]=(u8)(1<<(i%8)); return 1; }
	i-=(int)n*8; if(i<(int)n*8){ memset(x,0xFF,n); x[i/8]^=(u8)(1<<(i%8)); return 1; }
	return 0;
}
static void u_block(void *arg)
{
	ucfg *c = arg; const cat_block *b = c->b; unsigned n=b->bs, rr[200]; int nr = cat_rounds(b, rr); pair p; u8 x[160], y[160], z[160];
	int conf = c->mode & CONF;
	switch(c->fam)
	{
	case 0: /* every key length, several keys, default rounds, a family of blocks */
		for(unsigned kl=1; kl<=b->maxkey; kl++) for(int k=0;k<(vf_thorough?12:6);k++) if(vf_case("key_len=%ld key=%ld",(long)kl,(long)k))
		{
			kpat(kl,k); mkpair(&p,c,0,kl);
			for(int i=0;(vf_thorough||i<26||k==0)&&data(n,i,x);i++) one(&p,x,y);
			freepair(&p);
		}
		break;
	case 1: /* every supported round count x every key length */
		for(int q=0;q<nr;q++) for(unsigned kl=1; kl<=b->maxkey; kl++) for(int k=0;k<(vf_thorough?3:1);k++) if(vf_case("rounds=%ld key_len=%ld key=%ld",(long)rr[q],(long)kl,(long)k))
		{
			kpat(kl,k); mkpair(&p,c,rr[q],kl);
			for(int i=0;i<(vf_thorough?20:6);i++){ data(n,i,x); one(&p,x,y); }
			freepair(&p);
		}
		break;
	case 2: /* every value of every key byte, at the significant key lengths */
		for(unsigned kl=b->maxkey;;kl=(kl+1)/2)
		{
			unsigned step = kl>64&&!vf_thorough?3:1;
			for(unsigned pos=(unsigned)c->aux;pos<kl;pos+=4*step) for(int v=0;v<256;v++) if(vf_case("key_len=%ld key byte %ld=%ld",(long)kl,(long)pos,(long)v))
			{
				kpat(kl,0); key[pos]=(u8)v; mkpair(&p,c,0,kl);
				for(int i=0;i<(vf_thorough?4:2);i++){ data(n,i*2,x); one(&p,x,y); }
				freepair(&p);
			}
			if(kl<=4||!vf_thorough) break;
		}
		break;
	case 3: /* every value of every block byte for three keys */
		for(int k=0;k<(vf_thorough?8:3);k++)
		{
			if(vf_case("bytes key=%ld",(long)k))
			{
				kpat(b->maxkey,k); mkpair(&p,c,0,b->maxkey);
				for(unsigned pos=0;pos<n;pos++) for(int v=0;v<256;v++){ vf_fillpat(x,n,5); x[pos]=(u8)v; one(&p,x,y); }
				if(vf_thorough) for(unsigned pos=0;pos+1<n;pos++) for(int v=0;v<65536;v++){ vf_fillpat(x,n,5); x[pos]=(u8)v; x[pos+1]=(u8)(v>>8); one(&p,x,y); if(!(v&255)) vf_alive(); }
				freepair(&p);
			}
		}
		break;
	case 4: /* boundary words: every combination over the first four words, and in the key */
	{
		static const u64 A[5]={0,1,~0ULL,0x8000800080008000ULL,0x7fff7fff7fff7fffULL};
		for(unsigned w=2;w<=8;w*=2) for(int inkey=0;inkey<2;inkey++) for(int k=0;k<3;k++) if(vf_case("words of %ld bytes in %ld key=%ld",(long)w,(long)inkey,(long)k))
		{
			unsigned span = inkey? b->maxkey : n; int nw = (int)(span/w); if(nw>4) nw=4; if(!nw) continue;
			int tot=1; for(int i=0;i<nw;i++) tot*=5;
			for(int off=0; off+nw<=(int)(span/w); off+=nw) for(int t=0;t<tot;t++)
			{
				int y2=t; u8 *dst = inkey? key : x;
				kpat(b->maxkey,k); vf_fillpat(x,n,(unsigned)k+3);
				for(int i=0;i<nw;i++){ u64 v=A[y2%5]; y2/=5; if(v==0x8000800080008000ULL) v=1ULL<<(w*8-1); else if(v==0x7fff7fff7fff7fffULL) v=(1ULL<<(w*8-1))-1; for(unsigned q=0;q<w;q++) dst[(unsigned)(off+i)*w+q]=(u8)(v>>(8*(w-1-q))); }
				if(inkey || !t || !off){ if(inkey||t==0){ vf_heap_reset(); mkpair(&p,c,0,b->maxkey); } }
				if(!inkey && t==0 && off){ }
				one(&p,x,y); if(inkey){ if(p.g) g_kripto_block_destroy(p.g); }
				vf_alive();
			}
		}
		break;
	}
	case 5: /* chains: iterate the permutation, then walk back */
	{
		int steps = vf_thorough?200000:20000;
		for(int k=0;k<(vf_thorough?4:2);k++) if(vf_case("chain key=%ld",(long)k))
		{
			kpat(b->maxkey,k?k+4:0); mkpair(&p,c,0,b->maxkey); vf_fillpat(x,n,77); memcpy(z,x,n);
			for(int i=0;i<steps;i++)
			{
				kripto_block_encrypt(p.s,z,y);
				if(conf){ u8 e[160]; g_kripto_block_encrypt(p.g,z,e); vf_eq(y,e,n,"ciphertext in chain versus specification"); }
				memcpy(z,y,n); vf_alive();
			}
			vf_trans(2*steps); vf_state(z,n);
			for(int i=0;i<steps;i++){ kripto_block_decrypt(p.s,z,y); if(conf){ u8 e[160]; g_kripto_block_decrypt(p.g,z,e); vf_eq(y,e,n,"decryption in chain versus specification"); } memcpy(z,y,n); vf_alive(); }
			if(c->mode&INV) vf_eq(z,x,n,"walking the chain back");
			freepair(&p);
		}
		break;
	}
	case 6: /* key chains: each key derived from the previous ciphertext */
	{
		int steps = vf_thorough?40000:4000;
		if(vf_case("key chain of %ld",(long)steps))
		{
			kpat(b->maxkey,0);
			for(int i=0;i<steps;i++)
			{
				unsigned kl = i%3==2 ? 1+(unsigned)i%b->maxkey : b->maxkey;
				vf_heap_reset(); mkpair(&p,c,0,kl); vf_fillpat(x,n,(unsigned)i+1000); one(&p,x,y); one(&p,y,z); freepair(&p);
				for(unsigned q=0;q<b->maxkey;q++) key[q]=(u8)(key[q]*5+z[q%n]+q); vf_alive();
			}
		}
		break;
	}
	case 7: /* 32-bit blocks: the whole block space (a slice of it in the quick tier) */
	{
		u64 lo=0, hi=vf_thorough?(1ULL<<32):(1ULL<<22); u64 sl=(hi+15)/16; lo=sl*(u64)c->aux; if(lo+sl<hi) hi=lo+sl;
		if(vf_case("blocks %ld..%ld",(long)lo,(long)hi))
		{
			kpat(b->maxkey,0); mkpair(&p,c,0,b->maxkey); vf_trans((long)(hi-lo)*2); vf_validated((long)(hi-lo));
			for(u64 v=lo;v<hi;v++)
			{
				u32 w=(u32)v, ct, pt, e;
				if(!vf_thorough) w=w*2654435761u;
				kripto_block_encrypt(p.s,&w,&ct);
				if(conf){ g_kripto_block_encrypt(p.g,&w,&e); if(e!=ct) vf_fail("block %08x: ciphertext differs from the specification",w); }
				kripto_block_decrypt(p.s,&ct,&pt); if(pt!=w) vf_fail("block %08x: decrypt(encrypt(x)) is %08x",w,pt);
				if(!(v&0xFFFFF)) vf_alive();
			}
		}
		break;
	}
	}
}
static void reg_block(int mode, const char *nm)
{
	for(int i=0;i<cat_nblocks;i++) for(int f=0;f<8;f++) for(int aux=0;aux<(f==2?4:f==7?16:1);aux++)
	{
		if(f==7 && cat_blocks[i].bs!=4) continue;
		ucfg *c = calloc(1,sizeof *c); c->b=cat_blocks+i; c->mode=mode; c->fam=f; c->aux=aux;
		vf_unit(u_block,c,"%s/%s/fam%d.%d",nm,c->b->name,f,aux);
	}
}
/* ---------------- B03: every history over {tweak, rekey, encrypt, decrypt} */
typedef struct { const cat_block *b; int fam, first; } tcfg;
typedef struct { unsigned r, kl; int kp; u8 tw[16]; } tmodel;
static void tref(const tcfg *c, const tmodel *m, const u8 *x, u8 *enc, u8 *dec)
{
	const cat_block *b=c->b; kpat(m->kl,m->kp);
	if(!strncmp(b->name,"threefish",9))
	{
		u8 k[128]={0}; memcpy(k,key,m->kl); unsigned r=m->r?m->r:(b->bs==128?80:72);
		ref_threefish((int)b->bs/8,r,k,m->tw,x,enc); ref_threefish_dec((int)b->bs/8,r,k,m->tw,x,dec); return;
	}
	kripto_block *g=g_kripto_block_create(cat_gdesc(b),m->r,key,m->kl);
	g_kripto_block_tweak(g,m->tw,b->maxtweak);
	g_kripto_block_encrypt(g,x,enc); g_kripto_block_decrypt(g,x,dec); g_kripto_block_destroy(g);
}
static void tcheck(const tcfg *c, const tmodel *m, kripto_block *s)
{
	u8 x[160],a[160],d[160],ea[160],ed[160]; unsigned n=c->b->bs;
	vf_fillpat(x,n,21); tref(c,m,x,ea,ed);
	vf_trans(3); kripto_block_encrypt(s,x,a); kripto_block_decrypt(s,x,d);
	vf_eq(a,ea,n,"encryption under the current key and tweak"); vf_eq(d,ed,n,"decryption under the current key and tweak");
	kripto_block_decrypt(s,a,d); vf_eq(d,x,n,"decryption inverts encryption under the current tweak"); vf_nontrivial(1);
	u64 h=vf_heap_hash(); vf_state(&h,8);
}
static void settw(const tcfg *c, tmodel *m, kripto_block *s, int pat, unsigned len)
{
	u8 t[16]; if(pat==0) vf_fillpat(t,16,300+len); else if(pat==1) memset(t,0xFF,16); else if(pat==2) memset(t,0,16); else { memset(t,0,16); t[(pat-3)/8]=(u8)(1<<((pat-3)%8)); }
	memset(m->tw,0,16); memcpy(m->tw,t,len); vf_trans(1); vf_log("  tweak len=%u pat=%d",len,pat); kripto_block_tweak(s,t,len);
}
static kripto_block *rekey(const tcfg *c, tmodel *m, kripto_block *s, unsigned r, unsigned kl, int kp)
{
	m->r=r; m->kl=kl; m->kp=kp; memset(m->tw,0,16); kpat(kl,kp); vf_trans(1); vf_log("  %s rounds=%u key_len=%u key=%d", s?"recreate":"create",r,kl,kp);
	kripto_block *q = s ? kripto_block_recreate(s,r,key,kl) : kripto_block_create(cat_bdesc(c->b),r,key,kl);
	if(!q) vf_fail("create/recreate returned null"); return q;
}
static void u_tweak(void *arg)
{
	tcfg *c=arg; const cat_block *b=c->b; tmodel m; unsigned T=b->maxtweak, lr = b->bs>=32&&b->name[1]=='h' ? 24 : 5;
	if(c->fam==0) /* every tweak length, every tweak bit, several key lengths and rounds */
	{
		unsigned kls[4]={1,b->maxkey/2+1,b->maxkey-1,b->maxkey};
		for(int q=0;q<4;q++) for(int ro=0;ro<2;ro++) for(unsigned tl=1;tl<=T;tl++) for(int pat=0;pat<3+(int)tl*8;pat++)
			if(vf_case("key_len=%ld rounds=%ld tweak_len=%ld tweak=%ld",(long)kls[q],(long)(ro?lr:0),(long)tl,(long)pat))
			{ kripto_block *s=rekey(c,&m,0,ro?lr:0,kls[q],0); settw(c,&m,s,pat,tl); tcheck(c,&m,s); kripto_block_destroy(s); }
		for(unsigned kl=1;kl<=b->maxkey;kl++) if(vf_case("no tweak key_len=%ld",(long)kl)){ kripto_block *s=rekey(c,&m,0,0,kl,0); tcheck(c,&m,s); kripto_block_destroy(s); }
		for(unsigned a=1;a<=T;a++) for(unsigned z=1;z<=T;z++) if(vf_case("tweak of %ld then of %ld",(long)a,(long)z))
		{ kripto_block *s=rekey(c,&m,0,0,b->maxkey,0); settw(c,&m,s,1,a); tcheck(c,&m,s); settw(c,&m,s,0,z); tcheck(c,&m,s); kripto_block_destroy(s); }
	}
	else /* every operation history up to a depth */
	{
		int dep = vf_thorough?6:5, nops=8;
		for(int d=1;d<=dep;d++)
		{
			long tot=1; for(int i=1;i<d;i++) tot*=nops;
			for(long x=0;x<tot;x++) if(vf_case("history depth=%ld first=%ld rest=%ld",(long)d,(long)c->first,x))
			{
				kripto_block *s=rekey(c,&m,0,0,b->maxkey,0); long y=x; u8 t[160]={0};
				for(int i=0;i<d;i++)
				{
					int op = i?(int)(y%nops):c->first; if(i) y/=nops;
					switch(op){
					case 0: settw(c,&m,s,0,T); break;
					case 1: settw(c,&m,s,1,T/2); break;
					case 2: settw(c,&m,s,0,T-3); break;
					case 3: s=rekey(c,&m,s,0,b->maxkey,5); break;
					case 4: s=rekey(c,&m,s,lr,b->maxkey-1,6); break;
					case 5: vf_trans(1); kripto_block_encrypt(s,t,t); break;
					case 6: vf_trans(1); kripto_block_decrypt(s,t,t); break;
					case 7: s=rekey(c,&m,s,lr*(lr>=8?3:2),b->maxkey/2,7); break;
					}
				}
				tcheck(c,&m,s); kripto_block_destroy(s);
			}
		}
	}
}
static void reg_tweak(void)
{
	for(int i=0;i<cat_nblocks;i++) if(cat_blocks[i].maxtweak) for(int f=0;f<2;f++) for(int k=0;k<(f?8:1);k++)
	{ tcfg *c=calloc(1,sizeof *c); c->b=cat_blocks+i; c->fam=f; c->first=k; vf_unit(u_tweak,c,"tweak/%s/fam%d.%d",c->b->name,f,k); }
}
static void reg(void)
{
	if(strstr(vf_opt,"inv")) reg_block(INV,"inv");
	if(strstr(vf_opt,"bconf")) reg_block(CONF,"bconf");
	if(strstr(vf_opt,"tweak")) reg_tweak();
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
