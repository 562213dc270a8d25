/* Hash properties: H01 split invariance, H02 conformance to the reference model. */
#include "cat.h"
#include "refhash.h"

typedef struct { const cat_hash *h; unsigned out, salt, rounds; int fam; int aux; } cfg;
static u8 msg[1<<20], saltb[4096];

static kripto_hash *mk(const cfg *c)
{
	vf_trans(1);
	kripto_hash *s = kripto_hash_create(*c->h->desc, c->rounds, c->salt ? saltb : 0, c->salt, c->out);
	if(!s) vf_fail("create returned null");
	return s;
}
static void in(kripto_hash *s, const u8 *p, size_t n){ vf_trans(1); vf_log("  input %zu", n); kripto_hash_input(s, p, n); vf_state2(1, &n, 0); u64 h = vf_heap_hash(); vf_state(&h, 8); }
static void out(kripto_hash *s, u8 *p, size_t n){ vf_trans(1); vf_log("  output %zu", n); kripto_hash_output(s, p, n); u64 h = vf_heap_hash(); vf_state(&h, 8); }
static void fin(kripto_hash *s){ vf_trans(1); kripto_hash_destroy(s); }

/* internal block: the unit in which this configuration absorbs data */
static unsigned blk(const cfg *c)
{
	switch(c->h->ref){
	case RH_SHA3: case RH_KECCAK1600: return 200-2*c->out;
	case RH_KECCAK800: return 100-2*c->out;
	default: return c->h->block;
	}
}
static void whole(const cfg *c, size_t L, u8 *d)
{
	kripto_hash *s = mk(c); in(s, msg, L); out(s, d, c->out); fin(s);
}
static void oneshot(const cfg *c, size_t L)
{
	u8 d[512], e[512];
	memset(d,0x11,sizeof d); memset(e,0x22,sizeof e);
	whole(c, L, d); vf_trans(1);
	if(kripto_hash_all(*c->h->desc, c->rounds, c->salt?saltb:0, c->salt, msg, L, e, c->out)) vf_fail("one-shot call failed");
	vf_eq(e, d, c->out, "one-shot digest versus incremental digest");
	if(e[c->out]!=0x22) vf_fail("one-shot call wrote past the digest");
}
static void u_split(void *a)
{
	cfg *c = a; unsigned B = blk(c); size_t L; u8 ref[512], d[512]; int nt = 1;
	size_t maxL = 2*B+2;
	switch(c->fam)
	{
	case 0: /* every cut into two, every length; the one-shot call */
		for(L=0; L<=maxL; L++)
		{
			vf_heap_reset(); whole(c, L, ref);
			if(vf_case("oneshot len=%ld", (long)L)) oneshot(c, L);
			for(size_t k=0; k<=L; k++) if(vf_case("in len=%ld cut=%ld", (long)L, (long)k))
			{
				kripto_hash *s = mk(c); in(s,msg,k); in(s,msg+k,L-k); memset(d,0,c->out); out(s,d,c->out); fin(s);
				vf_eq(d, ref, c->out, "digest with input cut in two"); vf_nontrivial(nt);
			}
		}
		break;
	case 1: /* every cut into three at lengths around block boundaries */
	{
		size_t Ls[12] = {B-1,B,B+1,2*B-1,2*B,2*B+1,B/2,3*B/2}; int n = vf_thorough?8:6;
		for(int q=0;q<n;q++) 
		{
			L = Ls[q]; vf_heap_reset(); whole(c, L, ref);
			size_t step = !vf_thorough && L > 140 ? 1 : 1;
			for(size_t k=0;k<=L;k+=step) for(size_t m=k;m<=L;m++) if(vf_case("in len=%ld cuts=%ld,%ld", (long)L,(long)k,(long)m))
			{
				kripto_hash *s = mk(c); in(s,msg,k); in(s,msg+k,m-k); in(s,msg+m,L-m); memset(d,0,c->out); out(s,d,c->out); fin(s);
				vf_eq(d, ref, c->out, "digest with input cut in three"); vf_nontrivial(nt);
			}
		}
		break;
	}
	case 2: /* every sequence of piece sizes from an alphabet, up to a depth */
	{
		size_t al[7] = {0,1,B-1,B,B+1,B/2,2*B}; int na = vf_thorough?7:5, dep = vf_thorough?6:5;
		for(int d2=1; d2<=dep; d2++)
		{
			long tot=1; for(int i=0;i<d2;i++) tot*=na;
			for(long x=0;x<tot;x++) if(vf_case("in pieces depth=%ld seq=%ld", (long)d2, x))
			{
				kripto_hash *s = mk(c); long y=x; L=0;
				for(int i=0;i<d2;i++){ size_t n=al[y%na]; y/=na; in(s,msg+L,n); L+=n; }
				memset(d,0,c->out); out(s,d,c->out); fin(s);
				vf_heap_reset(); whole(c,L,ref);
				vf_eq(d, ref, c->out, "digest with input in pieces"); vf_nontrivial(nt);
			}
		}
		break;
	}
	case 4: /* long pieces: around every power of two, from several positions in a block; many short calls */
		for(int k=8;k<=(vf_thorough?19:16);k++) for(int e=-1;e<=1;e++) for(int r=0;r<(vf_thorough&&k<13?(int)B:4);r++)
		{
			size_t n=((size_t)1<<k)+(size_t)e, rr=vf_thorough&&k<13?(size_t)r:r==0?0:r==1?1:r==2?B/2:B-1; L=rr+n+3; int have=0;
			for(int w=0;w<(k<=16?3:2);w++) if((w<2||r==0) && vf_case("in long=%ld after %ld, variant %ld",(long)n,(long)rr,(long)w))
			{
				if(!have){ vf_heap_reset(); whole(c,L,ref); have=1; }
				kripto_hash *s=mk(c); size_t st=w==0?61:1, at=0;
				if(w==1){ in(s,msg,rr); in(s,msg+rr,n); in(s,msg+rr+n,3); } else for(;at<L;at+=st){ vf_trans(1); kripto_hash_input(s,msg+at,L-at<st?L-at:st); }
				memset(d,0,c->out); out(s,d,c->out); fin(s); vf_eq(d,ref,c->out,"digest of long input in pieces"); vf_nontrivial(1); vf_alive();
			}
		}
		break;
	case 3: /* every cut of the output into two, and three (bounded), plus empty reads */
	{
		size_t Ls[5]={0,1,B-1,B,B+1};
		for(int q=0;q<5;q++)
		{
			L=Ls[q]; vf_heap_reset(); whole(c,L,ref);
			for(unsigned O=1;O<=c->out;O++) if(O==c->out || vf_thorough || O<4)
			for(unsigned k=0;k<=O;k++) for(unsigned m=k;m<=O;m+=(c->out>100&&!vf_thorough?(m-k<2||O-m<2?1:7):1)) if(m<=O && vf_case("out msg=%ld len=%ld cuts=%ld,%ld",(long)L,(long)O,(long)k,(long)m))
			{
				kripto_hash *s = mk(c); in(s,msg,L); memset(d,0x5A,sizeof d); out(s,d,k); out(s,d+k,m-k); out(s,d+m,O-m); fin(s);
				vf_eq(d,ref,O,"digest read in three pieces"); if(d[O]!=0x5A) vf_fail("output wrote past the requested bytes"); vf_nontrivial(nt);
			}
			/* byte by byte */
			if(vf_case("out msg=%ld bytewise",(long)L))
			{
				kripto_hash *s = mk(c); in(s,msg,L); for(unsigned i=0;i<c->out;i++) out(s,d+i,1); fin(s);
				vf_eq(d,ref,c->out,"digest read byte by byte");
			}
		}
		break;
	}
	}
}
/* long digests (Skein) */
static void u_longout(void *a)
{
	cfg *c=a; static u8 r[1<<17], g[1<<17]; unsigned B=c->h->block;
	static const unsigned O[]={1000,4095,4096,4097,65535,65536,65537,70000}; vf_heap_reset();
	for(int i=0;i<8;i++)
	{
		c->out=O[i]; kripto_hash *s=mk(c); in(s,msg,77); out(s,r,O[i]); fin(s);
		for(unsigned st=1;st<=4*B+1;st+=st<5?1:st<B-2?B-2-st:st<B+2?1:st<2*B?B-3:B) if(vf_case("out %ld in pieces of %ld",(long)O[i],(long)st))
		{ s=mk(c); in(s,msg,77); memset(g,0,O[i]); for(unsigned at=0;at<O[i];at+=st){ vf_trans(1); kripto_hash_output(s,g+at,O[i]-at<st?O[i]-at:st); } fin(s); vf_eq(g,r,O[i],"long digest read in pieces"); vf_nontrivial(1); }
		for(unsigned k=0;k<=2*B+2;k++) if(vf_case("out %ld cut at %ld",(long)O[i],(long)k)){ s=mk(c); in(s,msg,77); memset(g,0,O[i]); out(s,g,k); out(s,g+k,O[i]-k); fin(s); vf_eq(g,r,O[i],"long digest read in two pieces"); vf_nontrivial(1); }
	}
}
static void reg_split(void)
{
	for(int i=0;i<cat_nhashes;i++) if(cat_hashes[i].ref>=RH_SKEIN256){ cfg *c=calloc(1,sizeof *c); c->h=cat_hashes+i; vf_unit(u_longout,c,"split/%s/longout",c->h->name); }
	for(int i=0;i<cat_nhashes;i++)
	{
		const cat_hash *h = cat_hashes+i;
		unsigned outs[4]; int n=0; outs[n++]=h->maxdig;
		switch(h->ref){
		case RH_SHA2_256: case RH_BLAKE256: outs[n++]=28; break;
		case RH_SHA2_512: case RH_BLAKE512: outs[n++]=48; break;
		case RH_SHA3: outs[0]=32; outs[n++]=64; outs[n++]=28; break;
		case RH_KECCAK1600: outs[0]=32; outs[n++]=64; outs[n++]=80; break;
		case RH_KECCAK800: outs[0]=20; outs[n++]=40; break;
		case RH_SKEIN256: outs[0]=32; outs[n++]=70; break;
		case RH_SKEIN512: outs[0]=64; outs[n++]=130; break;
		case RH_SKEIN1024: outs[0]=128; outs[n++]=260; break;
		default: outs[n++]=h->maxdig/2;
		}
		for(int k=0;k<n;k++) for(int f=0;f<5;f++) for(int sl=0;sl<2;sl++)
		{
			if(sl && (!h->maxsalt || f==1 || f==4)) continue;
			if((f==1||f==4) && k && !vf_thorough) continue;
			cfg *c = calloc(1,sizeof *c); c->h=h; c->out=outs[k]; c->fam=f; c->salt = sl ? (h->maxsalt>64?45:h->maxsalt) : 0;
			vf_unit(u_split, c, "split/%s/out%u/salt%u/fam%d", h->name, c->out, c->salt, f);
		}
	}
}

/* ---------------- H02 */
static void conf1(const cfg *c, size_t L)
{
	u8 d[512], e[512]; memset(d,0x5A,sizeof d);
	kripto_hash *s = mk(c); in(s,msg,L); out(s,d,c->out); fin(s);
	ref_hash(c->h->ref, c->rounds, saltb, c->salt, c->out, msg, L, e, c->out);
	vf_eq(d, e, c->out, "digest versus specification"); vf_nontrivial(1);
	if(d[c->out]!=0x5A) vf_fail("output wrote past the digest");
}
static void fill(int pat){ if(pat==0) vf_fillpat(msg,4096,7); else if(pat==1) memset(msg,0,4096); else if(pat==2) memset(msg,0xFF,4096); else memset(msg,0x80,4096); }
static void u_conf(void *a)
{
	cfg *c = a; const cat_hash *h = c->h; unsigned B = blk(c);
	switch(c->fam)
	{
	case 0: /* every length up to several blocks, for four contents */
		for(int pat=0;pat<4;pat++){ fill(pat); size_t m = (vf_thorough?12:4)*B+4; if(m>4000) m=4000; for(size_t L=0;L<=m;L++) if(vf_case("content=%ld len=%ld",(long)pat,(long)L)) conf1(c,L); }
		break;
	case 1: /* every digest length, lengths around the block boundary */
		for(unsigned o=1;o<=h->maxdig;o++)
		{
			c->out=o; B=blk(c); size_t Ls[8]={0,1,B-1,B,B+1,2*B-1,2*B,2*B+1};
			for(int q=0;q<8;q++) if(vf_case("digest=%ld len=%ld",(long)o,(long)Ls[q])) conf1(c,Ls[q]);
		}
		break;
	case 2: /* every salt length, and every salt byte position */
	{
		unsigned ms = h->maxsalt>600?(vf_thorough?600:300):h->maxsalt;
		size_t Ls[6]={0,1,B-1,B,B+1,2*B};
		for(unsigned sl=0;sl<=ms;sl++){ c->salt=sl; for(int q=0;q<6;q++) if(vf_case("salt=%ld len=%ld",(long)sl,(long)Ls[q])) conf1(c,Ls[q]); }
		c->salt=ms>40?40:ms;
		for(unsigned p=0;p<c->salt;p++) for(int v=0;v<256;v+=(vf_thorough?1:15)){ u8 k=saltb[p]; saltb[p]=(u8)v; if(vf_case("salt byte %ld=%ld",(long)p,(long)v)) conf1(c,B+3); saltb[p]=k; }
		break;
	}
	case 3: /* every supported round count */
		for(const unsigned *r=h->rounds;*r;r++)
		{
			c->rounds=*r; size_t Ls[7]={0,1,B/2,B-1,B,B+1,3*B+1};
			for(int q=0;q<7;q++) if(vf_case("rounds=%ld len=%ld",(long)*r,(long)Ls[q])) conf1(c,Ls[q]);
		}
		break;
	case 4: /* every value of every byte of a block */
	{
		size_t L = B+1; 
		for(unsigned p=(unsigned)c->aux;p<B;p+=4) for(int v=0;v<256;v++){ u8 k=msg[p]; msg[p]=(u8)v; if(vf_case("byte %ld=%ld",(long)p,(long)v)) conf1(c,L); msg[p]=k; }
		break;
	}
	case 5: /* iterated hashing: a chain of states, each step compared */
	{
		int steps = vf_thorough?20000:2000; if(!vf_case("chain of %ld",(long)steps)) break;
		u8 x[512], d[512], e[512]; memset(x,0,sizeof x); size_t L=B;
		for(int i=0;i<steps;i++)
		{
			vf_heap_reset();
			x[0]^=(u8)i;
			kripto_hash *s = mk(c); in(s,x,L); out(s,d,c->out); fin(s);
			ref_hash(h->ref,c->rounds,saltb,c->salt,c->out,x,L,e,c->out);
			vf_eq(d,e,c->out,"digest in chain versus specification"); vf_alive();
			memmove(x+c->out,x,sizeof x-c->out); memcpy(x,d,c->out);
		}
		break;
	}
	}
}
static void reg_conf(void)
{
	for(int i=0;i<cat_nhashes;i++)
	{
		const cat_hash *h = cat_hashes+i;
		unsigned outs[6]; int n=0; outs[n++]=h->maxout?h->maxout:(h->ref==RH_KECCAK800?20:h->ref>=RH_SKEIN256?h->block:32);
		switch(h->ref){
		case RH_SHA2_256: case RH_BLAKE256: outs[n++]=28; break;
		case RH_SHA2_512: case RH_BLAKE512: outs[n++]=48; break;
		case RH_SHA3: outs[n++]=28; outs[n++]=32; outs[n++]=48; break;
		case RH_KECCAK1600: outs[n++]=28; outs[n++]=48; outs[n++]=64; outs[n++]=90; break;
		case RH_KECCAK800: outs[n++]=28; outs[n++]=45; break;
		case RH_SKEIN256: case RH_SKEIN512: case RH_SKEIN1024: outs[n++]=h->block*2+3; outs[n++]=h->block/2; break;
		case RH_BLAKE2S: case RH_BLAKE2B: outs[n++]=h->maxout/2; break;
		}
		for(int k=0;k<n;k++) for(int f=0;f<6;f++) for(int aux=0;aux<(f==4?4:1);aux++)
		{
			if(f==1&&k) continue;
			if(f==2&&!h->maxsalt) continue;
			if(f==4&&k&&!vf_thorough) continue;
			cfg *c = calloc(1,sizeof *c); c->h=h; c->out=outs[k]; c->fam=f; c->aux=aux;
			vf_unit(u_conf, c, "conf/%s/out%u/fam%d.%d", h->name, c->out, f, aux);
		}
	}
}
static void reg(void)
{
	vf_fillpat(msg,sizeof msg,7); vf_fillpat(saltb,sizeof saltb,99);
	if(strstr(vf_opt,"split")) reg_split();
	if(strstr(vf_opt,"conf")) reg_conf();
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
