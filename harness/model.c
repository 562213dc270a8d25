/* Executable models of the MAC, stream and authenticated modes, written from their definitions.
   Block permutation: the frozen reference ciphers.  Hashes: the reference hashes. */
#include "objs.h"
/* ---- block permutation with a small cache of keyed objects */
#define NC 8
static struct { const cat_block *b; unsigned r, kl; u8 key[256]; kripto_block *g; u64 use; } bc[NC]; static u64 tick;
static kripto_block *keyed(const cat_block *b, unsigned r, const u8 *key, unsigned kl)
{
	int v = 0;
	for(int i=0;i<NC;i++)
	{
		if(bc[i].g && bc[i].b==b && bc[i].r==r && bc[i].kl==kl && !memcmp(bc[i].key,key,kl)){ bc[i].use=++tick; return bc[i].g; }
		if(bc[i].use < bc[v].use) v=i;
	}
	if(bc[v].g) g_kripto_block_destroy(bc[v].g);
	bc[v].g = g_kripto_block_create(cat_gdesc(b), r, key, kl);
	if(!bc[v].g) vf_fail("model: block cipher creation failed");
	bc[v].b=b; bc[v].r=r; bc[v].kl=kl; memcpy(bc[v].key,key,kl); bc[v].use=++tick;
	return bc[v].g;
}
void m_enc(const cat_block *b, unsigned r, const u8 *key, unsigned kl, const u8 *in, u8 *out){ u8 t[128]; memcpy(t,in,b->bs); g_kripto_block_encrypt(keyed(b,r,key,kl), t, out); }
void m_dec(const cat_block *b, unsigned r, const u8 *key, unsigned kl, const u8 *in, u8 *out){ u8 t[128]; memcpy(t,in,b->bs); g_kripto_block_decrypt(keyed(b,r,key,kl), t, out); }

/* ---- CMAC, XCBC */
static unsigned poly(unsigned bs){ switch(bs){ case 4: return 0x8D; case 8: return 0x1B; case 12: return 0x641; case 16: return 0x87; case 32: return 0x425; case 64: return 0x125; case 128: return 0x80043; } vf_fail("model: no polynomial"); return 0; }
static void dbl(u8 *x, unsigned bs)
{
	int c = x[0]>>7; for(unsigned i=0;i<bs;i++) x[i] = (u8)(x[i]<<1 | (i+1<bs ? x[i+1]>>7 : 0));
	if(c){ unsigned p=poly(bs); for(int i=0;i<4;i++) x[bs-1-(unsigned)i] ^= (u8)(p>>(8*i)); }
}
static void cbcmac(const cat_block *b, unsigned r, const u8 *key, unsigned kl, const u8 *kfull, const u8 *kpad, const u8 *msg, size_t n, u8 *tag)
{
	unsigned bs=b->bs; u8 st[128]={0};
	while(n > bs){ for(unsigned i=0;i<bs;i++) st[i]^=msg[i]; m_enc(b,r,key,kl,st,st); msg+=bs; n-=bs; }
	u8 last[128]={0}; if(n) memcpy(last,msg,n);
	const u8 *k=kfull; if(n<bs){ last[n]=0x80; k=kpad; }
	for(unsigned i=0;i<bs;i++) st[i]^=last[i]^k[i];
	m_enc(b,r,key,kl,st,tag);
}
static void cmac(const cat_block *b, unsigned r, const u8 *key, unsigned kl, const u8 *msg, size_t n, u8 *tag)
{
	u8 k1[128]={0},k2[128]; m_enc(b,r,key,kl,k1,k1); dbl(k1,b->bs); memcpy(k2,k1,b->bs); dbl(k2,b->bs);
	cbcmac(b,r,key,kl,k1,k2,msg,n,tag);
}
static void xcbc(const cat_block *b, unsigned r, const u8 *key, unsigned kl, const u8 *msg, size_t n, u8 *tag)
{
	u8 k[3][128]; for(int i=0;i<3;i++){ memset(k[i],i+1,b->bs); m_enc(b,r,key,kl,k[i],k[i]); }
	cbcmac(b,r,k[0],b->bs,k[1],k[2],msg,n,tag);
}
void m_mac(const prim *p, unsigned r, const u8 *key, unsigned kl, const u8 *msg, size_t n, u8 *tag, unsigned tl, unsigned blockov)
{
	u8 t[1024]; refh h;
	switch(p->mode)
	{
	case P_HMAC:
	{
		/* H truncates (or selects its variant) to the tag length; the block is the one the hash advertises */
		unsigned B = blockov ? blockov : p->h->blocksize; u8 k[256]={0}, in[1024];
		if(kl > B){ unsigned d = tl<B?tl:B; ref_hash(p->h->ref,r,0,0,d,key,kl,in,d); memcpy(k,in,d); } else memcpy(k,key,kl);
		refh_init(&h,p->h->ref,r,0,0,tl); for(unsigned i=0;i<B;i++) t[i]=k[i]^0x36; refh_update(&h,t,B); refh_update(&h,msg,n); refh_final(&h,in,tl);
		refh_init(&h,p->h->ref,r,0,0,tl); for(unsigned i=0;i<B;i++) t[i]=k[i]^0x5C; refh_update(&h,t,B); refh_update(&h,in,tl); refh_final(&h,tag,tl);
		return;
	}
	case P_OMAC: cmac(p->b,r,key,kl,msg,n,t); memcpy(tag,t,tl); return;
	case P_XCBC: xcbc(p->b,r,key,kl,msg,n,t); memcpy(tag,t,tl); return;
	case P_KECMAC: refh_init(&h,p->h->ref,r,0,0,tl); refh_update(&h,key,kl); refh_update(&h,msg,n); refh_final(&h,tag,tl); return;
	case P_SKMAC: refh_skein_init(&h,p->h->ref,r,key,kl,0,0,(u64)tl*8); refh_update(&h,msg,n); refh_final(&h,tag,tl); return;
	}
	vf_fail("model: not a MAC");
}
/* ---- ChaCha and Salsa20 on a 4x4 matrix of words */
static u32 rl(u32 x,int n){ return x<<n|x>>(32-n); }
static void cq(u32 *x,int a,int b,int c,int d){ x[a]+=x[b];x[d]=rl(x[d]^x[a],16);x[c]+=x[d];x[b]=rl(x[b]^x[c],12);x[a]+=x[b];x[d]=rl(x[d]^x[a],8);x[c]+=x[d];x[b]=rl(x[b]^x[c],7); }
static void sq(u32 *x,int a,int b,int c,int d){ x[b]^=rl(x[a]+x[d],7);x[c]^=rl(x[b]+x[a],9);x[d]^=rl(x[c]+x[b],13);x[a]^=rl(x[d]+x[c],18); }
static void rounds_of(int salsa,u32 *x,unsigned r)
{
	for(unsigned i=0;i<r;i++) for(int j=0;j<4;j++)
	{
		if(!salsa){ if(i%2==0) cq(x,j,4+j,8+j,12+j); else cq(x,j,4+(j+1)%4,8+(j+2)%4,12+(j+3)%4); }
		else { if(i%2==0){ int a=5*j; sq(x,a,(a+4)%16,(a+8)%16,(a+12)%16); } else { int row=4*j; sq(x,row+j,row+(j+1)%4,row+(j+2)%4,row+(j+3)%4); } }
	}
}
static u32 g32(const u8 *p){ return (u32)p[0]|(u32)p[1]<<8|(u32)p[2]<<16|(u32)p[3]<<24; }
static void p32(u8 *p,u32 v){ for(int i=0;i<4;i++) p[i]=(u8)(v>>(8*i)); }
static void cs_block(int salsa, unsigned r, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, u64 ctr, u8 *out)
{
	static const int CC[4]={0,1,2,3}, SC[4]={0,5,10,15}, CK[8]={4,5,6,7,8,9,10,11}, SK[8]={1,2,3,4,11,12,13,14}, CN[4]={12,13,14,15}, SN[4]={6,7,8,9};
	const int *C=salsa?SC:CC,*K=salsa?SK:CK,*N=salsa?SN:CN;
	char cst[20]; snprintf(cst,sizeof cst,"expand %02u-byte k",kl);
	u8 k[32], n[24]={0}; for(int i=0;i<32;i++) k[i]=key[(unsigned)i%kl]; memcpy(n,iv,ivl);
	u32 x[16], y[16]; if(!r) r=20;
	for(int i=0;i<4;i++) x[C[i]]=g32((u8*)cst+4*i);
	for(int i=0;i<8;i++) x[K[i]]=g32(k+4*i);
	if(ivl > (salsa?8u:12u))
	{
		for(int i=0;i<4;i++) x[N[i]]=g32(n+4*i);
		memcpy(y,x,64); rounds_of(salsa,y,r);
		for(int i=0;i<4;i++){ x[K[i]]=y[C[i]]; x[K[4+i]]=y[N[i]]; }
		memmove(n,n+16,8); ivl = ivl>16?8:0; memset(n+8,0,16);
		if(!ivl) memset(n,0,8);
	}
	if(salsa){ x[N[0]]=g32(n); x[N[1]]=g32(n+4); x[N[2]]=(u32)ctr; x[N[3]]=(u32)(ctr>>32); }
	else if(ivl<=8){ x[12]=(u32)ctr; x[13]=(u32)(ctr>>32); x[14]=g32(n); x[15]=g32(n+4); }
	else { u64 w=((u64)g32(n)<<32)+ctr; x[12]=(u32)w; x[13]=(u32)(w>>32); x[14]=g32(n+4); x[15]=g32(n+8); } /* the library's 64-bit carry */
	memcpy(y,x,64); rounds_of(salsa,y,r);
	for(int i=0;i<16;i++) p32(out+4*i,x[i]+y[i]);
}
void m_keystream_at(const prim *p, unsigned r, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, u64 blk, u8 *out)
{
	if(p->mode==P_CHACHA||p->mode==P_SALSA) cs_block(p->mode==P_SALSA,r,key,kl,iv,ivl,blk,out);
	else { refh h; refh_skein_init(&h,p->h->ref,r,key,kl,iv,ivl,~0ULL); ref_skein_at(&h,blk,0,out,p->h->block); }
}
void m_stream(const prim *p, unsigned r, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, int dec, const u8 *in, u8 *out, size_t n)
{
	u8 st[128]={0}, ks[256]; unsigned bs = p->b ? p->b->bs : 0; refh h;
	switch(p->mode)
	{
	case P_ECB: for(size_t i=0;i<n;i+=bs) if(dec) m_dec(p->b,r,key,kl,in+i,out+i); else m_enc(p->b,r,key,kl,in+i,out+i); return;
	case P_CBC:
		memcpy(st,iv,ivl);
		for(size_t i=0;i<n;i+=bs)
		{
			u8 t[128];
			if(dec){ m_dec(p->b,r,key,kl,in+i,t); for(unsigned j=0;j<bs;j++) t[j]^=st[j]; memcpy(st,in+i,bs); memcpy(out+i,t,bs); }
			else { for(unsigned j=0;j<bs;j++) st[j]^=in[i+j]; m_enc(p->b,r,key,kl,st,st); memcpy(out+i,st,bs); }
		}
		return;
	case P_CFB: case P_OFB: case P_CTR:
		memcpy(st,iv,ivl);
		for(size_t i=0;i<n;i+=bs)
		{
			size_t c = n-i<bs?n-i:bs; u8 o[128];
			m_enc(p->b,r,key,kl,st,ks);
			for(size_t j=0;j<c;j++) o[j]=in[i+j]^ks[j];
			if(p->mode==P_OFB) memcpy(st,ks,bs);
			else if(p->mode==P_CTR){ for(int j=(int)bs-1;j>=0;j--) if(++st[j]) break; }
			else if(dec) memcpy(st,in+i,c); else memcpy(st,o,c);
			memcpy(out+i,o,c);
		}
		return;
	case P_CHACHA: case P_SALSA:
		for(size_t i=0;i<n;i++){ if(i%64==0) cs_block(p->mode==P_SALSA,r,key,kl,iv,ivl,i/64,ks); out[i]=in[i]^ks[i%64]; }
		return;
	case P_RC4:
	{
		u8 s[256],t; unsigned i,j=0; for(i=0;i<256;i++) s[i]=(u8)i;
		for(i=0;i<256;i++){ j=(j+s[i]+key[i%kl])&255; t=s[i]; s[i]=s[j]; s[j]=t; }
		u8 a=0,b2=0; for(size_t k=0;k<n+r;k++){ a++; b2=(u8)(b2+s[a]); t=s[a]; s[a]=s[b2]; s[b2]=t; u8 z=s[(u8)(s[a]+s[b2])]; if(k>=r) out[k-r]=in[k-r]^z; }
		return;
	}
	case P_KECS:
	{
		u8 *k=malloc(n+1); refh_init(&h,p->h->ref,r,0,0,kl); refh_update(&h,key,kl); refh_update(&h,iv,ivl); refh_final(&h,k,n);
		for(size_t i=0;i<n;i++) out[i]=in[i]^k[i]; free(k); return;
	}
	case P_SKS:
	{
		u8 *k=malloc(n+1); refh_skein_init(&h,p->h->ref,r,key,kl,iv,ivl,~0ULL); ref_skein_out(&h,0,k,n);
		for(size_t i=0;i<n;i++) out[i]=in[i]^k[i]; free(k); return;
	}
	}
	vf_fail("model: not a stream");
}
static void prefmac(const prim *m, const cat_block *eax, unsigned r, const u8 *key, unsigned kl, unsigned plen, u8 t, const u8 *msg, size_t n, u8 *tag, unsigned tl)
{
	u8 *b=calloc(1,plen+n+1); b[plen-1]=t; if(n) memcpy(b+plen,msg,n);
	if(eax){ cmac(eax,r,key,kl,b,plen+n,tag); } else m_mac(m,r,key,kl,b,plen+n,tag,tl,0);
	free(b);
}
void m_ae(const prim *p, unsigned r, const u8 *key, unsigned kl, const u8 *iv, unsigned ivl, const u8 *hdr, size_t hl, const u8 *pt, size_t n, u8 *ct, u8 *tag, unsigned tl)
{
	u8 N[256],H[256],C[256];
	if(p->mode==P_EAX)
	{
		unsigned bs=p->b->bs; prim ctr={0}; ctr.mode=P_CTR; ctr.b=p->b;
		prefmac(0,p->b,r,key,kl,bs,0,iv,ivl,N,bs); prefmac(0,p->b,r,key,kl,bs,1,hdr,hl,H,bs);
		m_stream(&ctr,r,key,kl,N,bs,0,pt,ct,n);
		prefmac(0,p->b,r,key,kl,bs,2,ct,n,C,bs);
	}
	else
	{
		unsigned sk=(kl+1)/2, mk; if(sk>p->s->maxkey) sk=p->s->maxkey; mk=kl-sk; if(mk>p->m->maxkey){ mk=p->m->maxkey; sk=kl-mk; }
		prefmac(p->m,0,r,key,mk,tl,0,iv,ivl,N,tl); prefmac(p->m,0,r,key,mk,tl,1,hdr,hl,H,tl);
		m_stream(p->s,r,key+mk,sk,N,tl<p->s->maxiv?tl:p->s->maxiv,0,pt,ct,n);
		prefmac(p->m,0,r,key,mk,tl,2,ct,n,C,tl);
	}
	for(unsigned i=0;i<tl;i++) tag[i]=N[i]^H[i]^C[i];
}
