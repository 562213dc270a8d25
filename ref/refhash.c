#include "refhash.h"
#include "consts.h"
#include <string.h>
#include <stdlib.h>
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
static u32 rol32(u32 x,int n){n&=31;return n?(x<<n)|(x>>(32-n)):x;}
static u32 ror32(u32 x,int n){return rol32(x,32-n);}
static u64 rol64(u64 x,int n){n&=63;return n?(x<<n)|(x>>(64-n)):x;}
static u64 ror64(u64 x,int n){return rol64(x,64-n);}
static u64 be(const u8*p,int n){u64 v=0;for(int i=0;i<n;i++)v=v<<8|p[i];return v;}
static u64 le(const u8*p,int n){u64 v=0;for(int i=n-1;i>=0;i--)v=v<<8|p[i];return v;}
static void pbe(u8*p,u64 v,int n){for(int i=n-1;i>=0;i--){p[i]=(u8)v;v>>=8;}}
static void ple(u8*p,u64 v,int n){for(int i=0;i<n;i++){p[i]=(u8)v;v>>=8;}}

/* ---------------- MD5 (RFC 1321) */
static void md5_c(refh*s,const u8*b){
	static const int S[4][4]={{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
	u32 a=s->w[0],bb=s->w[1],c=s->w[2],d=s->w[3];
	for(int i=0;i<64;i++){
		u32 f;int g;
		switch(i/16){
		case 0:f=(bb&c)|(~bb&d);g=i;break;
		case 1:f=(d&bb)|(~d&c);g=(5*i+1)%16;break;
		case 2:f=bb^c^d;g=(3*i+5)%16;break;
		default:f=c^(bb|~d);g=(7*i)%16;
		}
		u32 t=a+f+K_MD5[i]+(u32)le(b+4*g,4);
		a=d;d=c;c=bb;bb=bb+rol32(t,S[i/16][i%4]);
	}
	s->w[0]+=a;s->w[1]+=bb;s->w[2]+=c;s->w[3]+=d;
}
/* ---------------- SHA-1 (FIPS 180) */
static void sha1_c(refh*s,const u8*b){
	u32 w[80];
	for(int i=0;i<80;i++)w[i]=i<16?(u32)be(b+4*i,4):rol32(w[i-3]^w[i-8]^w[i-14]^w[i-16],1);
	u32 a=s->w[0],bb=s->w[1],c=s->w[2],d=s->w[3],e=s->w[4];
	for(int i=0;i<80;i++){
		u32 f,k;
		if(i<20){f=(bb&c)|(~bb&d);k=0x5a827999;}
		else if(i<40){f=bb^c^d;k=0x6ed9eba1;}
		else if(i<60){f=(bb&c)|(bb&d)|(c&d);k=0x8f1bbcdc;}
		else{f=bb^c^d;k=0xca62c1d6;}
		u32 t=rol32(a,5)+f+e+k+w[i];e=d;d=c;c=rol32(bb,30);bb=a;a=t;
	}
	s->w[0]+=a;s->w[1]+=bb;s->w[2]+=c;s->w[3]+=d;s->w[4]+=e;
}
/* ---------------- SHA-2 */
static void sha256_c(refh*s,const u8*b){
	u32 w[160],v[8];unsigned R=s->rounds;
	for(unsigned i=0;i<R;i++){
		if(i<16)w[i]=(u32)be(b+4*i,4);
		else{u32 x=w[i-15],y=w[i-2];w[i]=w[i-16]+(ror32(x,7)^ror32(x,18)^(x>>3))+w[i-7]+(ror32(y,17)^ror32(y,19)^(y>>10));}
	}
	memcpy(v,s->w,32);
	for(unsigned i=0;i<R;i++){
		u32 a=v[0],e=v[4];
		u32 t1=v[7]+(ror32(e,6)^ror32(e,11)^ror32(e,25))+((e&v[5])^(~e&v[6]))+K_SHA256[i]+w[i];
		u32 t2=(ror32(a,2)^ror32(a,13)^ror32(a,22))+((a&v[1])^(a&v[2])^(v[1]&v[2]));
		memmove(v+1,v,28);v[4]+=t1;v[0]=t1+t2;
	}
	for(int i=0;i<8;i++)s->w[i]+=v[i];
}
static void sha512_c(refh*s,const u8*b){
	u64 w[160],v[8];unsigned R=s->rounds;
	for(unsigned i=0;i<R;i++){
		if(i<16)w[i]=be(b+8*i,8);
		else{u64 x=w[i-15],y=w[i-2];w[i]=w[i-16]+(ror64(x,1)^ror64(x,8)^(x>>7))+w[i-7]+(ror64(y,19)^ror64(y,61)^(y>>6));}
	}
	memcpy(v,s->h,64);
	for(unsigned i=0;i<R;i++){
		u64 a=v[0],e=v[4];
		u64 t1=v[7]+(ror64(e,14)^ror64(e,18)^ror64(e,41))+((e&v[5])^(~e&v[6]))+K_SHA512[i]+w[i];
		u64 t2=(ror64(a,28)^ror64(a,34)^ror64(a,39))+((a&v[1])^(a&v[2])^(v[1]&v[2]));
		memmove(v+1,v,56);v[4]+=t1;v[0]=t1+t2;
	}
	for(int i=0;i<8;i++)s->h[i]+=v[i];
}
/* ---------------- Keccak */
void ref_keccak_f1600(u8 st[200],unsigned rounds){
	u64 a[25];
	for(int i=0;i<25;i++)a[i]=le(st+8*i,8);
	for(unsigned r=0;r<rounds;r++){
		u64 c[5],b[25];
		for(int x=0;x<5;x++)c[x]=a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
		for(int i=0;i<25;i++)a[i]^=c[(i%5+4)%5]^rol64(c[(i%5+1)%5],1);
		for(int y=0;y<5;y++)for(int x=0;x<5;x++)b[y+5*((2*x+3*y)%5)]=rol64(a[x+5*y],(int)(KECCAK_ROT[x+5*y]%64));
		for(int y=0;y<5;y++)for(int x=0;x<5;x++)a[x+5*y]=b[x+5*y]^(~b[(x+1)%5+5*y]&b[(x+2)%5+5*y]);
		a[0]^=K1600_RC[r];
	}
	for(int i=0;i<25;i++)ple(st+8*i,a[i],8);
}
void ref_keccak_f800(u8 st[100],unsigned rounds){
	u32 a[25];
	for(int i=0;i<25;i++)a[i]=(u32)le(st+4*i,4);
	for(unsigned r=0;r<rounds;r++){
		u32 c[5],b[25];
		for(int x=0;x<5;x++)c[x]=a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
		for(int i=0;i<25;i++)a[i]^=c[(i%5+4)%5]^rol32(c[(i%5+1)%5],1);
		for(int y=0;y<5;y++)for(int x=0;x<5;x++)b[y+5*((2*x+3*y)%5)]=rol32(a[x+5*y],(int)(KECCAK_ROT[x+5*y]%32));
		for(int y=0;y<5;y++)for(int x=0;x<5;x++)a[x+5*y]=b[x+5*y]^(~b[(x+1)%5+5*y]&b[(x+2)%5+5*y]);
		a[0]^=K800_RC[r];
	}
	for(int i=0;i<25;i++)ple(st+4*i,a[i],4);
}
static void keccak_perm(refh*s){ if(s->alg==RH_KECCAK800)ref_keccak_f800(s->st,s->rounds);else ref_keccak_f1600(s->st,s->rounds); }
/* ---------------- Tiger; S-boxes generated by the designers' procedure */
static u64 TT[4][256]; static int tt_ready;
static void tiger_round(u64*a,u64*b,u64*c,u64 x,int mul){
	*c^=x;
	*a-=TT[0][*c&255]^TT[1][(*c>>16)&255]^TT[2][(*c>>32)&255]^TT[3][(*c>>48)&255];
	*b+=TT[3][(*c>>8)&255]^TT[2][(*c>>24)&255]^TT[1][(*c>>40)&255]^TT[0][(*c>>56)&255];
	*b*=(u64)mul;
}
static void tiger_ks(u64*x){
	x[0]-=x[7]^0xA5A5A5A5A5A5A5A5ULL;x[1]^=x[0];x[2]+=x[1];x[3]-=x[2]^((~x[1])<<19);
	x[4]^=x[3];x[5]+=x[4];x[6]-=x[5]^((~x[4])>>23);x[7]^=x[6];
	x[0]+=x[7];x[1]-=x[0]^((~x[7])<<19);x[2]^=x[1];x[3]+=x[2];
	x[4]-=x[3]^((~x[2])>>23);x[5]^=x[4];x[6]+=x[5];x[7]-=x[6]^0x0123456789ABCDEFULL;
}
static void tiger_core(u64 st[3],const u8*b,unsigned passes){
	u64 x[8],a=st[0],bb=st[1],c=st[2];
	for(int i=0;i<8;i++)x[i]=le(b+8*i,8);
	for(unsigned p=0;p<passes;p++){
		int mul=p==0?5:p==1?7:9;
		if(p)tiger_ks(x);
		u64*r[3]={&a,&bb,&c};
		for(int i=0;i<8;i++)tiger_round(r[i%3],r[(i+1)%3],r[(i+2)%3],x[i],mul);
		u64 t=a;a=c;c=bb;bb=t;
	}
	st[0]=a^st[0];st[1]=bb-st[1];st[2]=c+st[2];
}
static void tiger_gen(void){
	const char*str="Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham";
	u64 st[3]={0x0123456789ABCDEFULL,0xFEDCBA9876543210ULL,0xF096A5B4C3B2E187ULL};
	for(int i=0;i<1024;i++)TT[i>>8][i&255]=0x0101010101010101ULL*(u64)(i&255);
	int abc=2;
	for(int cnt=0;cnt<5;cnt++)for(int i=0;i<256;i++)for(int sb=0;sb<4;sb++){
		if(++abc==3){abc=0;tiger_core(st,(const u8*)str,3);}
		for(int col=0;col<8;col++){
			u64 m=0xffULL<<(8*col);
			int j=(int)((st[abc]>>(8*col))&255);
			u64 vi=TT[sb][i]&m,vj=TT[sb][j]&m;
			TT[sb][i]=(TT[sb][i]&~m)|vj;
			TT[sb][j]=(TT[sb][j]&~m)|vi;
		}
	}
	tt_ready=1;
}
const uint64_t (*ref_tiger_tables(void))[256]{ if(!tt_ready)tiger_gen(); return TT; }
/* ---------------- Whirlpool: byte-level definition with fast row tables */
static u8 wp_mul(u8 a,u8 b){u8 r=0;while(b){if(b&1)r^=a;a=(u8)((a<<1)^((a&0x80)?0x1d:0));b>>=1;}return r;}
static u8 WM[16][256];static int wm_ready;
static void wp_round(u8 a[64],const u8 k[64]){
	static const u8 cir[8]={1,1,4,1,8,5,2,9};
	u8 b[64],c[64];
	if(!wm_ready){for(int m=0;m<16;m++)for(int x=0;x<256;x++)WM[m][x]=wp_mul((u8)x,(u8)m);wm_ready=1;}
	for(int i=0;i<8;i++)for(int j=0;j<8;j++)b[8*((i+j)%8)+j]=WP_SBOX[a[8*i+j]];
	for(int i=0;i<8;i++)for(int j=0;j<8;j++){
		u8 v=0;
		for(int k2=0;k2<8;k2++)v^=WM[cir[(j-k2+8)%8]][b[8*i+k2]];
		c[8*i+j]=v^k[8*i+j];
	}
	memcpy(a,c,64);
}
static void wp_c(refh*s,const u8*b){
	u8 k[64],x[64],rc[64];
	memcpy(k,s->st,64);
	for(int i=0;i<64;i++)x[i]=b[i]^k[i];
	for(unsigned r=0;r<s->rounds;r++){
		memset(rc,0,64);for(int j=0;j<8;j++)rc[j]=WP_SBOX[8*r+(unsigned)j];
		wp_round(k,rc);wp_round(x,k);
	}
	for(int i=0;i<64;i++)s->st[i]^=x[i]^b[i];
}
/* ---------------- BLAKE / BLAKE2 */
static const u8 SG[10][16]={
{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15},{14,10,4,8,9,15,13,6,1,12,0,2,11,7,5,3},
{11,8,12,0,5,2,15,13,10,14,3,6,7,1,9,4},{7,9,3,1,13,12,11,14,2,6,5,10,4,0,15,8},
{9,0,5,7,2,4,10,15,14,1,11,12,6,8,3,13},{2,12,6,10,0,11,8,3,4,13,7,5,15,14,1,9},
{12,5,1,15,14,13,4,10,0,7,6,3,9,2,8,11},{13,11,7,14,12,1,3,9,5,0,15,4,8,6,2,10},
{6,15,14,9,11,3,0,8,12,2,13,7,1,4,10,5},{10,2,8,4,7,6,1,5,15,11,9,14,3,12,13,0}};
static const u8 GI[8][4]={{0,4,8,12},{1,5,9,13},{2,6,10,14},{3,7,11,15},{0,5,10,15},{1,6,11,12},{2,7,8,13},{3,4,9,14}};
static u64 pi64(int i){return (u64)PI32[2*i]<<32|PI32[2*i+1];}
static void blake256_c(refh*s,const u8*b,u64 t){
	u32 v[16],m[16];
	for(int i=0;i<16;i++)m[i]=(u32)be(b+4*i,4);
	for(int i=0;i<8;i++)v[i]=s->w[i];
	for(int i=0;i<4;i++)v[8+i]=(u32)s->salt[i]^PI32[i];
	v[12]=PI32[4]^(u32)t;v[13]=PI32[5]^(u32)t;v[14]=PI32[6]^(u32)(t>>32);v[15]=PI32[7]^(u32)(t>>32);
	for(unsigned r=0;r<s->rounds;r++)for(int g=0;g<8;g++){
		u32*A=v+GI[g][0],*B=v+GI[g][1],*C=v+GI[g][2],*D=v+GI[g][3];int x=SG[r%10][2*g],y=SG[r%10][2*g+1];
		*A+=*B+(m[x]^PI32[y]);*D=ror32(*D^*A,16);*C+=*D;*B=ror32(*B^*C,12);
		*A+=*B+(m[y]^PI32[x]);*D=ror32(*D^*A,8);*C+=*D;*B=ror32(*B^*C,7);
	}
	for(int i=0;i<8;i++)s->w[i]^=(u32)s->salt[i%4]^v[i]^v[i+8];
}
static void blake512_c(refh*s,const u8*b,u128 t){
	u64 v[16],m[16];
	for(int i=0;i<16;i++)m[i]=be(b+8*i,8);
	for(int i=0;i<8;i++)v[i]=s->h[i];
	for(int i=0;i<4;i++)v[8+i]=s->salt[i]^pi64(i);
	v[12]=pi64(4)^(u64)t;v[13]=pi64(5)^(u64)t;v[14]=pi64(6)^SHR(t,64);v[15]=pi64(7)^SHR(t,64);
	for(unsigned r=0;r<s->rounds;r++)for(int g=0;g<8;g++){
		u64*A=v+GI[g][0],*B=v+GI[g][1],*C=v+GI[g][2],*D=v+GI[g][3];int x=SG[r%10][2*g],y=SG[r%10][2*g+1];
		*A+=*B+(m[x]^pi64(y));*D=ror64(*D^*A,32);*C+=*D;*B=ror64(*B^*C,25);
		*A+=*B+(m[y]^pi64(x));*D=ror64(*D^*A,16);*C+=*D;*B=ror64(*B^*C,11);
	}
	for(int i=0;i<8;i++)s->h[i]^=s->salt[i%4]^v[i]^v[i+8];
}
static void blake2s_c(refh*s,const u8*b,u64 t,int f){
	u32 v[16],m[16];
	for(int i=0;i<16;i++)m[i]=(u32)le(b+4*i,4);
	for(int i=0;i<8;i++){v[i]=s->w[i];v[8+i]=IV_SHA256[i];}
	v[12]^=(u32)t;v[13]^=(u32)(t>>32);if(f)v[14]=~v[14];
	for(unsigned r=0;r<s->rounds;r++)for(int g=0;g<8;g++){
		u32*A=v+GI[g][0],*B=v+GI[g][1],*C=v+GI[g][2],*D=v+GI[g][3];
		*A+=*B+m[SG[r%10][2*g]];*D=ror32(*D^*A,16);*C+=*D;*B=ror32(*B^*C,12);
		*A+=*B+m[SG[r%10][2*g+1]];*D=ror32(*D^*A,8);*C+=*D;*B=ror32(*B^*C,7);
	}
	for(int i=0;i<8;i++)s->w[i]^=v[i]^v[i+8];
}
static void blake2b_c(refh*s,const u8*b,u128 t,int f){
	u64 v[16],m[16];
	for(int i=0;i<16;i++)m[i]=le(b+8*i,8);
	for(int i=0;i<8;i++){v[i]=s->h[i];v[8+i]=IV_SHA512[i];}
	v[12]^=(u64)t;v[13]^=SHR(t,64);if(f)v[14]=~v[14];
	for(unsigned r=0;r<s->rounds;r++)for(int g=0;g<8;g++){
		u64*A=v+GI[g][0],*B=v+GI[g][1],*C=v+GI[g][2],*D=v+GI[g][3];
		*A+=*B+m[SG[r%10][2*g]];*D=ror64(*D^*A,32);*C+=*D;*B=ror64(*B^*C,24);
		*A+=*B+m[SG[r%10][2*g+1]];*D=ror64(*D^*A,16);*C+=*D;*B=ror64(*B^*C,63);
	}
	for(int i=0;i<8;i++)s->h[i]^=v[i]^v[i+8];
}
/* ---------------- Threefish / Skein 1.3 */
static const u8 TFR4[8][2]={{14,16},{52,57},{23,40},{5,37},{25,33},{46,12},{58,22},{32,32}};
static const u8 TFR8[8][4]={{46,36,19,37},{33,27,14,42},{17,49,36,39},{44,9,54,56},{39,30,34,24},{13,50,10,17},{25,29,39,43},{8,35,56,22}};
static const u8 TFR16[8][8]={{24,13,8,47,8,17,22,37},{38,19,10,55,49,18,23,52},{33,4,51,13,34,41,59,17},{5,20,48,41,47,28,16,25},
{41,9,37,31,12,47,44,30},{16,34,56,51,4,53,42,41},{31,44,47,46,19,42,44,25},{9,48,35,52,23,31,37,20}};
static const u8 TFP4[4]={0,3,2,1},TFP8[8]={2,1,4,7,6,5,0,3},TFP16[16]={0,9,2,13,6,11,4,15,10,7,12,3,14,5,8,1};
static int tf_rot(int nw,unsigned d,int j){d%=8;return nw==4?TFR4[d][j]:nw==8?TFR8[d][j]:TFR16[d][j];}
static const u8*tf_perm(int nw){return nw==4?TFP4:nw==8?TFP8:TFP16;}
static void tf_subkey(int nw,const u64*k,const u64*t,unsigned s,u64*out){
	for(int i=0;i<nw;i++){
		u64 v=k[(s+(unsigned)i)%(unsigned)(nw+1)];
		if(i==nw-3)v+=t[s%3];
		if(i==nw-2)v+=t[(s+1)%3];
		if(i==nw-1)v+=s;
		out[i]=v;
	}
}
static void tf_setup(int nw,const u8*key,const u8*tweak,u64*k,u64*t){
	k[nw]=0x1BD11BDAA9FC1A22ULL;
	for(int i=0;i<nw;i++){k[i]=le(key+8*i,8);k[nw]^=k[i];}
	t[0]=le(tweak,8);t[1]=le(tweak+8,8);t[2]=t[0]^t[1];
}
void ref_threefish(int nw,unsigned rounds,const u8*key,const u8 tweak[16],const u8*in,u8*out){
	u64 k[17],t[3],v[16],sk[16],f[16];
	tf_setup(nw,key,tweak,k,t);
	for(int i=0;i<nw;i++)v[i]=le(in+8*i,8);
	for(unsigned d=0;d<rounds;d++){
		if(d%4==0){tf_subkey(nw,k,t,d/4,sk);for(int i=0;i<nw;i++)v[i]+=sk[i];}
		for(int j=0;j<nw/2;j++){u64 a=v[2*j],b=v[2*j+1];a+=b;b=rol64(b,tf_rot(nw,d,j))^a;f[2*j]=a;f[2*j+1]=b;}
		for(int i=0;i<nw;i++)v[i]=f[tf_perm(nw)[i]];
	}
	tf_subkey(nw,k,t,rounds/4,sk);
	for(int i=0;i<nw;i++)ple(out+8*i,v[i]+sk[i],8);
}
void ref_threefish_dec(int nw,unsigned rounds,const u8*key,const u8 tweak[16],const u8*in,u8*out){
	u64 k[17],t[3],v[16],sk[16],f[16];
	tf_setup(nw,key,tweak,k,t);
	tf_subkey(nw,k,t,rounds/4,sk);
	for(int i=0;i<nw;i++)v[i]=le(in+8*i,8)-sk[i];
	for(unsigned d=rounds;d-->0;){
		for(int i=0;i<nw;i++)f[tf_perm(nw)[i]]=v[i];
		for(int j=0;j<nw/2;j++){u64 a=f[2*j],b=ror64(f[2*j+1]^a,tf_rot(nw,d,j));v[2*j]=a-b;v[2*j+1]=b;}
		if(d%4==0){tf_subkey(nw,k,t,d/4,sk);for(int i=0;i<nw;i++)v[i]-=sk[i];}
	}
	for(int i=0;i<nw;i++)ple(out+8*i,v[i],8);
}
static void ubi_block(refh*s,const u8*blk,u128 pos,int type,int first,int final){
	u8 tw[16],o[128];
	ple(tw,(u64)pos,8);ple(tw+8,SHR(pos,64),4);ple(tw+12,0,3);
	tw[15]=(u8)(type|(first?0x40:0)|(final?0x80:0));
	ref_threefish((int)s->bs/8,s->rounds,s->st,tw,blk,o);
	for(unsigned i=0;i<s->bs;i++)s->st[i]=o[i]^blk[i];
}
static void ubi(refh*s,const u8*m,size_t len,int type){
	u8 blk[128];size_t p=0;
	do{
		size_t n=len-p>s->bs?s->bs:len-p;
		memset(blk,0,128);if(n)memcpy(blk,m+p,n);
		ubi_block(s,blk,p+n,type,p==0,p+n==len);
		p+=n;
	}while(p<len);
}
void refh_skein_init(refh*s,int alg,unsigned rounds,const void*key,size_t key_len,const void*nonce,size_t nonce_len,u64 out_bits){
	u8 cfg[32]={'S','H','A','3',1,0,0,0};
	memset(s,0,sizeof*s);
	s->alg=alg;s->bs=alg==RH_SKEIN256?32:alg==RH_SKEIN512?64:128;
	s->rounds=rounds?rounds:(alg==RH_SKEIN1024?80:72);
	s->lazy=1;s->first=1;
	if(key_len)ubi(s,key,key_len,0);
	ple(cfg+8,out_bits,8);
	ubi(s,cfg,32,4);
	if(nonce_len)ubi(s,nonce,nonce_len,20);
}
/* n bytes of output from byte o of block idx on */
void ref_skein_at(refh*s,u64 idx,size_t o,void*out,size_t n){
	u8 g[128];memcpy(g,s->st,128);
	while(n){
		u8 ctr[8];ple(ctr,idx++,8);
		memcpy(s->st,g,128);ubi(s,ctr,8,63);
		size_t c=s->bs-o>n?n:s->bs-o;
		memcpy(out,s->st+o,c);out=(u8*)out+c;n-=c;o=0;
	}
	memcpy(s->st,g,128);
}
void ref_skein_out(refh*s,u64 offset,void*out,size_t n){ref_skein_at(s,offset/s->bs,offset%s->bs,out,n);}
/* ---------------- generic layer */
static void compress(refh*s,const u8*b,int final){
	switch(s->alg){
	case RH_MD5:md5_c(s,b);break;
	case RH_SHA1:sha1_c(s,b);break;
	case RH_SHA2_256:sha256_c(s,b);break;
	case RH_SHA2_512:sha512_c(s,b);break;
	case RH_SHA3:case RH_KECCAK1600:case RH_KECCAK800:
		for(unsigned i=0;i<s->bs;i++)s->st[i]^=b[i];
		keccak_perm(s);break;
	case RH_TIGER:tiger_core(s->h,b,s->rounds);break;
	case RH_WHIRLPOOL:wp_c(s,b);break;
	case RH_BLAKE256:blake256_c(s,b,(u64)(s->len*8));break;
	case RH_BLAKE512:blake512_c(s,b,s->len*8);break;
	case RH_BLAKE2S:blake2s_c(s,b,(u64)s->len,final);break;
	case RH_BLAKE2B:blake2b_c(s,b,s->len,final);break;
	case RH_SKEIN256:case RH_SKEIN512:case RH_SKEIN1024:
		ubi_block(s,b,s->len,48,s->first,final);s->first=0;break;
	}
}
void refh_init(refh*s,int alg,unsigned rounds,const void*salt,unsigned sl,unsigned outlen){
	u8 sp[32]={0};
	if(alg>=RH_SKEIN256){refh_skein_init(s,alg,rounds,0,0,salt,sl,(u64)outlen*8);s->outlen=outlen;return;}
	memset(s,0,sizeof*s);s->alg=alg;s->outlen=outlen;s->bs=64;
	if(sl)memcpy(sp,salt,sl<32?sl:32);
	switch(alg){
	case RH_MD5:case RH_SHA1:{static const u32 iv[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};memcpy(s->w,iv,20);break;}
	case RH_SHA2_256:s->rounds=rounds?rounds:64;memcpy(s->w,outlen>28?IV_SHA256:IV_SHA224,32);break;
	case RH_SHA2_512:s->bs=128;s->rounds=rounds?rounds:80;memcpy(s->h,outlen>48?IV_SHA512:IV_SHA384,64);break;
	case RH_SHA3:case RH_KECCAK1600:s->rounds=rounds?rounds:24;s->bs=200-2*outlen;break;
	case RH_KECCAK800:s->rounds=rounds?rounds:22;s->bs=100-2*outlen;break;
	case RH_TIGER:if(!tt_ready)tiger_gen();s->rounds=rounds?rounds:3;s->h[0]=0x0123456789ABCDEFULL;s->h[1]=0xFEDCBA9876543210ULL;s->h[2]=0xF096A5B4C3B2E187ULL;break;
	case RH_WHIRLPOOL:s->rounds=rounds?rounds:10;break;
	case RH_BLAKE256:s->rounds=rounds?rounds:14;memcpy(s->w,outlen>28?IV_SHA256:IV_SHA224,32);for(int i=0;i<4;i++)s->salt[i]=be(sp+4*i,4);break;
	case RH_BLAKE512:s->bs=128;s->rounds=rounds?rounds:16;memcpy(s->h,outlen>48?IV_SHA512:IV_SHA384,64);for(int i=0;i<4;i++)s->salt[i]=be(sp+8*i,8);break;
	case RH_BLAKE2S:s->lazy=1;s->rounds=rounds?rounds:10;for(int i=0;i<8;i++)s->w[i]=IV_SHA256[i];
		s->w[0]^=0x01010000^outlen;s->w[4]^=(u32)le(sp,4);s->w[5]^=(u32)le(sp+4,4);break;
	case RH_BLAKE2B:s->bs=128;s->lazy=1;s->rounds=rounds?rounds:12;for(int i=0;i<8;i++)s->h[i]=IV_SHA512[i];
		s->h[0]^=0x01010000^outlen;s->h[4]^=le(sp,8);s->h[5]^=le(sp+8,8);break;
	}
}
void refh_update(refh*s,const void*in,size_t len){
	const u8*p=in;
	while(len){
		if(s->lazy&&s->n==s->bs){compress(s,s->buf,0);s->n=0;}
		size_t c=s->bs-s->n;if(c>len)c=len;
		memcpy(s->buf+s->n,p,c);s->n+=(unsigned)c;s->len+=c;p+=c;len-=c;
		if(!s->lazy&&s->n==s->bs){compress(s,s->buf,0);s->n=0;}
	}
}
static void md_final(refh*s,u8 first,int lenbytes,int bigend){
	u8 b[256];unsigned n=s->n,bs=s->bs;u128 bits=s->len*8;
	memset(b,0,sizeof b);memcpy(b,s->buf,n);b[n]=first;
	unsigned tot=n+1+(unsigned)lenbytes<=bs?bs:2*bs;
	for(int i=0;i<lenbytes&&i<16;i++){u8 v=(u8)SHR(bits,8*i);if(bigend)b[tot-1-(unsigned)i]=v;else b[tot-(unsigned)lenbytes+(unsigned)i]=v;}
	compress(s,b,0);if(tot>bs)compress(s,b+bs,0);
}
void refh_final(refh*s,void*out,size_t n){
	u8 o[64];memset(o,0,64);
	switch(s->alg){
	case RH_MD5:md_final(s,0x80,8,0);for(int i=0;i<4;i++)ple(o+4*i,s->w[i],4);break;
	case RH_SHA1:md_final(s,0x80,8,1);for(int i=0;i<5;i++)pbe(o+4*i,s->w[i],4);break;
	case RH_SHA2_256:md_final(s,0x80,8,1);for(int i=0;i<8;i++)pbe(o+4*i,s->w[i],4);break;
	case RH_SHA2_512:md_final(s,0x80,16,1);for(int i=0;i<8;i++)pbe(o+8*i,s->h[i],8);break;
	case RH_TIGER:md_final(s,0x01,8,0);for(int i=0;i<3;i++)ple(o+8*i,s->h[i],8);break;
	case RH_WHIRLPOOL:md_final(s,0x80,32,1);memcpy(o,s->st,64);break;
	case RH_SHA3:case RH_KECCAK1600:case RH_KECCAK800:{
		u8 b[200]={0};memcpy(b,s->buf,s->n);b[s->n]^=s->alg==RH_SHA3?0x06:0x01;b[s->bs-1]^=0x80;
		compress(s,b,0);
		u8*p=out;unsigned k=0;
		while(n--){if(k==s->bs){keccak_perm(s);k=0;}*p++=s->st[k++];}
		return;}
	case RH_BLAKE256:case RH_BLAKE512:{
		int big=s->alg==RH_BLAKE512;unsigned bs=s->bs,ll=big?16:8;u8 b[256]={0};unsigned k=s->n;
		memcpy(b,s->buf,k);b[k]=0x80;
		unsigned tot=k+1+ll<=bs?bs:2*bs;
		if(s->outlen>(big?48U:28U))b[tot-ll-1]|=1;
		u128 bits=s->len*8;
		for(unsigned i=0;i<ll;i++)b[tot-1-i]=(u8)SHR(bits,8*i);
		/* counter of a block: message bits up to its end, zero if it holds none */
		if(big){
			blake512_c(s,b,k?bits:0);if(tot>bs)blake512_c(s,b+bs,0);
			for(int i=0;i<8;i++)pbe(o+8*i,s->h[i],8);
		}else{
			blake256_c(s,b,k?(u64)bits:0);if(tot>bs)blake256_c(s,b+bs,0);
			for(int i=0;i<8;i++)pbe(o+4*i,s->w[i],4);
		}
		break;}
	case RH_BLAKE2S:memset(s->buf+s->n,0,s->bs-s->n);compress(s,s->buf,1);for(int i=0;i<8;i++)ple(o+4*i,s->w[i],4);break;
	case RH_BLAKE2B:memset(s->buf+s->n,0,s->bs-s->n);compress(s,s->buf,1);for(int i=0;i<8;i++)ple(o+8*i,s->h[i],8);break;
	case RH_SKEIN256:case RH_SKEIN512:case RH_SKEIN1024:
		memset(s->buf+s->n,0,s->bs-s->n);compress(s,s->buf,1);
		ref_skein_out(s,0,out,n);return;
	}
	memcpy(out,o,n);
}
void ref_hash(int alg,unsigned rounds,const void*salt,unsigned sl,unsigned outlen,const void*in,size_t len,void*out,size_t n){
	refh s;refh_init(&s,alg,rounds,salt,sl,outlen);refh_update(&s,in,len);refh_final(&s,out,n);
}
