/* Load, store and rotate helpers of the public headers, compiled in the configuration under test. */
#include "vf.h"
#include <kripto/loadstore.h>
#include <kripto/rotate.h>
#include "helpers_gen.h"
static u64 mask(int b){ return b==64?~0ULL:(1ULL<<b)-1; }
static u64 mrol(u64 x, int b, unsigned r){ r%=(unsigned)b; x&=mask(b); return r?((x<<r)|(x>>(b-r)))&mask(b):x; }
static long npat(int b){ return b<=16?(1L<<b):b+b*b+2*b+600; }
static u64 pat(int b, long i)
{
	if(b<=16) return (u64)i;
	if(i<b) return 1ULL<<i; i-=b;
	if(i<b*b) return (1ULL<<(i/b))|(1ULL<<(i%b)); i-=b*b;
	if(i<b) return mask(b)^(1ULL<<i); i-=b;
	if(i<b) return mask(b)>>i; i-=b;
	u64 z=((u64)i+1)*0x9E3779B97F4A7C15ULL; z^=z>>29; z*=0xBF58476D1CE4E5B9ULL; z^=z>>32; return z&mask(b);
}
#define ROT(b) static void rot##b(void) \
{ \
	for(int d=0;d<2;d++) for(unsigned r=0;r<(b);r++) for(long blk=0;blk<npat(b);blk+=256) if(vf_case("rotate %ld bits, direction %ld, by %ld, values from %ld",(long)(b),(long)d,(long)r,blk)) \
	{ \
		for(long i=blk;i<blk+256&&i<npat(b);i++) \
		{ \
			u64 x=pat(b,i), w=mrol(x,b,d?(b)-r:r), g=d?ROR##b((uint##b##_t)x,r):ROL##b((uint##b##_t)x,r); vf_trans(1); vf_validated(1); \
			if(g!=w) vf_fail("RO%c%d(%llx,%u) is %llx, should be %llx",d?'R':'L',b,(unsigned long long)x,r,(unsigned long long)g,(unsigned long long)w); \
			if(r){ g=(d?ROR##b##_fixed:ROL##b##_fixed)[r-1]((uint##b##_t)x); vf_trans(1); vf_validated(1); if(g!=w) vf_fail("RO%c%d_%02u(%llx) is %llx, should be %llx",d?'R':'L',b,r,(unsigned long long)x,(unsigned long long)g,(unsigned long long)w); } \
		} \
		vf_nontrivial(1); u64 h=(u64)blk*1000+r*2+(u64)d; vf_state2(b,&h,8); \
	} \
}
ROT(8) ROT(16) ROT(32) ROT(64)
/* In the big-endian configuration the B helpers copy words in the machine's own order.  This machine's
   order is little-endian, so there a right copy yields the little-endian value (its mirror image); an L
   helper may be written byte by byte (documented value) or as a swapped copy (mirror image). */
#ifdef KRIPTO_BIG_ENDIAN
#define MIRROR 1
#else
#define MIRROR 0
#endif
static u64 bytes_of(const u8 *p, int n, int be){ u64 v=0; for(int i=0;i<n;i++) v|=(u64)p[i]<<(8*(be?n-1-i:i)); return v; }
#define LS(b) static void ls##b(void) \
{ \
	enum { N=(b)/8, W=64/N+8 }; static u8 m[64] __attribute__((aligned(64))); \
	for(int al=0;al<8;al++) for(int pos=0;pos<N;pos++) for(int bg=0;bg<4;bg++) if(vf_case("%ld-bit load and store, alignment %ld, byte %ld, background %ld",(long)(b),(long)al,(long)pos,(long)bg)) \
	for(int v=0;v<256;v++) \
	{ \
		u8 *p=m+16+al, s[64]; for(int i=0;i<64;i++) m[i]=bg==0?0:bg==1?0xFF:bg==2?(u8)(i*37+1):0xE1; p[pos]=(u8)v; memcpy(s,m,64); \
		uint##b##_t l=LOAD##b##L(p), g=LOAD##b##B(p); vf_trans(4); vf_validated(4); \
		if(l!=(uint##b##_t)bytes_of(p,N,0)&&!(MIRROR&&l==(uint##b##_t)bytes_of(p,N,1))) vf_fail("LOAD%dL gives %llx",b,(unsigned long long)l); \
		if(g!=(uint##b##_t)bytes_of(p,N,!MIRROR)) vf_fail("LOAD%dB gives %llx",b,(unsigned long long)g); \
		if(memcmp(s,m,64)) vf_fail("a load writes memory"); \
		uint##b##_t x=(uint##b##_t)bytes_of(p,N,0); \
		for(int be=0;be<2;be++) for(int fl=0;fl<2;fl++){ memset(m,fl?0xFF:0,64); if(be) STORE##b##B(x,p); else STORE##b##L(x,p); for(int i=0;i<64;i++){ int k=i-16-al; u8 w=k>=0&&k<N?(u8)(x>>(8*(be&&!MIRROR?N-1-k:k))):fl?0xFF:0; if(m[i]!=w&&!(MIRROR&&!be&&k>=0&&k<N&&m[i]==(u8)(x>>(8*(N-1-k))))) vf_fail("STORE%d%c of %llx: byte %d relative to the destination is %02x",b,be?'B':'L',(unsigned long long)x,k,m[i]); } } \
		vf_nontrivial(1); u64 h=(u64)v*64+(u64)pos*8+(u64)bg; vf_state2(b+1,&h,8); \
	} \
	static u8 src[96]; static uint##b##_t w[W]; static u8 o[160]; \
	for(int n=0;n<=64;n++) for(int al=0;al<8;al++) for(int f=0;f<3;f++) for(int be=0;be<2;be++) if(vf_case("%ld-bit array of %ld bytes, alignment %ld, filling %ld, big endian %ld",(long)(b),(long)n,(long)al,(long)f,(long)be)) \
	{ \
		for(int i=0;i<96;i++) src[i]=f==0?0xFF:f==1?(u8)(i*73+9):(u8)(1<<(i&7)); \
		memset(w,0,sizeof w); if(be) LOAD##b##B_ARRAY(src+al,w,(unsigned)n); else LOAD##b##L_ARRAY(src+al,w,(unsigned)n); vf_trans(1); \
		for(int i=0;i<64/N;i++){ u8 t[8]={0}; for(int k=0;k<N;k++) if(i*N+k<n) t[k]=src[al+i*N+k]; vf_validated(1); if(w[i]!=(uint##b##_t)bytes_of(t,N,be&&!MIRROR)&&!(MIRROR&&!be&&w[i]==(uint##b##_t)bytes_of(t,N,1))) vf_fail("LOAD%d%c_ARRAY of %d bytes: word %d is %llx",b,be?'B':'L',n,i,(unsigned long long)w[i]); } \
		for(int i=n/N+(n%N!=0);i<W;i++) if(w[i]) vf_fail("LOAD%d%c_ARRAY writes word %d",b,be?'B':'L',i); \
		/* back, from every starting byte */ \
		for(int i=0;i<W;i++){ u8 t[8]; for(int k=0;k<N;k++) t[k]=src[(i*N+k)%96]; w[i]=(uint##b##_t)bytes_of(t,N,be&&!MIRROR); } \
		for(int st=0;st<=16 && st+n<=16*N;st++) for(int fl=0;fl<2;fl++) \
		{ \
			memset(o,fl?0xFF:0,sizeof o); if(be) STORE##b##B_ARRAY(w,(unsigned)st,o+16+al,(unsigned)n); else STORE##b##L_ARRAY(w,(unsigned)st,o+16+al,(unsigned)n); vf_trans(1); vf_validated(1); \
			for(int i=0;i<160;i++){ int k=i-16-al; u8 want=k>=0&&k<n?src[(st+k)%96]:fl?0xFF:0; if(o[i]!=want&&!(MIRROR&&!be&&k>=0&&k<n&&o[i]==src[((st+k)/N*N+N-1-(st+k)%N)%96])) vf_fail("STORE%d%c_ARRAY from byte %d, %d bytes: byte %d is %02x, should be %02x",b,be?'B':'L',st,n,k,o[i],want); } \
		} \
		vf_nontrivial(1); \
	} \
}
LS(16) LS(32) LS(64)
static void run(void *a){ switch((int)(intptr_t)a){ case 0: rot8(); break; case 1: rot16(); break; case 2: rot32(); break; case 3: rot64(); break; case 4: ls16(); break; case 5: ls32(); break; default: ls64(); } }
void helpers_units(void){ static const char *const n[]={"rotate8","rotate16","rotate32","rotate64","loadstore16","loadstore32","loadstore64"}; for(int i=0;i<7;i++) vf_unit(run,(void*)(intptr_t)i,"helpers/%s",n[i]); }
