/* K03 PKCS#7, X09 random source, X10 its self-test, X11 wipe and equality. */
#define _GNU_SOURCE
#include "vf.h"
#include "guard.h"
#include <math.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <kripto/pkcs7.h>
#include <kripto/memory.h>
#include <kripto/random.h>
static long ARG(void *a){ return (long)(intptr_t)a; }
/* ------------------------------------------------------------ K03 */
static void add1(guard *g, size_t len, unsigned pad, size_t cap, int side)
{
	unsigned char *b=guard_at(g,cap,side); size_t keep=len<cap?len:cap, want=len+(pad-len%pad);
	for(size_t i=0;i<cap;i++) b[i]=(u8)(i*37+11);
	size_t r=kripto_pkcs7_add(b,len,pad,cap); vf_trans(1); vf_validated(1);
	guard_check(g,cap,side,"padding");
	for(size_t i=0;i<keep;i++) if(b[i]!=(u8)(i*37+11)) vf_fail("message byte %zu changed by padding",i);
	if(want>cap){ if(r!=0) vf_fail("padding to %zu bytes reported as %zu although the buffer has %zu",want,r,cap); return; }
	if(r!=want) vf_fail("padded length %zu, should be %zu",r,want);
	for(size_t i=len;i<want;i++) if(b[i]!=(u8)(want-len)) vf_fail("padding byte %zu is %u",i,b[i]);
	for(size_t i=want;i<cap;i++) if(b[i]!=(u8)(i*37+11)) vf_fail("byte %zu beyond the padding written",i);
	vf_nontrivial(1);
	size_t q=kripto_pkcs7_rem(b,r); vf_trans(1); vf_validated(1);
	if(q!=len) vf_fail("removal gives %zu, should be %zu",q,len);
	for(size_t i=0;i<len;i++) if(b[i]!=(u8)(i*37+11)) vf_fail("message byte %zu changed by removal",i);
	guard_check(g,cap,side,"removal");
}
static void u_pad(void *a)
{
	guard g=guard_new(8192); long part=ARG(a); size_t L=vf_thorough?1100:530;
	for(unsigned pad=1;pad<=255;pad++) if((long)(pad%16)==part) for(size_t len=0;len<=L;len++)
	{
		size_t want=len+(pad-len%pad);
		size_t caps[12]={0,1,len/2,len?len-1:0,len,len+1,want-1,want,want+1,want+2,want+300,len+(want-len)/2}; u64 h=((u64)pad<<32)|len; vf_state(&h,8);
		for(int c=0;c<12;c++) for(int s=0;s<2;s++) if(vf_case("length %ld, block size %ld, capacity %ld, side %ld",(long)len,(long)pad,(long)caps[c],(long)s)) add1(&g,len,pad,caps[c],s);
		if(len<=(vf_thorough?70:34)) for(size_t cap=0;cap<=want+3;cap++) if(vf_case("length %ld, block size %ld, capacity %ld",(long)len,(long)pad,(long)cap)) add1(&g,len,pad,cap,0);
	}
}
static void u_rem(void *a)
{
	guard g=guard_new(8192); size_t L=vf_thorough?1100:600; (void)a;
	for(size_t len=0;len<=L;len++) for(int v=0;v<256;v++) for(int f=0;f<5;f++) for(int s=0;s<2;s++)
	if((s==0||len<300) && vf_case("length %ld, last byte %ld, filling %ld, side %ld",(long)len,(long)v,(long)f,(long)s))
	{
		u8 *b=guard_at(&g,len,s), o[1200];
		for(size_t i=0;i<len;i++) b[i]=f==0?(u8)v:f==1?0:f==2?0xFF:f==3?(u8)(v-1):(u8)(i*37+11);
		if(f==4 && len) for(size_t i=0;i<(size_t)v && i<len;i++) b[len-1-i]=(u8)v;
		if(len) b[len-1]=(u8)v;
		memcpy(o,b,len); size_t r=kripto_pkcs7_rem(b,len); vf_trans(1); vf_validated(1);
		if(r>len) vf_fail("removal from %zu bytes gives %zu",len,r);
		if(memcmp(o,b,len)) vf_fail("removal writes to the buffer");
		guard_check(&g,len,s,"removal"); vf_nontrivial(1); u64 h=len*256+(u64)v; vf_state(&h,8);
		if(v && (size_t)v<=len && (f==0||f==4) && r!=len-(size_t)v) vf_fail("removal of %d bytes of padding from %zu gives %zu",v,len,r);
	}
	/* every pair of final bytes */
	for(size_t len=1;len<=20;len++) for(int x=0;x<65536;x++) if(vf_case("length %ld, last two bytes %04lx",(long)len,(long)x))
	{ u8 b[32]; memset(b,7,32); b[5+len]=(u8)x; if(len>1) b[4+len]=(u8)(x>>8); b[5+len]=0; u8 *m=b+5; m[len-1]=(u8)x; if(len>1) m[len-2]=(u8)(x>>8); size_t r=kripto_pkcs7_rem(m,len); vf_trans(1); vf_validated(1); if(r>len) vf_fail("removal from %zu bytes gives %zu",len,r); }
}
/* ------------------------------------------------------------ X11 */
static void u_wipe(void *a)
{
	guard g=guard_new(16384); long part=ARG(a);
	size_t L=vf_thorough?4200:1100;
	for(size_t n=0;n<=L;n++) if((long)(n%8)==part) for(int s=0;s<2;s++) for(int f=0;f<4;f++) if(vf_case("wipe %ld bytes, side %ld, filling %ld",(long)n,(long)s,(long)f))
	{
		u8 *b=guard_at(&g,n,s); for(size_t i=0;i<n;i++) b[i]=f==0?0xFF:f==1?(u8)(i+1):f==2?0x80:0x01;
		kripto_memory_wipe(b,n); vf_trans(1); vf_validated(1); for(size_t i=0;i<n;i++) if(b[i]) vf_fail("byte %zu of %zu not wiped",i,n);
		guard_check(&g,n,s,"wipe"); vf_nontrivial(1); u64 h=n*2+(u64)s; vf_state(&h,8);
	}
	for(size_t n=0;n<=200;n++) if((long)(n%8)==part) for(int al=0;al<64;al++) if(vf_case("wipe %ld bytes at alignment %ld",(long)n,(long)al))
	{
		static u8 x[600] __attribute__((aligned(64))); memset(x,0xEE,sizeof x); kripto_memory_wipe(x+64+al,n); vf_trans(1); vf_validated(1);
		for(size_t i=0;i<sizeof x;i++){ int in=i>=64u+al&&i<64u+al+n; if(in?x[i]!=0:x[i]!=0xEE) vf_fail("byte %ld relative to the range is %02x",(long)i-64-al,x[i]); }
		vf_nontrivial(1);
	}
	static const size_t big[]={4095,4096,4097,8191,8192,65535,65536,65537,1<<20,(1<<20)+1,(1<<24)+7};
	if(part==0) for(int k=0;k<11;k++) if(vf_case("wipe %ld bytes",(long)big[k]))
	{ u8 *x=malloc(big[k]+64); memset(x,0xEE,big[k]+64); kripto_memory_wipe(x+32,big[k]); vf_trans(1); vf_validated(1); for(size_t i=0;i<big[k]+64;i++){ int in=i>=32&&i<32+big[k]; if(in?x[i]!=0:x[i]!=0xEE) vf_fail("byte %ld of %zu is %02x",(long)i-32,big[k],x[i]); } free(x); vf_nontrivial(1); }
	/* beyond 32 bits: one length, sparse memory */
	if(part==1 && vf_thorough) if(vf_case("wipe %ld bytes",(long)((1UL<<32)+5)))
	{ size_t n=(1UL<<32)+5; u8 *x=mmap(0,n+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(x==MAP_FAILED) return; x[0]=x[4]=x[5]=x[n-1]=x[n]=x[1UL<<31]=x[(1UL<<32)-1]=x[1UL<<32]=1; kripto_memory_wipe(x,n); if(x[0]|x[4]|x[5]|x[n-1]|x[1UL<<31]|x[(1UL<<32)-1]|x[1UL<<32]) vf_fail("long range not wiped"); if(!x[n]) vf_fail("wiped too much"); munmap(x,n+4096); vf_validated(1); }
}
static void eq1(const u8 *a, const u8 *b, size_t n, int want){ int r=kripto_memory_equals(a,b,n); vf_trans(1); vf_validated(1); if(!!r!=want) vf_fail("%zu bytes that %s reported %s",n,want?"agree":"differ",r?"equal":"different"); }
static void u_eq(void *a)
{
	guard g=guard_new(8192), h=guard_new(8192); long part=ARG(a); size_t L=vf_thorough?2100:700;
	for(size_t n=0;n<=L;n++) if((long)(n%8)==part) for(int s=0;s<2;s++) for(int f=0;f<3;f++) if(vf_case("compare %ld bytes, side %ld, filling %ld",(long)n,(long)s,(long)f))
	{
		u8 *x=guard_at(&g,n,s),*y=guard_at(&h,n,s); u8 keep[4096]; for(size_t i=0;i<n;i++) x[i]=y[i]=f==0?0:f==1?0xFF:(u8)(i*73+5);
		eq1(x,y,n,1); memcpy(keep,x,n);
		/* every position, every bit; every value for short ranges */
		for(size_t i=0;i<n;i++)
		{
			if(n<=64||vf_thorough) for(int v=1;v<256;v++){ y[i]^=(u8)v; eq1(x,y,n,0); y[i]^=(u8)v; }
			else for(int v=0;v<8;v++){ y[i]^=(u8)(1<<v); eq1(x,y,n,0); y[i]^=(u8)(1<<v); }
			y[i]^=0x80; eq1(y,x,n,0); y[i]^=0x80;
		}
		/* every pair of positions with equal and opposite differences */
		if(n<=64) for(size_t i=0;i<n;i++) for(size_t j=0;j<i;j++) for(int v=0;v<10;v++)
		{ int d=v<8?1<<v:v==8?0xFF:0x55; y[i]^=(u8)d; y[j]^=(u8)d; eq1(x,y,n,0); y[i]=x[i]; y[j]=x[j]; y[i]=(u8)(y[i]+d); y[j]=(u8)(y[j]-d); eq1(x,y,n,0); y[i]=x[i]; y[j]=x[j]; u8 t=y[i]; if(x[i]!=x[j]){ y[i]=y[j]; y[j]=t; eq1(x,y,n,0); y[i]=x[i]; y[j]=x[j]; } }
		/* everything different */
		if(n){ for(size_t i=0;i<n;i++) y[i]=(u8)~x[i]; eq1(x,y,n,0); for(size_t i=0;i<n;i++) y[i]=(u8)(x[i]^1); eq1(x,y,n,0); }
		/* 256 and 255 differing bytes (sums that vanish modulo 256) */
		for(size_t k=254;k<=258&&k<=n;k++){ memcpy(y,x,n); for(size_t i=0;i<k;i++) y[i]=(u8)(x[i]+1); eq1(x,y,n,0); }
		if(memcmp(keep,x,n)) vf_fail("comparison writes to its input");
		guard_check(&g,n,s,"comparison"); guard_check(&h,n,s,"comparison"); vf_nontrivial(1); u64 q=n*2+(u64)s; vf_state(&q,8);
	}
	for(size_t n=0;n<=70;n++) if((long)(n%8)==part) for(int p=0;p<16;p++) for(int q=0;q<16;q++) if(vf_case("compare %ld bytes at alignments %ld,%ld",(long)n,(long)p,(long)q))
	{
		static u8 x[256] __attribute__((aligned(64))),y[256] __attribute__((aligned(64))); memset(x,1,256); memset(y,2,256); for(size_t i=0;i<n;i++) x[32+p+i]=y[32+q+i]=(u8)(i*3);
		eq1(x+32+p,y+32+q,n,1); for(size_t i=0;i<n;i++){ y[32+q+i]^=0x10; eq1(x+32+p,y+32+q,n,0); y[32+q+i]^=0x10; }
	}
	if(part==0) if(vf_case("compare %ld bytes, one differing",(long)1<<20)){ size_t n=1<<20; u8 *x=calloc(1,n),*y=calloc(1,n); eq1(x,y,n,1); for(size_t i=0;i<n;i=i*2+1){ y[i]=1; eq1(x,y,n,0); y[i]=0; y[n-1-i]=4; eq1(x,y,n,0); y[n-1-i]=0; } free(x); free(y); }
	if(part==1 && vf_thorough) if(vf_case("compare %ld bytes",(long)((1UL<<32)+5)))
	{ size_t n=(1UL<<32)+5; u8 *x=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0),*y=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(x==MAP_FAILED||y==MAP_FAILED) return; eq1(x,y,n,1); vf_alive(); y[n-1]=1; eq1(x,y,n,0); munmap(x,n); munmap(y,n); }
}
/* memory.c compiled together with its caller: the wipe of a dying buffer must survive optimisation */
extern int lto_stack(size_t n, int variant, u8 *seen, size_t *base), lto_heap(size_t n, u8 *seen);
static void u_lto(void *a)
{
	(void)a;
#ifdef LTO
	static u8 seen[4096];
	for(size_t n=1;n<=512;n++) for(int v=0;v<2;v++) if(vf_case("wipe of a dying %ld-byte buffer, variant %ld",(long)n,(long)v))
	{
		int left=lto_stack(n,v,seen,0); vf_trans(1); vf_validated(1); vf_nontrivial(1); u64 h=n*2+v; vf_state(&h,8);
		if(left) vf_fail("%d of %zu secret bytes survive the wipe of a buffer that is not used again",left,n);
	}
#endif
}
/* ------------------------------------------------------------ X09, X10: the system source */
#define EV 16
static struct { int open_fail, mode; size_t pos; int nev, at; long ev[EV]; int opened, closed; char path[300]; const char *env; size_t delivered; int err, eof; const u8 *sample; size_t nsample; int bad; } S;
static u8 src(size_t i){ return S.sample?S.sample[i%S.nsample]:(u8)(i*197+(i>>8)*13+(i>>16)*7+3); }
static int handle;
/* one read of the source: delivers as scripted; event -1: error; otherwise at most that many bytes */
static size_t take(u8 *p, size_t n)
{
	long e = S.at<S.nev?S.ev[S.at++]:S.mode?0:(long)n; size_t k;
	S.err=S.eof=0;
	if(e<0){ S.err=1; errno=EIO; return 0; }
	k=(size_t)e<n?(size_t)e:n; if(k<n) S.eof=1;
	for(size_t i=0;i<k;i++) p[i]=src(S.pos+i);
	S.pos+=k; S.delivered+=k; return k;
}
void *vf_fopen(const char *p, const char *m){ (void)m; vf_trans(1); snprintf(S.path,sizeof S.path,"%s",p?p:""); if(S.open_fail||!p||!*p) return 0; S.opened++; return &handle; }
void *vf_fopen64(const char *p, const char *m){ return vf_fopen(p,m); }
size_t vf_fread(void *p, size_t sz, size_t n, void *f){ vf_trans(1); if(f!=(void*)&handle||S.opened<=S.closed){ S.bad=1; return 0; } size_t k=take(p,sz*n); return sz?k/sz:0; }
size_t vf_fread_unlocked(void *p, size_t sz, size_t n, void *f){ return vf_fread(p,sz,n,f); }
int vf_fclose(void *f){ vf_trans(1); if(f!=(void*)&handle||S.opened<=S.closed) S.bad=1; S.closed++; return 0; }
int vf_fgetc(void *f){ u8 c; return vf_fread(&c,1,1,f)==1?c:-1; }
int vf_getc(void *f){ return vf_fgetc(f); }
int vf_open(const char *p, int fl, ...){ (void)fl; vf_trans(1); snprintf(S.path,sizeof S.path,"%s",p?p:""); if(S.open_fail||!p||!*p){ errno=ENOENT; return -1; } S.opened++; return 77; }
long vf_read(int fd, void *p, size_t n){ vf_trans(1); if(fd!=77||S.opened<=S.closed){ S.bad=1; return -1; } size_t k=take(p,n); return S.err?-1:(long)k; }
int vf_close(int fd){ vf_trans(1); if(fd!=77||S.opened<=S.closed) S.bad=1; S.closed++; return 0; }
char *vf_getenv(const char *n){ return !strcmp(n,"KRIPTO_RANDOM")?(char*)S.env:0; }
char *vf_secure_getenv(const char *n){ return vf_getenv(n); }
int vf_setvbuf(void *f, char *b, int m, size_t n){ (void)f;(void)b;(void)m;(void)n; return 0; }
void vf_setbuf(void *f, char *b){ (void)f;(void)b; }
int vf_ferror(void *f){ (void)f; return S.err; }
int vf_feof(void *f){ (void)f; return S.eof; }
void vf_clearerr(void *f){ (void)f; S.err=S.eof=0; }
int vf_fileno(void *f){ (void)f; return 77; }
long vf_getrandom(void *p, size_t n, unsigned fl){ (void)fl; vf_trans(1); size_t k=take(p,n); return S.err?-1:(long)k; }
int vf_getentropy(void *p, size_t n){ vf_trans(1); size_t k=take(p,n); return S.err||k<n?-1:0; }
static void begin(void){ memset(&S,0,sizeof S); }
/* one request and its frame conditions */
static size_t gen1(guard *g, kripto_random *r, size_t n, int side)
{
	u8 *b=guard_at(g,n,side); for(size_t i=0;i<n;i++) b[i]=(u8)(0x5A^(i*3)); size_t p0=S.pos; S.delivered=0;
	size_t k=kripto_random_gen(r,b,n); vf_validated(1);
	if(S.bad) vf_fail("the source is used while it is not open");
	if(k>n) vf_fail("%zu bytes reported for a request of %zu",k,n);
	if(k>S.delivered) vf_fail("%zu bytes reported, %zu obtained from the source",k,S.delivered);
	if(k<S.delivered) vf_fail("%zu bytes reported, %zu taken from the source",k,S.delivered);
	for(size_t i=0;i<k;i++) if(b[i]!=src(p0+i)) vf_fail("byte %zu is not the one obtained from the source",i);
	for(size_t i=k;i<n;i++) if(b[i]!=(u8)(0x5A^(i*3))) vf_fail("byte %zu written although only %zu were obtained",i,k);
	guard_check(g,n,side,"random bytes"); u64 h=n*1000003+S.pos; vf_state(&h,8);
	return k;
}
static void u_rnd(void *a)
{
	guard g=guard_new(1<<17); long part=ARG(a);
	if(part==0)
	{
		for(int e=0;e<3;e++) if(vf_case("open fails, environment %ld",(long)e)){ begin(); S.open_fail=1; S.env=e==0?0:e==1?"":"/nonexistent/source"; if(kripto_random_create()) vf_fail("creation succeeded although the source cannot be opened"); vf_validated(1); if(S.closed) vf_fail("closed a source that was not opened"); vf_nontrivial(1); if(vf_heap_live()) vf_fail("leak"); }
		if(vf_case("source named by the environment%.0ld",0L)){ begin(); S.env="/some/source"; void *r=kripto_random_create(); vf_true(r!=0,"creation failed"); vf_true(!strcmp(S.path,"/some/source"),"another source is opened than the one named"); kripto_random_destroy(r); vf_true(S.opened==1&&S.closed==1,"the source is not closed"); }
		if(vf_case("default source%.0ld",0L)){ begin(); void *r=kripto_random_create(); vf_true(r!=0,"creation failed"); vf_true(!strcmp(S.path,"/dev/urandom")||!strcmp(S.path,"/dev/random")||!S.path[0],"unexpected default source"); kripto_random_destroy(r); vf_true(S.opened==S.closed,"the source is not closed"); if(vf_heap_live()) vf_fail("leak"); }
		/* two sources open at a time cannot be told apart by this stub; their reads must still be exact */
	}
	/* every request size x every short read */
	size_t L=vf_thorough?300:90;
	for(size_t n=0;n<=L;n++) if((long)(n%8)==part) for(long e=-1;e<=(long)n;e++) for(int s=0;s<2;s++) if(vf_case("request %ld, source gives %ld (-1: error), side %ld",(long)n,e,(long)s))
	{
		begin(); S.mode=1; S.nev=1; S.ev[0]=e; kripto_random *r=kripto_random_create(); if(!r) vf_fail("creation failed");
		size_t k=gen1(&g,r,n,s); if(e<0&&n&&k==n) vf_fail("a failing read is not visible"); if(e>=0&&(size_t)e<n&&k==n) vf_fail("a short read is not visible");
		kripto_random_destroy(r); vf_true(S.opened==S.closed&&!S.bad,"the source is not closed once"); vf_nontrivial(1); if(vf_heap_live()) vf_fail("leak");
	}
	/* every sequence of requests and events */
	static const size_t R[]={0,1,5,16,33}; static const long E[]={0,1,4,16,100000,-1}; int d=vf_thorough?4:3; long tot=1; for(int i=0;i<d;i++) tot*=30;
	for(long x=part;x<tot;x+=8) if(vf_case("sequence #%ld of %ld requests",x,(long)d))
	{
		begin(); S.mode=1; kripto_random *r=kripto_random_create(); if(!r) vf_fail("creation failed"); long y=x;
		for(int i=0;i<d;i++){ size_t n=R[y%5]; long e=E[y/5%6]; y/=30; S.nev=1; S.at=0; S.ev[0]=e; vf_log("request %zu, source gives %ld",n,e); gen1(&g,r,n,i&1); }
		kripto_random_destroy(r); vf_true(S.opened==S.closed&&!S.bad,"the source is not closed once"); vf_nontrivial(1);
	}
	/* several short reads in a row, for implementations that retry */
	for(long x=part;x<7*7*7;x+=8) for(int n=0;n<4;n++) if(vf_case("request %ld, events #%ld",(long)(n*13+3),x))
	{ static const long E2[]={0,1,3,7,13,-1,50}; begin(); S.mode=1; S.nev=3; S.ev[0]=E2[x%7]; S.ev[1]=E2[x/7%7]; S.ev[2]=E2[x/49]; kripto_random *r=kripto_random_create(); gen1(&g,r,(size_t)n*13+3,0); S.nev=0; gen1(&g,r,5,1); kripto_random_destroy(r); }
	/* whole requests of every size stay in step with the source */
	for(int al=0;al<16;al++) if(al%8==part && vf_case("consecutive requests, alignment %ld",(long)al))
	{ begin(); kripto_random *r=kripto_random_create(); static u8 b[70100]; size_t pos=0; for(size_t n=0;n<400;n++){ memset(b,0,500); size_t k=kripto_random_gen(r,b+al,n); if(k!=n) vf_fail("request of %zu gives %zu",n,k); for(size_t i=0;i<n;i++) if(b[al+i]!=src(pos+i)) vf_fail("request %zu: byte %zu is not the next byte of the source",n,i); pos+=n; vf_validated(1); } kripto_random_destroy(r); }
	static const size_t big[]={4095,4096,4097,8192,65535,65536,70001}; for(int i=0;i<7;i++) if(i==part) for(int s=0;s<2;s++) for(int e=0;e<5;e++) if(vf_case("request %ld, source gives %ld/4 of it, side %ld",(long)big[i],(long)e,(long)s))
	{ begin(); S.mode=1; S.nev=1; S.ev[0]=(long)(big[i]*(size_t)e/4); kripto_random *r=kripto_random_create(); gen1(&g,r,big[i],s); kripto_random_destroy(r); }
}
/* ---- self-test.  Statistics of a sample, computed independently */
#define NS 4096
typedef struct { double ent,mean,bits,chi,flips,corr,rep; } stats;
static stats stat_of(const u8 *x)
{
	stats s; int c[256]={0}; long b=0,fl=0,rep=0; double sx=0,sxx=0,sxy=0; 
	for(int i=0;i<NS;i++){ c[x[i]]++; b+=__builtin_popcount(x[i]); sx+=x[i]; sxx+=(double)x[i]*x[i]; sxy+=(double)x[i]*x[(i+1)%NS]; if(i&&x[i]==x[i-1]) rep++; for(int k=7;k>=0;k--){ int cur=x[i]>>k&1, prev=k<7?x[i]>>(k+1)&1:i?x[i-1]&1:0; fl+=cur!=prev; } }
	s.ent=0; s.chi=0; for(int i=0;i<256;i++){ double d=c[i]-16.0; s.chi+=d*d/16; if(c[i]) s.ent-=c[i]/(double)NS*log2(c[i]/(double)NS); }
	s.mean=sx/NS; s.bits=b/(8.0*NS); s.flips=fl/(8.0*NS); s.rep=rep/(double)NS; double den=NS*sxx-sx*sx; s.corr=den?fabs((NS*sxy-sx*sx)/den):1; return s;
}
static u64 xs; static u64 nx(int gen)
{
	if(gen==0){ xs^=xs<<13; xs^=xs>>7; xs^=xs<<17; return xs*0x2545F4914F6CDD1DULL>>24; }
	if(gen==1){ u64 z=(xs+=0x9E3779B97F4A7C15ULL); z=(z^z>>30)*0xBF58476D1CE4E5B9ULL; z=(z^z>>27)*0x94D049BB133111EBULL; return (z^z>>31)>>11; }
	xs=xs*6364136223846793005ULL+1442695040888963407ULL; return xs>>43;
}
static void uniform(int gen, long seed, u8 *x){ xs=(u64)seed*0x9E3779B97F4A7C15ULL+0x1234567; for(int i=0;i<20;i++) nx(gen); for(int i=0;i<NS;i++) x[i]=(u8)nx(gen); }
static int test(const u8 *x, size_t n)
{
	begin(); S.sample=x; S.nsample=n?n:1; S.mode=0; kripto_random *r=kripto_random_create(); if(!r) vf_fail("creation failed");
	if(n<NS){ S.mode=1; S.nev=1; S.ev[0]=(long)n; }
	int t=kripto_random_test(r); vf_trans(1); vf_validated(1); vf_nontrivial(1); kripto_random_destroy(r); if(vf_heap_live()) vf_fail("leak"); u64 h=vf_hash(n,x,n<NS?n:NS); vf_state(&h,8); return t;
}
static void reject(const u8 *x, size_t n){ if(test(x,n)) vf_fail("degenerate sample accepted"); }
static void u_selftest(void *a)
{
	long part=ARG(a); static u8 x[NS],y[NS]; int acc=0,typ=0;
	/* uniform generators: samples whose statistics are within two standard deviations must pass */
	for(long seed=part;seed<(vf_thorough?40000:4000);seed+=8) for(int gen=0;gen<3;gen++) if(vf_case("uniform generator %ld, seed %ld",(long)gen,seed))
	{
		uniform(gen,seed,x); stats s=stat_of(x);
		int t=test(x,NS), typical=s.ent>7.945&&s.ent<7.97&&fabs(s.mean-127.5)<2.0&&fabs(s.bits-.5)<.0065&&s.chi>205&&s.chi<305&&fabs(s.flips-.5)<.0065&&s.corr<.045&&s.rep<.012;
		typ+=typical; acc+=t!=0; vf_log("entropy %.4f mean %.3f bits %.4f chi %.1f flips %.4f corr %.4f repeats %.4f",s.ent,s.mean,s.bits,s.chi,s.flips,s.corr,s.rep);
		if(typical&&!t) vf_fail("uniform sample rejected (entropy %.4f mean %.2f bits %.4f chi %.1f flips %.4f corr %.4f)",s.ent,s.mean,s.bits,s.chi,s.flips,s.corr);
		int rough=s.chi>420||fabs(s.bits-.5)>.03; (void)rough;
	}
	if(vf_case("share of uniform samples%.0ld",0L)){ if(typ>100) vf_true(acc*100>=typ*80,"most uniform samples are rejected"); }
	/* truncated sources */
	uniform(1,5,x); for(long n=part;n<NS;n+=n<64||n>NS-64?8:vf_thorough?8:40) if(vf_case("source ends after %ld bytes",n)) reject(x,(size_t)n);
	for(int e=0;e<2;e++) if(vf_case("source fails at once, %ld",(long)e)){ begin(); S.mode=1; S.nev=1; S.ev[0]=e?-1:0; kripto_random *r=kripto_random_create(); vf_true(kripto_random_test(r)==0,"self-test of a dead source succeeds"); kripto_random_destroy(r); }
	/* constant bytes */
	for(int v=(int)part;v<256;v+=8) if(vf_case("constant byte %ld",(long)v)){ memset(x,v,NS); reject(x,NS); }
	/* stuck bits, over several seeds */
	for(int b=0;b<8;b++) for(int v=0;v<2;v++) for(long s=part;s<(vf_thorough?400:80);s+=8) if(vf_case("bit %ld stuck at %ld, seed %ld",(long)b,(long)v,s)){ uniform((int)(s%3),s,x); for(int i=0;i<NS;i++) x[i]=v?x[i]|(u8)(1<<b):x[i]&(u8)~(1<<b); reject(x,NS); }
	/* one bit a copy of another, or of the previous byte's */
	for(int b=0;b<8;b++) for(int c=0;c<8;c++) for(int z=0;z<2;z++) if(b!=c && (b+c)%8==part && vf_case("bit %ld copies bit %ld (inverted %ld)",(long)b,(long)c,(long)z)){ uniform(0,b*8+c,x); for(int i=0;i<NS;i++) x[i]=(u8)((x[i]&~(1<<b))|((x[i]>>c&1)^z)<<b); reject(x,NS); }
	/* biased bits: probability 3/4, 5/8 and 7/8, either way */
	for(int b=-1;b<8;b++) for(int v=0;v<2;v++) for(int q=0;q<3;q++) for(long s=part;s<(vf_thorough?80:16);s+=8) if(vf_case("bit %ld (-1: all) biased towards %ld, strength %ld, seed %ld",(long)b,(long)v,(long)q,s))
	{
		uniform(1,s,x); uniform(2,s+1000,y); for(int i=0;i<NS;i++) for(int k=0;k<8;k++) if(b<0||k==b){ int hit = q==0?(y[i]>>(k%8)&1):q==1?((y[i]>>k&1)&&(y[(i+7)%NS]>>k&1)):(y[i]>>k&1)||(y[(i+7)%NS]>>k&1); if(hit) x[i]=v?x[i]|(u8)(1<<k):x[i]&(u8)~(1<<k); }
		reject(x,NS);
	}
	/* short periods */
	for(int per=1;per<=1024;per++) if(per%8==part && (per<=300||per%(vf_thorough?1:5)==0||!(per&(per-1)))) for(long s=0;s<2;s++) if(vf_case("period %ld, seed %ld",(long)per,s)){ uniform((int)s,per*3+s,y); for(int i=0;i<NS;i++) x[i]=y[i%per]; reject(x,NS); }
	for(int st=1;st<256;st+=2) if((st/2)%8==part && vf_case("counter with step %ld",(long)st)){ for(int i=0;i<NS;i++) x[i]=(u8)(i*st); reject(x,NS); }
	for(int per=2;per<=16;per*=2) if(vf_case("every value %ld times in a row",(long)per)){ for(int i=0;i<NS;i++) x[i]=(u8)(i/per); if(part==0) reject(x,NS); }
	/* permutations repeated */
	for(long s=part;s<32;s+=8) if(vf_case("permutation %ld repeated",s)){ u8 p[256]; uniform(1,s,y); for(int i=0;i<256;i++) p[i]=(u8)i; for(int i=255;i>0;i--){ int j=(y[i]+256*y[i+300])%(i+1); u8 t=p[i]; p[i]=p[j]; p[j]=t; } for(int i=0;i<NS;i++) x[i]=p[i&255]; reject(x,NS); }
	/* missing values */
	for(int m=24;m<=255;m+=vf_thorough?1:7) for(int way=0;way<3;way++) if(m%8==part && vf_case("%ld values missing, placement %ld",(long)m,(long)way))
	{ uniform(1,m*3+way,y); int n=256-m; for(int i=0;i<NS;i++){ unsigned r=(y[i]+256u*y[(i*7+1)%NS])%(unsigned)n; x[i]=way==0?(u8)r:way==1?(u8)(r+m):(u8)(r*2<256?r*2:(r*2-255)); } reject(x,NS); }
	/* words repeated: each byte twice, each pair twice ... */
	for(int k=1;k<=(vf_thorough?64:16);k++) if(k%8==part && vf_case("blocks of %ld bytes each delivered twice",(long)k)) { uniform(0,k,y); for(int i=0;i<NS;i++) x[i]=y[(i/(2*k))*k+i%k]; int t=test(x,NS); if(k==1&&t) vf_fail("sample with every byte doubled accepted"); }
	/* text-like and nibble sources */
	if(part==0){ if(vf_case("digits%.0ld",0L)){ uniform(0,3,x); for(int i=0;i<NS;i++) x[i]=(u8)('0'+x[i]%10); reject(x,NS); } if(vf_case("high half zero%.0ld",0L)){ uniform(0,4,x); memset(x+NS/2,0,NS/2); reject(x,NS); } if(vf_case("low half FF%.0ld",0L)){ uniform(0,4,x); memset(x,0xFF,NS/2); reject(x,NS); }
	for(int k=1;k<8;k++) if(vf_case("last %ld/16 of the sample zero",(long)k*2)){ uniform(0,4,x); memset(x+NS-NS*k/8,0,NS*k/8); reject(x,NS); }
	for(int k=1;k<8;k++) if(vf_case("first %ld/16 of the sample zero",(long)k*2)){ uniform(0,4,x); memset(x,0,NS*k/8); reject(x,NS); } }
	/* strongly correlated neighbours with all values equally likely: slow walk, sorted */
	for(int v=0;v<8;v++) if(v==part && vf_case("sorted, direction %ld",(long)v)){ u8 t[NS]; uniform(1,v,t); int c[256]={0},k=0; for(int i=0;i<NS;i++) c[t[i]]++; for(int i=0;i<256;i++) for(int j=0;j<c[i];j++) x[k++]=(u8)(v&1?255-i:i); reject(x,NS); }
	for(int w=1;w<=16;w++) if(w%8==part) for(long s=0;s<8;s++) if(vf_case("random walk with steps up to %ld, seed %ld",(long)w,s)){ uniform(1,s,y); int p=128; for(int i=0;i<NS;i++){ p=(p+(int)(y[i]%(2*w+1))-w)&255; x[i]=(u8)p; } reject(x,NS); }
}
/* samples of sources with one flaw each; judged when a statistic is more than four standard deviations off */
static double frand(void){ return (double)(nx(1)&0xFFFFFF)/16777216.0; }
static void u_flaws(void *a)
{
	long part=ARG(a); static u8 x[NS]; int judged=0;
	for(int fam=0;fam<8;fam++) for(int lev=1;lev<=12;lev++) for(int dir=0;dir<2;dir++) for(long seed=part;seed<(vf_thorough?240:48);seed+=8) if(vf_case("flaw %ld, strength %ld, direction %ld, seed %ld",(long)fam,(long)lev,(long)dir,seed))
	{
		xs=(u64)(seed*1000+fam*100+lev)*0x9E3779B97F4A7C15ULL+dir; for(int i=0;i<9;i++) nx(1); double d=lev*0.0125; u8 prev=0;
		for(int i=0;i<NS;i++)
		{
			u8 v=(u8)nx(1);
			switch(fam)
			{
			case 0: while(frand()>(1+(dir?-1:1)*2*d*(v-127.5)/127.5)/(1+2*d)) v=(u8)nx(1); break;                 /* tilted */
			case 1: for(int k=0;k<8;k++) if(frand()<d) v=(u8)((v&~(1<<k))|((k==7)^dir?0:1<<k)); break;            /* bits biased, mean kept */
			case 2: if(frand()<2*d) v=(u8)((v&0x7F)|(((prev&1)^dir)<<7)); break;                                 /* first bit copies the last one */
			case 3: if(frand()<8*d){ v=(u8)((v&0x7F)|(((prev&1)^dir)<<7)); } break;
			case 4: if(frand()<2*d) v=frand()<.5?prev:(u8)~prev; break;                                           /* repeats and complements */
			case 5: if(frand()<2*d) v=dir?(u8)~prev:prev; break;
			case 6: if(lev*4>v%64 && v<64*(1+dir)) v=(u8)nx(1); break;                                            /* rare values */
			default: if(frand()<d) v=(u8)(dir?0xFF:0x00); break;                                                 /* drop-outs */
			}
			x[i]=prev=v;
		}
		stats s=stat_of(x); int bad=fabs(s.bits-.5)>.012||fabs(s.mean-127.5)>5.0||s.chi>352||s.chi<160||fabs(s.flips-.5)>.012||s.corr>.12||s.rep>.115;
		vf_log("entropy %.4f mean %.3f bits %.4f chi %.1f flips %.4f corr %.4f repeats %.4f",s.ent,s.mean,s.bits,s.chi,s.flips,s.corr,s.rep);
		if(bad){ judged++; if(test(x,NS)) vf_fail("sample of a flawed source accepted (entropy %.4f mean %.3f bits %.4f chi %.1f flips %.4f corr %.4f repeats %.4f)",s.ent,s.mean,s.bits,s.chi,s.flips,s.corr,s.rep); }
	}
}
static void reg(void)
{
	for(long i=0;i<8;i++)
	{
		if(strstr(vf_opt,"pkcs7")){ vf_unit(u_pad,(void*)(intptr_t)i,"pkcs7/add/%ld",i); vf_unit(u_pad,(void*)(intptr_t)(i+8),"pkcs7/add/%ld",i+8); if(i==0) vf_unit(u_rem,0,"pkcs7/rem"); }
		if(strstr(vf_opt,"memory")){ vf_unit(u_wipe,(void*)(intptr_t)i,"memory/wipe/%ld",i); vf_unit(u_eq,(void*)(intptr_t)i,"memory/equals/%ld",i); if(i==0&&strstr(vf_opt,"+lto")) vf_unit(u_lto,0,"memory/lto"); }
		if(strstr(vf_opt,"source")) vf_unit(u_rnd,(void*)(intptr_t)i,"random/source/%ld",i);
		if(strstr(vf_opt,"selftest")) vf_unit(u_selftest,(void*)(intptr_t)i,"random/selftest/%ld",i), vf_unit(u_flaws,(void*)(intptr_t)i,"random/flaws/%ld",i);
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
