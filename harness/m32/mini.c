/* A small C library for freestanding 32-bit (i386) executables: what the drivers and the library under
   test need, over int $0x80.  No 32-bit C library is installed here. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
typedef unsigned char u8; typedef uint64_t u64; typedef int64_t i64;
static long sc(long n, long a, long b, long c, long d, long e, long f)
{ long r; __asm__ __volatile__("pushl %7; push %%ebp; mov 4(%%esp),%%ebp; int $128; pop %%ebp; add $4,%%esp":"=a"(r):"a"(n),"b"(a),"c"(b),"d"(c),"S"(d),"D"(e),"g"(f):"memory"); return r; }
static int err_; int *__errno_location(void){ return &err_; }
static long R(long r){ if(r<0&&r>-4096){ err_=(int)-r; return -1; } return r; }
#define S0(n) R(sc(n,0,0,0,0,0,0))
#define S1(n,a) R(sc(n,(long)(a),0,0,0,0,0))
#define S2(n,a,b) R(sc(n,(long)(a),(long)(b),0,0,0,0))
#define S3(n,a,b,c) R(sc(n,(long)(a),(long)(b),(long)(c),0,0,0))
#define S4(n,a,b,c,d) R(sc(n,(long)(a),(long)(b),(long)(c),(long)(d),0,0))
char **environ; extern int main(int, char **, char **);
void __attribute__((noreturn)) _exit(int c){ for(;;) sc(252,c,0,0,0,0,0); }
void __attribute__((noreturn)) _Exit(int c){ _exit(c); }
void __attribute__((noreturn)) exit(int c){ _exit(c); }
int getpid(void){ return (int)S0(20); } int kill(int p, int s){ return (int)S2(37,p,s); } int raise(int s){ return kill(getpid(),s); }
void __attribute__((noreturn)) abort(void){ raise(6); _exit(134); }
int fork(void){ return (int)S0(2); } int waitpid(int p, int *st, int o){ return (int)S3(7,p,st,o); }
int dup2(int a, int b){ return (int)S2(63,a,b); } unsigned alarm(unsigned s){ return (unsigned)S1(27,s); }
int open(const char *p, int fl, ...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return (int)S3(5,p,fl|0100000,m); }
int open64(const char *p, int fl, ...){ va_list a; va_start(a,fl); int m=va_arg(a,int); va_end(a); return (int)S3(5,p,fl|0100000,m); }
int close(int f){ return (int)S1(6,f); } long read(int f, void *b, size_t n){ return S3(3,f,b,n); } long write(int f, const void *b, size_t n){ return S3(4,f,b,n); }
void *mmap(void *p, size_t n, int pr, int fl, int fd, long off){ return (void*)R(sc(192,(long)p,(long)n,pr,fl,fd,off>>12)); }
void *mmap64(void *p, size_t n, int pr, int fl, int fd, i64 off){ return (void*)R(sc(192,(long)p,(long)n,pr,fl,fd,(long)(off>>12))); }
int munmap(void *p, size_t n){ return (int)S2(91,p,n); } int mprotect(void *p, size_t n, int pr){ return (int)S3(125,p,n,pr); } int madvise(void *p, size_t n, int a){ return (int)S3(219,p,n,a); }
int memfd_create(const char *n, unsigned f){ return (int)S2(356,n,f); } int ftruncate(int f, long n){ return (int)S2(93,f,n); } int ftruncate64(int f, i64 n){ return (int)S2(93,f,(long)n); }
struct ts { long s, n; }; int clock_gettime(int c, struct ts *t){ return (int)S2(265,c,t); }
long time(long *t){ struct ts x; clock_gettime(0,&x); if(t) *t=x.s; return x.s; }
long clock(void){ struct ts x; clock_gettime(2,&x); return x.s*1000000+x.n/1000; }
int setrlimit(int a, const void *b){ return (int)S2(75,a,b); } int setrlimit64(int a, const void *b){ (void)a;(void)b; return 0; }
int usleep(unsigned u){ struct ts t={(long)(u/1000000),(long)(u%1000000)*1000}; return (int)S2(162,&t,0); }
int sched_yield(void){ return (int)S0(158); }
int prctl(int o, ...){ va_list a; va_start(a,o); long x=va_arg(a,long); va_end(a); return (int)sc(172,o,x,0,0,0,0); }
int unlink(const char *p){ return (int)S1(10,p); } int rmdir(const char *p){ return (int)S1(40,p); }
int clock_getcpuclockid(int p, int *c){ *c=(int)((~(unsigned)p<<3)|2); return 0; }
/* ---- memory and strings */
void *memcpy(void *restrict d, const void *restrict s, size_t n){ void *r=d; __asm__ __volatile__("rep movsb":"+D"(d),"+S"(s),"+c"(n)::"memory"); return r; }
void *memmove(void *d, const void *s, size_t n){ if((uintptr_t)d-(uintptr_t)s>=n) return memcpy(d,s,n); u8 *x=d; const u8 *y=s; while(n--){ x[n]=y[n]; __asm__ __volatile__(""); } return d; }
void *memset(void *d, int c, size_t n){ void *r=d; __asm__ __volatile__("rep stosb":"+D"(d),"+c"(n):"a"(c):"memory"); return r; }
int memcmp(const void *a, const void *b, size_t n){ const u8 *x=a,*y=b; while(n>=4&&*(const uint32_t*)x==*(const uint32_t*)y){ x+=4; y+=4; n-=4; } for(;n;n--,x++,y++) if(*x!=*y) return *x-*y; return 0; }
int bcmp(const void *a, const void *b, size_t n){ return memcmp(a,b,n); }
void *memchr(const void *a, int c, size_t n){ const u8 *p=a; for(;n;n--,p++) if(*p==(u8)c) return (void*)p; return 0; }
void *memmem(const void *h, size_t hn, const void *n, size_t nn){ const u8 *p=h; if(!nn) return (void*)h; for(;hn>=nn;hn--,p++) if(*p==*(const u8*)n&&!memcmp(p,n,nn)) return (void*)p; return 0; }
size_t strlen(const char *s){ size_t n=0; while(s[n]){ n++; __asm__ __volatile__(""); } return n; }
size_t strnlen(const char *s, size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
int strcmp(const char *a, const char *b){ while(*a&&*a==*b) a++,b++; return (u8)*a-(u8)*b; }
int strncmp(const char *a, const char *b, size_t n){ for(;n&&*a&&*a==*b;n--) a++,b++; return n?(u8)*a-(u8)*b:0; }
char *strchr(const char *s, int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char *strrchr(const char *s, int c){ char *r=0; for(;;s++){ if(*s==(char)c) r=(char*)s; if(!*s) return r; } }
char *strstr(const char *h, const char *n){ size_t l=strlen(n); for(;;h++){ if(!strncmp(h,n,l)) return (char*)h; if(!*h) return 0; } }
char *strcpy(char *d, const char *s){ memcpy(d,s,strlen(s)+1); return d; } char *strcat(char *d, const char *s){ strcpy(d+strlen(d),s); return d; }
char *stpcpy(char *d, const char *s){ size_t n=strlen(s); memcpy(d,s,n+1); return d+n; }
char *strncpy(char *d, const char *s, size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char *strtok(char *s, const char *d){ static char *n; if(s) n=s; if(!n) return 0; while(*n&&strchr(d,*n)) n++; if(!*n){ n=0; return 0; } char *r=n; while(*n&&!strchr(d,*n)) n++; if(*n) *n++=0; else n=0; return r; }
char *mkdtemp(char *t){ char *x=t+strlen(t)-6; for(int k=0;k<1000;k++){ struct ts q; clock_gettime(1,&q); unsigned v=(unsigned)q.n^(unsigned)getpid()*2654435761u^(unsigned)k*40503u; for(int i=0;i<6;i++,v/=26) x[i]=(char)('a'+v%26); if(S2(39,t,0700)==0) return t; if(err_!=17) return 0; } return 0; }
long strtol(const char *s, char **e, int b){ long v=0; int n=0; while(*s==' ') s++; if(*s=='-'){ n=1; s++; } if((b==16||!b)&&s[0]=='0'&&(s[1]|32)=='x'){ s+=2; b=16; } if(!b) b=10; for(;;s++){ int d=*s>='0'&&*s<='9'?*s-'0':(*s|32)>='a'&&(*s|32)<='z'?(*s|32)-'a'+10:99; if(d>=b) break; v=v*b+d; } if(e) *e=(char*)s; return n?-v:v; }
unsigned long strtoul(const char *s, char **e, int b){ return (unsigned long)strtol(s,e,b); }
long __isoc23_strtol(const char *s, char **e, int b){ return strtol(s,e,b); } unsigned long __isoc23_strtoul(const char *s, char **e, int b){ return (unsigned long)strtol(s,e,b); }
int atoi(const char *s){ return (int)strtol(s,0,10); } long atol(const char *s){ return strtol(s,0,10); } double strtod(const char *s, char **e){ char *q; double v=(double)strtol(s,&q,10), f=0.1; if(*q=='.') for(q++;*q>='0'&&*q<='9';q++,f/=10) v+=f*(*q-'0'); if(e) *e=q; return v; } double atof(const char *s){ return strtod(s,0); }
char *getenv(const char *n){ size_t l=strlen(n); for(char **e=environ;e&&*e;e++) if(!strncmp(*e,n,l)&&(*e)[l]=='=') return *e+l+1; return 0; }
char *secure_getenv(const char *n){ return getenv(n); }
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; }
void qsort(void *b, size_t n, size_t w, int (*f)(const void*, const void*)){ u8 *p=b; for(size_t i=1;i<n;i++) for(size_t j=i;j&&f(p+(j-1)*w,p+j*w)>0;j--) for(size_t k=0;k<w;k++){ u8 t=p[j*w+k]; p[j*w+k]=p[(j-1)*w+k]; p[(j-1)*w+k]=t; } }
/* ---- heap of the harness: large blocks are mapped, small ones kept in lists by size */
typedef struct hd { size_t n, pad; struct hd *next; size_t pad2; } hd; static hd *lists[32]; static u8 *bump, *bend;
void *malloc(size_t n)
{
	if(n>0x70000000u) return 0;
	int k=5; while(((size_t)1<<k)<n+sizeof(hd)) k++;
	if(k>=16){ hd *h=mmap(0,n+sizeof(hd),3,0x22,-1,0); if((long)h==-1) return 0; h->n=n+sizeof(hd); return h+1; }
	hd *h=lists[k]; if(h){ lists[k]=h->next; return h+1; }
	if((size_t)(bend-bump)<((size_t)1<<k)){ bump=mmap(0,1<<20,3,0x22,-1,0); if((long)bump==-1) return 0; bend=bump+(1<<20); }
	h=(hd*)bump; bump+=(size_t)1<<k; h->n=(size_t)k; return h+1;
}
void free(void *p){ if(!p) return; hd *h=(hd*)p-1; if(h->n<32){ h->next=lists[h->n]; lists[h->n]=h; } else munmap(h,h->n); }
void *calloc(size_t a, size_t b){ if(b&&a>(size_t)-1/b) return 0; void *p=malloc(a*b); if(p) memset(p,0,a*b); return p; }
void *realloc(void *p, size_t n){ if(!p) return malloc(n); hd *h=(hd*)p-1; size_t o=h->n<32?((size_t)1<<h->n)-sizeof(hd):h->n-sizeof(hd); void *q=malloc(n); if(!q) return 0; memcpy(q,p,o<n?o:n); free(p); return q; }
void *aligned_alloc(size_t a, size_t n){ u8 *p=malloc(n+a); return p?(void*)(((uintptr_t)p+a-1)&~(uintptr_t)(a-1)):0; }
int posix_memalign(void **o, size_t a, size_t n){ *o=aligned_alloc(a,n); return *o?0:12; }
/* ---- formatted output */
static char *num(char *e, u64 v, unsigned b, int up){ do { unsigned d=(unsigned)(v%b); *--e=(char)(d<10?'0'+d:(up?'A':'a')+d-10); v/=b; } while(v); return e; }
int vsnprintf(char *o, size_t n, const char *f, va_list ap)
{
	size_t l=0;
#define PUT(c) do { char c_=(char)(c); if(l+1<n) o[l]=c_; l++; } while(0)
	for(;*f;f++)
	{
		if(*f!='%'){ PUT(*f); continue; }
		int left=0,zero=0,plus=0,alt=0,width=0,prec=-1,lg=0; f++;
		for(;;f++){ if(*f=='-') left=1; else if(*f=='0') zero=1; else if(*f=='+') plus=1; else if(*f=='#') alt=1; else if(*f!=' ') break; }
		if(*f=='*'){ width=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') width=width*10+*f++-'0';
		if(*f=='.'){ f++; prec=0; if(*f=='*'){ prec=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') prec=prec*10+*f++-'0'; }
		for(;*f=='l'||*f=='h'||*f=='z'||*f=='t'||*f=='j';f++) lg+=*f=='l'?1:*f=='j'?2:0;
		char b[80], *e=b+sizeof b, *s=e; const char *pre=""; size_t k;
		switch(*f)
		{
		case 'd': case 'i': { i64 v=lg>=2?va_arg(ap,i64):va_arg(ap,long); if(v||prec) s=num(e,v<0?(u64)-v:(u64)v,10,0); if(v<0) pre="-"; else if(plus) pre="+"; break; }
		case 'u': case 'x': case 'X': case 'o': { u64 v=lg>=2?va_arg(ap,u64):va_arg(ap,unsigned long); if(v||prec) s=num(e,v,*f=='u'?10:*f=='o'?8:16,*f=='X'); if(alt&&*f=='x'&&v) pre="0x"; break; }
		case 'p': s=num(e,(uintptr_t)va_arg(ap,void*),16,0); pre="0x"; break;
		case 'c': *--s=(char)va_arg(ap,int); break;
		case 'f': case 'g': case 'e': { double v=va_arg(ap,double); if(prec<0) prec=6; if(v<0){ pre="-"; v=-v; } u64 p=1; for(int i=0;i<prec&&i<9;i++) p*=10; u64 w=(u64)(v*(double)p+0.5); if(prec){ u64 fr=w%p; char *q=s; s=num(s,fr,10,0); while(q-s<(prec<9?prec:9)) *--s='0'; *--s='.'; } s=num(s,w/p,10,0); prec=-1; break; }
		case 's': { const char *q=va_arg(ap,const char*); if(!q) q="(null)"; k=prec>=0?strnlen(q,(size_t)prec):strlen(q); for(size_t i=k;!left&&i<(size_t)width;i++) PUT(' '); for(size_t i=0;i<k;i++) PUT(q[i]); for(size_t i=k;left&&i<(size_t)width;i++) PUT(' '); continue; }
		case 0: f--; continue;
		default: PUT(*f); continue;
		}
		while(prec>0&&e-s<prec&&s>b+2) *--s='0';
		size_t w=(size_t)(e-s)+strlen(pre);
		if(!left&&!zero) for(size_t i=w;i<(size_t)width;i++) PUT(' ');
		for(const char *q=pre;*q;q++) PUT(*q);
		if(!left&&zero) for(size_t i=w;i<(size_t)width;i++) PUT('0');
		for(;s<e;s++) PUT(*s);
		if(left) for(size_t i=w;i<(size_t)width;i++) PUT(' ');
	}
	if(n) o[l<n?l:n-1]=0;
	return (int)l;
}
int snprintf(char *o, size_t n, const char *f, ...){ va_list a; va_start(a,f); int r=vsnprintf(o,n,f,a); va_end(a); return r; }
int sprintf(char *o, const char *f, ...){ va_list a; va_start(a,f); int r=vsnprintf(o,INT_MAX,f,a); va_end(a); return r; }
/* ---- streams: unbuffered, except for reading byte by byte */
typedef struct FL { int fd, eof; } FL; static FL f_in={0,0}, f_out={1,0}, f_err={2,0}; FL *stdin=&f_in, *stdout=&f_out, *stderr=&f_err;
int vfprintf(FL *f, const char *fm, va_list a){ static char b[4096]; int r=vsnprintf(b,sizeof b,fm,a); write(f->fd,b,(size_t)(r<4095?r:4095)); return r; }
int fprintf(FL *f, const char *fm, ...){ va_list a; va_start(a,fm); int r=vfprintf(f,fm,a); va_end(a); return r; }
int printf(const char *fm, ...){ va_list a; va_start(a,fm); int r=vfprintf(stdout,fm,a); va_end(a); return r; }
int vprintf(const char *fm, va_list a){ return vfprintf(stdout,fm,a); }
int fputc(int c, FL *f){ char b=(char)c; write(f->fd,&b,1); return c; } int putchar(int c){ return fputc(c,stdout); } int putc(int c, FL *f){ return fputc(c,f); }
int fputs(const char *s, FL *f){ write(f->fd,s,strlen(s)); return 0; } int puts(const char *s){ fputs(s,stdout); return putchar('\n'); }
size_t fwrite(const void *p, size_t w, size_t n, FL *f){ long r=write(f->fd,p,w*n); return r<0?0:(size_t)r/w; }
size_t fread(void *p, size_t w, size_t n, FL *f){ size_t g=0; while(g<w*n){ long r=read(f->fd,(u8*)p+g,w*n-g); if(r<=0){ f->eof=1; break; } g+=(size_t)r; } return w?g/w:0; }
FL *fopen(const char *n, const char *m){ int fd=open(n,*m=='r'?0:*m=='w'?01|0100|01000:01|0100|02000,0600); if(fd<0) return 0; FL *f=malloc(sizeof *f); f->fd=fd; f->eof=0; return f; }
FL *fopen64(const char *n, const char *m){ return fopen(n,m); }
int fclose(FL *f){ int r=close(f->fd); if(f!=stdin&&f!=stdout&&f!=stderr) free(f); return r; }
int fseek(FL *f, long o, int w){ f->eof=0; return S3(19,f->fd,o,w)<0?-1:0; } int fseeko64(FL *f, i64 o, int w){ return fseek(f,(long)o,w); } long ftell(FL *f){ return S3(19,f->fd,0,1); }
int fflush(FL *f){ (void)f; return 0; } int feof(FL *f){ return f->eof; } int ferror(FL *f){ (void)f; return 0; } void clearerr(FL *f){ f->eof=0; } int fileno(FL *f){ return f->fd; }
int setvbuf(FL *f, char *b, int m, size_t n){ (void)f;(void)b;(void)m;(void)n; return 0; }
int fgetc(FL *f){ u8 c; return fread(&c,1,1,f)==1?c:-1; } int getc(FL *f){ return fgetc(f); }
char *fgets(char *o, int n, FL *f){ int l=0; while(l<n-1){ int c=fgetc(f); if(c<0) break; o[l++]=(char)c; if(c=='\n') break; } o[l]=0; return l?o:0; }
void perror(const char *s){ fprintf(stderr,"%s: error %d\n",s,err_); }
void __assert_fail(const char *e, const char *f, unsigned l, const char *fn){ fprintf(stderr,"%s:%u: %s: Assertion `%s' failed.\n",f,l,fn,e); abort(); }
void __stack_chk_fail(void){ fprintf(stderr,"Assertion: stack smashed\n"); abort(); }
/* ---- signals */
struct ksa { void *h; unsigned long fl; void *rest; unsigned long m[2]; };
void *signal(int s, void *h){ struct ksa a={h,0x10000000,0,{0,0}}, o; if(S4(174,s,&a,&o,8)<0) return (void*)-1; return o.h; }
void *__sysv_signal(int s, void *h){ return signal(s,h); }
struct sga { void *h; unsigned long m[32]; int fl; void *rest; };
int sigaction(int s, const struct sga *n, struct sga *o){ struct ksa a={0,0,0,{0,0}}, b; if(n){ a.h=n->h; a.fl=(unsigned)n->fl; a.m[0]=n->m[0]; a.m[1]=n->m[1]; } if(S4(174,s,n?&a:0,&b,8)<0) return -1; if(o){ o->h=b.h; o->fl=(int)b.fl; } return 0; }
int setitimer(int w, const void *n, void *o){ return (int)S3(104,w,n,o); }
char *strsignal(int s){ static char b[16]; snprintf(b,sizeof b,"signal %d",s); return b; }
/* ---- 64-bit arithmetic (libgcc) */
static u64 dm(u64 a, u64 b, u64 *r)
{
	if(!(b>>32)&&!(a>>32)){ *r=(uint32_t)a%(uint32_t)b; return (uint32_t)a/(uint32_t)b; }
	if(!(b>>32)){ uint32_t d=(uint32_t)b, h=(uint32_t)(a>>32), l=(uint32_t)a, qh=h/d, rem=h%d, ql; __asm__("divl %4":"=a"(ql),"=d"(rem):"0"(l),"1"(rem),"r"(d)); *r=rem; return (u64)qh<<32|ql; }
	u64 q=0, rem=0; for(int i=63;i>=0;i--){ rem=rem<<1|((uint32_t)(a>>i)&1); if(rem>=b){ rem-=b; q|=(u64)1<<i; } } *r=rem; return q;
}
u64 __udivdi3(u64 a, u64 b){ u64 r; return dm(a,b,&r); } u64 __umoddi3(u64 a, u64 b){ u64 r; dm(a,b,&r); return r; }
u64 __udivmoddi4(u64 a, u64 b, u64 *p){ u64 r, q=dm(a,b,&r); if(p) *p=r; return q; }
i64 __divdi3(i64 a, i64 b){ u64 r, q=dm(a<0?-(u64)a:(u64)a,b<0?-(u64)b:(u64)b,&r); return (a<0)!=(b<0)?-(i64)q:(i64)q; }
i64 __moddi3(i64 a, i64 b){ u64 r; dm(a<0?-(u64)a:(u64)a,b<0?-(u64)b:(u64)b,&r); return a<0?-(i64)r:(i64)r; }
i64 __divmoddi4(i64 a, i64 b, i64 *p){ *p=__moddi3(a,b); return __divdi3(a,b); }
int __popcountdi2(u64 v){ int c=0; for(;v;v&=v-1) c++; return c; } int __popcountsi2(uint32_t v){ return __popcountdi2(v); }
uint64_t __bswapdi2(uint64_t v){ return (u64)__builtin_bswap32((uint32_t)v)<<32|__builtin_bswap32((uint32_t)(v>>32)); }
double __floatundidf(u64 v){ return (double)(uint32_t)(v>>32)*4294967296.0+(double)(uint32_t)v; } float __floatundisf(u64 v){ return (float)__floatundidf(v); }
u64 __fixunsdfdi(double d){ if(d<0) return 0; uint32_t h=(uint32_t)(i64)(d/4294967296.0); return (u64)h<<32|(uint32_t)(i64)(d-(double)h*4294967296.0); } u64 __fixunsxfdi(long double d){ return __fixunsdfdi((double)d); }
/* ---- mathematics (x87) */
double log2(double x){ long double r; __asm__("fld1; fldl %1; fyl2x":"=t"(r):"m"(x)); return (double)r; }
double log(double x){ long double r; __asm__("fldln2; fldl %1; fyl2x":"=t"(r):"m"(x)); return (double)r; }
double sqrt(double x){ long double r; __asm__("fsqrt":"=t"(r):"0"((long double)x)); return (double)r; } double fabs(double x){ return x<0?-x:x; }
/* ---- start */
__asm__(".globl _start\n_start: xor %ebp,%ebp\n mov %esp,%eax\n and $-16,%esp\n sub $12,%esp\n push %eax\n call mini_start\n");
void __attribute__((used)) mini_start(long *sp){ int c=(int)*sp; char **v=(char**)(sp+1); environ=v+c+1; exit(main(c,v,environ)); }
