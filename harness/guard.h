/* Buffers placed flush against inaccessible pages. */
#ifndef GUARD_H
#define GUARD_H
#include <sys/mman.h>
#include <setjmp.h>
#include <signal.h>
typedef struct { u8 *base; size_t pages; } guard;
static guard guard_new(size_t max)
{
	guard g; size_t n=(max+4095)/4096; if(!n) n=1;
	g.base=mmap(0,(n+2)*4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); g.pages=n;
	if(g.base==MAP_FAILED){ perror("mmap"); exit(2); }
	mprotect(g.base,4096,PROT_NONE); mprotect(g.base+(n+1)*4096,4096,PROT_NONE); g.base+=4096; return g;
}
/* side 0: ends at the upper guard page; side 1: starts at the lower one.  Fills the rest with a canary */
static u8 *guard_at(guard *g, size_t n, int side)
{
	size_t t=g->pages*4096; size_t k=n+512; if(k>t) k=t;
	if(side==0) memset(g->base+t-k,0xB7,k); else memset(g->base,0xB7,k);
	return side==0?g->base+t-n:g->base;
}
static void guard_check(guard *g, size_t n, int side, const char *what)
{
	size_t t=g->pages*4096; size_t k=n+512; if(k>t) k=t;
	if(side==0){ for(size_t i=t-k;i<t-n;i++) if(g->base[i]!=0xB7) vf_fail("%s: write %zu bytes before the buffer",what,t-n-i); }
	else for(size_t i=n;i<k;i++) if(g->base[i]!=0xB7) vf_fail("%s: write %zu bytes past the buffer",what,i-n);
}
#endif
