/* The library's memory.c compiled into the same optimised unit as a caller whose buffer dies right
   after the wipe. */
#include <kripto/memory.h>
#include MEMORY_C
#include <string.h>
#include <stdlib.h>
typedef unsigned char u8;
static u8 *volatile where; static volatile u8 sink;
static inline __attribute__((always_inline)) void body(u8 *b, size_t n, size_t wipe)
{
	for(size_t i=0;i<n;i++) b[i]=(u8)(0xC0|(i&7)); where=b;
	u8 s=0; for(size_t i=0;i<n;i++) s^=b[i]; sink=s;
	kripto_memory_wipe(b,wipe);
}
static __attribute__((noinline)) void fixed(size_t n){ u8 b[512]; body(b,512,512); (void)n; }
static __attribute__((noinline)) void sized(size_t n){ u8 b[1024]; body(b,n,n); }
int lto_stack(size_t n, int variant, u8 *seen, size_t *base)
{
	(void)base;
	if(variant==0){ fixed(n); n=512; } else sized(n);
	u8 *volatile w=where; int left=0;
	for(size_t i=0;i<n;i++){ u8 v=((volatile u8*)w)[i]; seen[i&4095]=v; if(v==(u8)(0xC0|(i&7))) left++; }
	return left>(int)(n/4) ? left : n<8 ? (left==(int)n?left:0) : 0;
}
