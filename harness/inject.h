/* Moves a counter inside an object without knowing its layout: a 64-bit word of the object's heap
   blocks that advances by one fixed stride per step is taken for the counter. */
#ifndef INJECT_H
#define INJECT_H
#include "vf.h"
#define INJ_STEPS 6
typedef struct { u8 *at; u64 base, stride; } inj_field;   /* base: value before the first step */
static u64 inj_le(const u8 *p){ u64 v; memcpy(&v,p,8); return v; }
/* runs INJ_STEPS steps; fields that changed by strides[k] in every one of them */
static int inj_find(void (*step)(void*), void *ctx, const u64 *strides, int ns, inj_field *out, int max)
{
	static u8 snap[INJ_STEPS+1][1<<16]; size_t tot=0; int n=0; int nb=vf_nblocks;
	for(int t=0;t<=INJ_STEPS;t++)
	{
		if(t) step(ctx);
		tot=0; for(int i=0;i<nb;i++) if(vf_blocks[i].live && tot+vf_blocks[i].n<=sizeof snap[0]){ memcpy(snap[t]+tot,vf_blocks[i].p,vf_blocks[i].n); tot+=vf_blocks[i].n; }
	}
	tot=0;
	for(int i=0;i<nb;i++) if(vf_blocks[i].live && tot+vf_blocks[i].n<=sizeof snap[0])
	{
		for(size_t o=0;o+8<=vf_blocks[i].n;o+=4) for(int k=0;k<ns;k++)
		{
			/* the word read at t=0 may still hold an initial marker: require regular change from t=1 on */
			u64 s=strides[k]; int ok=1;
			for(int t=2;t<=INJ_STEPS&&ok;t++) if(inj_le(snap[t]+tot+o)-inj_le(snap[t-1]+tot+o)!=s) ok=0;
			if(ok && n<max){ out[n].at=vf_blocks[i].p+o; out[n].stride=s; out[n].base=inj_le(snap[INJ_STEPS]+tot+o)-INJ_STEPS*s; n++; }
		}
		tot+=vf_blocks[i].n;
	}
	return n;
}
/* makes the object believe that INJ_STEPS+delta steps have been made */
static void inj_set(const inj_field *f, u64 delta){ u64 v=f->base+(INJ_STEPS+delta)*f->stride; memcpy(f->at,&v,8); }
#endif
