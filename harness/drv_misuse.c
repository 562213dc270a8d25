/* X15: requests outside what a primitive advertises are stopped (assertion or failing result).
   Every case runs in a child process of its own: a stop is an abort or a failing result that leaves no memory. */
#include "objs.h"
#include "child.h"
#include <limits.h>
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
typedef struct { const prim *p; } cfg;
enum { CREATE, RECREATE, ALL, NHOW };
static const char *const hown[]={"creation","re-creation","one-shot call"};
typedef struct { unsigned rounds,kl,ivl,tl; int nk,ni; } bad;   /* nk, ni: NULL key (salt), NULL IV */
static u8 buf[4096], out[4096], kb[4096], vb[4096];
static par base;
/* what the child does: returns 1 on a failing result, 0 if the request was carried out */
typedef int (*act)(const prim*, const void*);
typedef struct { act f; const prim *p; const void *x; } req;
static int do_req(void *v){ req *r=v; return r->f(r->p,r->x); }
static int child(act f, const prim *p, const void *x){ req r={f,p,x}; return child_run(do_req,&r,1); }
static void stopped(int r, const char *what)
{
	vf_trans(1); vf_validated(1); vf_nontrivial(1);
	if(r==1) return;
	if(r==3) vf_fail("%s: refused, but heap blocks are never released",what);
	if(r>=100) vf_fail("%s: not refused, crashed with signal %d",what,r-100);
	vf_fail("%s: not refused",what);
}
static int a_par(const prim *p, const void *x)
{
	const bad *b=x; const void *k=b->nk?0:kb, *v=b->ni?0:vb; void *o=0;
	vf_heap_reset();
	o=o_create(p,&base); if(!o) return 9;
	switch(p->kind)
	{
	case K_HASH: o=kripto_hash_recreate(o,b->rounds,k,b->kl,b->tl); break;
	case K_BLOCK: o=kripto_block_recreate(o,b->rounds,k,b->kl); break;
	case K_MAC: o=kripto_mac_recreate(o,b->rounds,k,b->kl,b->tl); if(o&&b->tl) kripto_mac_tag(o,out,b->tl); break;
	case K_STREAM: o=kripto_stream_recreate(o,b->rounds,k,b->kl,v,b->ivl); break;
	default: o=kripto_ae_recreate(o,b->rounds,k,b->kl,v,b->ivl,b->tl);
	}
	return !o;
}
static int a_new(const prim *p, const void *x)
{
	const bad *b=x; const void *k=b->nk?0:kb, *v=b->ni?0:vb; void *o;
	vf_heap_reset();
	switch(p->kind)
	{
	case K_HASH: o=kripto_hash_create(p->desc,b->rounds,k,b->kl,b->tl); break;
	case K_BLOCK: o=kripto_block_create(p->desc,b->rounds,k,b->kl); break;
	case K_MAC: o=kripto_mac_create(p->desc,b->rounds,k,b->kl,b->tl); if(o&&b->tl) kripto_mac_tag(o,out,b->tl); break;
	case K_STREAM: o=kripto_stream_create(p->desc,b->rounds,k,b->kl,v,b->ivl); break;
	default: o=kripto_ae_create(p->desc,b->rounds,k,b->kl,v,b->ivl,b->tl);
	}
	return !o;
}
static int a_all(const prim *p, const void *x)
{
	const bad *b=x; const void *k=b->nk?0:kb; vf_heap_reset();
	if(p->kind==K_HASH) return !!kripto_hash_all(p->desc,b->rounds,k,b->kl,buf,100,out,b->tl);
	return !!kripto_mac_all(p->desc,b->rounds,k,b->kl,buf,100,out,b->tl);
}
static const act acts[]={a_new,a_par,a_all};
static void u_par(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; par_list(p,q,8); base=q[0];
	static const unsigned over[]={1,2,7,8,64,1000,UINT_MAX};
	for(int how=0;how<NHOW;how++)
	{
		if(how==ALL && p->kind!=K_HASH && p->kind!=K_MAC) continue;
		const bad ok={0,base.kl,base.ivl,base.tl,0,0}; bad z;
		/* the request itself is sound: it must not be stopped */
		if(vf_case("sound request, call %ld",(long)how)){ int r=child(acts[how],p,&ok); vf_validated(1); if(r) vf_fail("sound %s stopped (%d)",hown[how],r); }
		if(p->kind!=K_HASH)
		{
			if(vf_case("empty key, call %ld",(long)how)){ z=ok; z.kl=0; stopped(child(acts[how],p,&z),"empty key"); }
			if(vf_case("no key, call %ld",(long)how)){ z=ok; z.nk=1; stopped(child(acts[how],p,&z),"no key"); }
		}
		for(int i=0;i<7;i++)
		{
			unsigned d=over[i], kmax=p->maxkey;
			if(kmax!=UINT_MAX && (d==UINT_MAX||kmax+d<3000)) if(vf_case("key or salt over the maximum by %ld, call %ld",(long)d,(long)how)){ z=ok; z.kl=d==UINT_MAX?d:kmax+d; stopped(child(acts[how],p,&z),"key or salt longer than advertised"); }
			if((p->kind==K_STREAM||p->kind==K_AE) && p->maxiv!=UINT_MAX) if(vf_case("iv over the maximum by %ld, call %ld",(long)d,(long)how)){ z=ok; z.ivl=d==UINT_MAX?d:p->maxiv+d; stopped(child(acts[how],p,&z),"IV longer than advertised"); }
			if(p->kind!=K_BLOCK&&p->kind!=K_STREAM&&p->maxtag) if(vf_case("tag or digest over the maximum by %ld, call %ld",(long)d,(long)how)){ z=ok; z.tl=d==UINT_MAX?d:p->maxtag+d; stopped(child(acts[how],p,&z),"tag or digest longer than advertised"); }
		}
		if((p->kind==K_STREAM||p->kind==K_AE) && p->xiv) for(unsigned v=1;v<=p->xiv;v+=v<4?1:p->xiv-3<v?1:p->xiv-3-v?p->xiv-3-v:1) if(vf_case("no iv but a length of %ld, call %ld",(long)v,(long)how)){ z=ok; z.ni=1; z.ivl=v; stopped(child(acts[how],p,&z),"no IV"); }
	}
}
/* use of a sound object beyond its limits */
typedef struct { int op; size_t a,b; } use;
enum { U_OUT, U_TAG, U_VER, U_TWEAK, U_TWEAKNULL, U_NOPT, U_NOCT, U_DNOCT, U_DNOPT, U_ENC, U_DEC, U_PRNG, U_NULL };
static int a_use(const prim *p, const void *x)
{
	const use *u=x; const void *cz=0; void *z=(void*)cz; const void *d=p->desc; int s=0; vf_heap_reset();
	if(u->op==U_NULL)
	{
		switch(p->kind)
		{
		case K_HASH: switch(u->a){ case 0: s=!kripto_hash_create(0,0,0,0,1); break; case 1: s=!kripto_hash_recreate(z,0,0,0,1); break; case 2: kripto_hash_input(z,buf,1); break; case 3: kripto_hash_output(z,out,1); break; case 4: kripto_hash_destroy(z); break; case 5: s=!!kripto_hash_all(0,0,0,0,buf,1,out,1); break; case 6: s=kripto_hash_getdesc(z)==d; break; case 7: s=(int)kripto_hash_maxout(0); break; case 8: s=(int)kripto_hash_maxsalt(0); break; case 9: s=(int)kripto_hash_blocksize(0); break; } break;
		case K_BLOCK: switch(u->a){ case 0: s=!kripto_block_create(0,0,kb,1); break; case 1: s=!kripto_block_recreate(z,0,kb,1); break; case 2: kripto_block_encrypt(z,buf,out); break; case 3: kripto_block_decrypt(z,buf,out); break; case 4: kripto_block_destroy(z); break; case 5: kripto_block_tweak(z,buf,1); break; case 6: s=kripto_block_getdesc(z)==d; break; case 7: s=(int)kripto_block_size(0); break; case 8: s=(int)kripto_block_maxkey(0); break; case 9: s=(int)kripto_block_maxtweak(0); break; } break;
		case K_MAC: switch(u->a){ case 0: s=!kripto_mac_create(0,0,kb,1,1); break; case 1: s=!kripto_mac_recreate(z,0,kb,1,1); break; case 2: kripto_mac_input(z,buf,1); break; case 3: kripto_mac_tag(z,out,1); break; case 4: kripto_mac_destroy(z); break; case 5: s=!!kripto_mac_all(0,0,kb,1,buf,1,out,1); break; case 6: s=kripto_mac_getdesc(z)==d; break; case 7: s=(int)kripto_mac_maxtag(0); break; case 8: s=(int)kripto_mac_maxkey(0); break; case 9: s=!!kripto_mac_verify(z,out,1); break; } break;
		case K_STREAM: switch(u->a){ case 0: s=!kripto_stream_create(0,0,kb,1,vb,0); break; case 1: s=!kripto_stream_recreate(z,0,kb,1,vb,0); break; case 2: kripto_stream_encrypt(z,buf,out,0); break; case 3: kripto_stream_decrypt(z,buf,out,0); break; case 4: kripto_stream_destroy(z); break; case 5: kripto_stream_prng(z,out,0); break; case 6: s=kripto_stream_getdesc(z)==d; break; case 7: s=(int)kripto_stream_maxkey(0); break; case 8: s=(int)kripto_stream_maxiv(0); break; case 9: s=(int)kripto_stream_multof(z); break; } break;
		default: switch(u->a){ case 0: s=!kripto_ae_create(0,0,kb,1,vb,0,1); break; case 1: s=!kripto_ae_recreate(z,0,kb,1,vb,0,1); break; case 2: kripto_ae_encrypt(z,buf,out,0); break; case 3: kripto_ae_decrypt(z,buf,out,0); break; case 4: kripto_ae_destroy(z); break; case 5: kripto_ae_header(z,buf,0); break; case 6: s=kripto_ae_getdesc(z)==d; break; case 7: s=(int)kripto_ae_maxkey(0); break; case 8: s=(int)kripto_ae_maxiv(0); break; case 9: s=(int)kripto_ae_maxtag(0); break; case 10: kripto_ae_tag(z,out,1); break; case 11: s=(int)kripto_ae_multof(z); break; case 12: s=!!kripto_ae_verify(z,out,1); break; }
		}
		(void)s; return 0;
	}
	void *o=o_create(p,&base); if(!o) return 9;
	switch(u->op)
	{
	case U_OUT: kripto_hash_input(o,buf,50); if(u->a) kripto_hash_output(o,out,u->a); kripto_hash_output(o,out,u->b); break;
	case U_TAG: if(p->kind==K_MAC){ kripto_mac_input(o,buf,50); kripto_mac_tag(o,out,(unsigned)u->a); } else { kripto_ae_header(o,buf,50); kripto_ae_tag(o,out,(unsigned)u->a); } break;
	case U_VER: if(p->kind==K_MAC){ kripto_mac_input(o,buf,50); s=kripto_mac_verify(o,buf,(unsigned)u->a); } else { kripto_ae_header(o,buf,50); s=kripto_ae_verify(o,buf,(unsigned)u->a); } if(s){ vf_heap_check(); o_destroy(p,o); return 1; } break;
	case U_TWEAK: kripto_block_tweak(o,buf,(unsigned)u->a); break;
	case U_TWEAKNULL: kripto_block_tweak(o,0,(unsigned)u->a); break;
	case U_NOPT: kripto_block_encrypt(o,0,out); break; case U_NOCT: kripto_block_encrypt(o,buf,0); break;
	case U_DNOCT: kripto_block_decrypt(o,0,out); break; case U_DNOPT: kripto_block_decrypt(o,buf,0); break;
	case U_ENC: if(p->kind==K_AE){ if(u->b) kripto_ae_encrypt(o,buf,out,u->b); kripto_ae_encrypt(o,buf,out,u->a); } else { if(u->b) kripto_stream_encrypt(o,buf,out,u->b); kripto_stream_encrypt(o,buf,out,u->a); } break;
	case U_DEC: if(p->kind==K_AE){ if(u->b) kripto_ae_decrypt(o,buf,out,u->b); kripto_ae_decrypt(o,buf,out,u->a); } else { if(u->b) kripto_stream_decrypt(o,buf,out,u->b); kripto_stream_decrypt(o,buf,out,u->a); } break;
	case U_PRNG: kripto_stream_prng(o,out,u->a); break;
	}
	return 0;
}
static void u_use(void *a)
{
	cfg *c=a; const prim *p=c->p; par q[8]; int nq=par_list(p,q,8); use u;
	for(int i=0;i<nq;i++)
	{
		base=q[i];
		if(p->kind==K_HASH && (p->maxtag || p->h->ref>=RH_SKEIN256))
		{
			base.tl=p->h->ref>=RH_SKEIN256?q[i].tl:p->maxtag;	/* Skein promises a length; the others give up to their maximum */
			for(size_t n=0;n<=(p->h->ref==RH_SHA3?0:base.tl);n++) if(vf_case("set %ld, digest of %ld bytes, then one byte too many",(long)i,(long)n)){ u=(use){U_OUT,n,base.tl-n+1}; stopped(child(a_use,p,&u),"more digest than there is"); }
			if(vf_case("set %ld, a digest of SIZE_MAX bytes",(long)i)){ u=(use){U_OUT,0,(size_t)-1}; stopped(child(a_use,p,&u),"more digest than there is"); }
		}
		/* the sponges' tags are not limited */
		if((p->kind==K_MAC||p->mode==P_EAX) && p->maxtag && p->mode!=P_KECMAC) for(int v=0;v<2;v++)
		{
			static const unsigned over[]={1,2,3,8,16,100,1000};
			base.tl=p->maxtag;
			for(int k=0;k<7;k++) if(vf_case("set %ld, tag %ld bytes over the maximum, verified %ld",(long)i,(long)over[k],(long)v)){ u=(use){v?U_VER:U_TAG,p->maxtag+over[k],0}; stopped(child(a_use,p,&u),"tag longer than advertised"); }
		}
		/* EAX2 holds tags of the length asked for */
		if(p->mode==P_EAX2) for(int v=0;v<2;v++) for(unsigned t=1;t<=p->xtag;t+=t<4?1:t<p->xtag-1?(p->xtag-1-t>7?7:p->xtag-1-t):1) for(unsigned d=1;d<=256;d*=2)
		{
			base=q[i]; base.tl=t; if(vf_case("set %ld, created for %ld bytes, tag of %ld, verified %ld",(long)i,(long)t,(long)(t+d),(long)v)){ u=(use){v?U_VER:U_TAG,t+d,0}; stopped(child(a_use,p,&u),"tag longer than asked for at creation"); }
		}
		if(p->kind==K_BLOCK)
		{
			unsigned T=p->b->maxtweak;
			if(!T){ for(size_t n=1;n<=16;n*=2) if(vf_case("set %ld, tweak of %ld bytes, none supported",(long)i,(long)n)){ u=(use){U_TWEAK,n,0}; stopped(child(a_use,p,&u),"tweak of a cipher without one"); } }
			else
			{
				for(size_t n=0;n<=T;n++) if(vf_case("set %ld, no tweak of %ld bytes",(long)i,(long)n)){ u=(use){U_TWEAKNULL,n,0}; stopped(child(a_use,p,&u),"no tweak"); }
				if(vf_case("set %ld, empty tweak",(long)i)){ u=(use){U_TWEAK,0,0}; stopped(child(a_use,p,&u),"empty tweak"); }
				for(size_t n=1;n<=1024;n*=2) if(vf_case("set %ld, tweak %ld bytes over the maximum",(long)i,(long)n)){ u=(use){U_TWEAK,T+n,0}; stopped(child(a_use,p,&u),"tweak longer than advertised"); }
			}
			for(int op=U_NOPT;op<=U_DNOPT;op++) if(vf_case("set %ld, missing block %ld",(long)i,(long)op)){ u=(use){op,0,0}; stopped(child(a_use,p,&u),"missing block"); }
		}
		if((p->kind==K_STREAM||p->kind==K_AE) && p->unit>1) for(size_t w=0;w<=p->unit;w+=p->unit) for(size_t n=1;n<3*p->unit;n++) if(n%p->unit) for(int d=0;d<2;d++)
			if(vf_case("set %ld, %ld bytes after %ld, decrypted %ld",(long)i,(long)n,(long)w,(long)d)){ u=(use){d?U_DEC:U_ENC,n,w}; stopped(child(a_use,p,&u),"data that is no number of whole blocks"); }
		if(p->kind==K_STREAM && !p->hasprng) for(size_t n=0;n<3;n++) if(vf_case("set %ld, %ld blocks of keystream",(long)i,(long)n)){ u=(use){U_PRNG,n*p->unit,0}; stopped(child(a_use,p,&u),"keystream of a mode without one"); }
	}
	for(int k=0;k<(p->kind==K_AE?13:10);k++) if(vf_case("no object or primitive, call %ld",(long)k)){ u=(use){U_NULL,(size_t)k,0}; int r=child(a_use,p,&u); stopped(r>=100?1:r,"no object or primitive"); }
}
/* key derivation: no MAC, no iteration; scrypt's parameters outside their definition */
typedef struct { int fam; u64 N; u32 r, p; int nomac; } kd;
static int a_kdf(const prim *p, const void *x)
{
	const kd *k=x; vf_heap_reset(); const void *m=k->nomac?0:p->desc;
	return !!(k->fam?kripto_scrypt(m,0,k->N,k->r,k->p,kb,5,buf,10,out,40):kripto_pbkdf2(m,0,k->r,kb,5,buf,10,out,40));
}
static void u_kdf(void *a)
{
	cfg *c=a; const prim *p=c->p; kd k; static const u32 rp[][2]={{0,0},{0,1},{1,0},{0,7},{7,0}};
	if(vf_case("pbkdf2, sound%.0ld",0L)){ k=(kd){0,0,1,0,0}; vf_validated(1); if(child(a_kdf,p,&k)) vf_fail("sound key derivation stopped"); }
	if(vf_case("scrypt, sound%.0ld",0L)){ k=(kd){1,2,1,1,0}; vf_validated(1); if(child(a_kdf,p,&k)) vf_fail("sound key derivation stopped"); }
	if(vf_case("pbkdf2, no iteration%.0ld",0L)){ k=(kd){0,0,0,0,0}; stopped(child(a_kdf,p,&k),"no iteration"); }
	for(int f=0;f<2;f++) if(vf_case("no MAC, scrypt %ld",(long)f)){ k=(kd){f,2,1,1,1}; int r=child(a_kdf,p,&k); stopped(r>=100?1:r,"no MAC"); }
	for(int i=0;i<5;i++) for(u64 N=2;N<=1024;N*=2) if(vf_case("scrypt, N=%ld r=%ld p=%ld",(long)N,(long)rp[i][0],(long)rp[i][1])){ k=(kd){1,N,rp[i][0],rp[i][1],0}; stopped(child(a_kdf,p,&k),"no blocks"); }
	for(u64 N=0;N<=300;N++) if(N<2||(N&(N-1))) if(vf_case("scrypt, N=%ld",(long)N)){ k=(kd){1,N,1,1,0}; stopped(child(a_kdf,p,&k),"N that is no power of two"); }
	for(u64 d=1;d<=64;d++) if(vf_case("scrypt, N=2^64-%ld",(long)d)){ k=(kd){1,0-d,1,1,0}; vf_alloc_limit=1<<16; stopped(child(a_kdf,p,&k),"N that is no power of two"); vf_alloc_limit=0; }
	for(int i=2;i<64;i++) for(int d=-1;d<2;d++) { u64 N=((u64)1<<i)+(u64)(long)d; if(N<300||!(N&(N-1))) continue; if(vf_case("scrypt, N=2^%ld%+ld",(long)i,(long)d)){ k=(kd){1,N,1,1,0}; vf_alloc_limit=1<<16; stopped(child(a_kdf,p,&k),"N that is no power of two"); vf_alloc_limit=0; } }
}
/* round counts: a key schedule grows with them, so at some count no memory holds it; the sizes asked for must not
   start over there. The growth is measured on supported counts. */
typedef struct { u32 r; u64 need; int how; } rq;
static u64 held(void){ u64 n=0; for(int i=0;i<vf_nblocks;i++) if(vf_blocks[i].live) n+=vf_blocks[i].n; return n; }
static int a_rounds(const prim *p, const void *x)
{
	const rq *q=x; void *o=0; vf_heap_reset();
	if(q->how){ o=o_create(p,&base); if(!o) return 9; }
	vf_alloc_limit=1<<20;
	switch(p->kind)
	{
	case K_HASH: o=o?kripto_hash_recreate(o,q->r,kb,base.kl,base.tl):kripto_hash_create(p->desc,q->r,kb,base.kl,base.tl); break;
	case K_BLOCK: o=o?kripto_block_recreate(o,q->r,kb,base.kl):kripto_block_create(p->desc,q->r,kb,base.kl); break;
	case K_MAC: o=o?kripto_mac_recreate(o,q->r,kb,base.kl,base.tl):kripto_mac_create(p->desc,q->r,kb,base.kl,base.tl); break;
	case K_STREAM: o=o?kripto_stream_recreate(o,q->r,kb,base.kl,vb,base.ivl):kripto_stream_create(p->desc,q->r,kb,base.kl,vb,base.ivl); break;
	default: o=o?kripto_ae_recreate(o,q->r,kb,base.kl,vb,base.ivl,base.tl):kripto_ae_create(p->desc,q->r,kb,base.kl,vb,base.ivl,base.tl);
	}
	if(!o) return 1;
	vf_heap_check(); if(held()<q->need) return 4;
	o_destroy(p,o); return vf_heap_live()?5:0;
}
static void one_rounds(const prim *p, u32 r, u64 n1, u64 slope, int how)
{
	rq q={r,n1+(u64)(r-8)*slope,how};
	if(q.need<=1<<20) return;
	if(!vf_case("%ld rounds, call %ld",(long)(u64)r,(long)how)) return;
	int s=child(a_rounds,p,&q); vf_trans(1); vf_validated(1); vf_nontrivial(1);
	if(s==3) vf_fail("writes outside a heap block or never releases one");
	if(s==5) vf_fail("heap blocks are never released");
	if(s==4) vf_fail("carried out although the key schedule has no room in the memory held");
	if(s>=100) vf_fail("not refused, crashed with signal %d",s-100);
	if(s>1) vf_fail("failed (%d)",s);
}
static void u_rounds(void *a)
{
	cfg *c=a; const prim *p=c->p; par l[8];
	if(p->mode==P_EAX2 && (!p->s->b||!p->m->b)) return;	/* such streams and MACs may really run that many rounds */
	par_list(p,l,8); base=l[0]; u64 n[2]={0,0}, slope=0; static const u32 two[]={8,24};
	/* measured in this process once a process of its own has shown the counts to be supported */
	for(int i=0;i<2;i++){ rq q={two[i],0,0}; if(child(a_rounds,p,&q)){ slope=0; n[0]=n[1]=0; break; } vf_heap_reset(); bad b={two[i],base.kl,base.ivl,base.tl,0,0}; if(a_new(p,&b)) vf_fail("creation failed"); n[i]=held(); }
	if(n[1]<=n[0]) return;
	slope=(n[1]-n[0])/16;
	int wide=p->kind==K_BLOCK;
	for(int how=0;how<2;how++)
	{
		for(int k=13;k<32;k++) for(int d=wide?-3:-1;d<=(wide?3:1);d++) one_rounds(p,(1u<<k)+(u32)d,n[0],slope,how);
		for(u32 d=0;d<(wide?80u:4u);d++) one_rounds(p,UINT_MAX-d,n[0],slope,how);
		for(u64 j=1;j<slope;j++) for(int d=wide?-5:-1;d<=(wide?5:1);d++) one_rounds(p,(u32)((j<<32)/slope+(u64)(long long)d),n[0],slope,how);
	}
}
/* any number of rounds: carried out within the object's memory, or refused */
static int a_any(const prim *p, const void *x)
{
	const rq *q=x; void *o=0; u8 t[256]; par b=base; vf_heap_reset();
	if(q->how){ o=o_create(p,&base); if(!o) return 9; }
	b.rounds=q->r; if(p->kind==K_HASH) b.tl=(unsigned)q->need; else b.kl=(unsigned)q->need;
	switch(p->kind)
	{
	case K_HASH: o=o?kripto_hash_recreate(o,b.rounds,kb,b.kl,b.tl):kripto_hash_create(p->desc,b.rounds,kb,b.kl,b.tl); if(!o) return 1; kripto_hash_input(o,buf,300); kripto_hash_output(o,t,b.tl); break;
	case K_BLOCK: o=o?kripto_block_recreate(o,b.rounds,kb,b.kl):kripto_block_create(p->desc,b.rounds,kb,b.kl); if(!o) return 1; kripto_block_encrypt(o,buf,t); kripto_block_decrypt(o,buf,t); break;
	default: o=o?kripto_stream_recreate(o,b.rounds,kb,b.kl,vb,b.ivl):kripto_stream_create(p->desc,b.rounds,kb,b.kl,vb,b.ivl); if(!o) return 1; kripto_stream_encrypt(o,buf,t,200); kripto_stream_decrypt(o,buf,t,200);
	}
	vf_heap_check(); o_destroy(p,o); return vf_heap_live()?5:0;
}
static int is_any(const prim *p){ return p->kind==K_HASH || p->kind==K_BLOCK || (p->kind==K_STREAM && !p->b); }
static void u_any(void *a)
{
	cfg *c=a; const prim *p=c->p; par l[8]; par_list(p,l,8); base=l[0]; int few=!strcmp(vf_opt,"any2"); u32 kmax=p->kind==K_HASH?(p->h->maxdig<200?p->h->maxdig:200):p->maxkey==UINT_MAX?64:p->maxkey;
	for(int how=0;how<2;how++) for(u32 kl=1;kl<=kmax;kl+=few&&kl<kmax?kmax-kl:1) for(u32 r=0;r<=(vf_thorough?kl==kmax?2200u:300u:kl==kmax?300u:70u);r++)
	{
		rq q={r,kl,how};
		if(!vf_case("key (digest) of %ld, %ld rounds, call %ld",(long)kl,(long)r,(long)how)) continue;
		int s=child(a_any,p,&q); vf_trans(1); vf_validated(1); vf_nontrivial(1);
		if(!r && s==1) vf_fail("the default number of rounds is refused");
		if(s==98) vf_fail("not refused, accesses memory outside its own");
		if(s==3) vf_fail("writes outside a heap block or never releases one");
		if(s==5) vf_fail("heap blocks are never released");
		if(s>=100) vf_fail("not refused, crashed with signal %d",s-100);
		if(s>1) vf_fail("failed (%d)",s);
	}
}
static void reg(void)
{
	prims_init(); vf_fill=0xA5; vf_fillpat(kb,sizeof kb,77); vf_fillpat(vb,sizeof vb,78); vf_fillpat(buf,sizeof buf,79);
	for(int i=0;i<nprims;i++)
	{
		cfg *c=calloc(1,sizeof *c); c->p=prims+i;
		if(!strcmp(vf_opt,"many")){ vf_unit(u_rounds,c,"many/%s",prims[i].name); continue; }
		if(!strncmp(vf_opt,"any",3)){ if(is_any(prims+i)) vf_unit(u_any,c,"any/%s",prims[i].name); continue; }
		vf_unit(u_par,c,"par/%s",prims[i].name); vf_unit(u_use,c,"use/%s",prims[i].name); if(prims[i].kind==K_MAC && prims[i].maxtag) vf_unit(u_kdf,c,"kdf/%s",prims[i].name);
	}
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
