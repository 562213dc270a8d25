/* X12: public helpers in one configuration; digests of the whole library's results, written by one
   build configuration and compared by the others. */
#include "objs.h"
#include <kripto/pbkdf2.h>
#include <kripto/scrypt.h>
#include <kripto/pkcs7.h>
extern void helpers_units(void);
static FILE *df; static int writing;
static void dopen(const char *unit)
{
	char n[400]; const char *d=getenv("VF_DIGEST_DIR"); if(!d){ vf_fail("no directory of digests"); }
	snprintf(n,sizeof n,"%s/",d); size_t l=strlen(n); for(;*unit&&l<sizeof n-1;unit++) n[l++]=*unit=='/'?'_':*unit; n[l]=0;
	df=fopen(n,writing?"wb":"rb");
}
/* replay runs one case only: results are addressed by case number */
static long idx;
static void put(const void *p, size_t n, const char *what)
{
	u64 r[3]={(u64)idx,n,vf_hash(99,p,n)}, e[3]; if(!df) return; vf_state(&r[2],8);
	if(writing){ fseek(df,idx*24,SEEK_SET); fwrite(r,1,24,df); return; }
	fseek(df,idx*24,SEEK_SET); if(fread(e,1,24,df)!=24) return;
	vf_validated(1); vf_nontrivial(1);
	if(e[1]!=n||e[2]!=r[2]) vf_fail("%s: result (%zu bytes) differs from the one of the reference build",what,n);
}
#define CASE(...) (idx++, vf_case(__VA_ARGS__))
static u8 out[PROBE_MAX*3];
static void u_dig(void *a)
{
	const prim *p=a; par q[8]; int nq=par_list(p,q,8), no=o_nops(p); dopen(p->name); idx=0;
	for(int i=0;i<nq;i++) for(int f=0;f<o_flavours(p);f++) if(CASE("set %ld flavour %ld",(long)i,(long)f))
	{
		void *o=o_create(p,q+i); if(!o) vf_fail("create returned null"); size_t m=o_probe(p,o,q+i,f,out);
		o=o_recreate(p,o,q+(i+1)%nq); if(!o) vf_fail("re-creation returned null"); m+=o_probe(p,o,q+(i+1)%nq,f,out+m); o_destroy(p,o); put(out,m,"use");
	}
	for(unsigned k=p->minkey;k<=p->xkey;k++) if(CASE("key of %ld bytes",(long)k)){ par z=q[0]; z.kl=k; z.ks=9; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); size_t m=o_probe(p,o,&z,0,out); o_destroy(p,o); put(out,m,"key length"); }
	for(unsigned k=0;k<=p->xiv;k++) if(CASE("iv of %ld bytes",(long)k)){ par z=q[0]; z.ivl=k; z.is=9; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); size_t m=o_probe(p,o,&z,0,out); o_destroy(p,o); put(out,m,"iv length"); }
	if(p->kind!=K_BLOCK&&p->kind!=K_STREAM) for(unsigned k=1;k<=p->xtag;k++) if(CASE("tag of %ld bytes",(long)k)){ par z=q[0]; z.tl=k; void *o=o_create(p,&z); if(!o) vf_fail("create returned null"); size_t m=o_probe(p,o,&z,0,out); o_destroy(p,o); put(out,m,"tag length"); }
	/* every sequence of three operations */
	for(long x=0;x<(long)no*no*no;x++)
	{
		long y=x; opst st={0,0}; int ok=1; if(!CASE("operations #%ld",x)) continue;
		void *o=o_create(p,q); if(!o) vf_fail("create returned null"); size_t m=0;
		for(int i=0;i<3&&ok;i++){ int op=(int)(y%no); y/=no; if(!o_legal(p,&st,op)) ok=0; else m+=o_op(p,o,q,&st,op,out+m); }
		o_destroy(p,o); put(out,m,"operations");
	}
	/* misaligned buffers */
	for(int al=1;al<16;al++) if(CASE("alignment %ld",(long)al))
	{
		static u8 in[2000] __attribute__((aligned(64))), t[2100] __attribute__((aligned(64))); memcpy(in+al,o_data,1200); size_t n=0; void *o=o_create(p,q); if(!o) vf_fail("create returned null"); memset(t,0,sizeof t);
		switch(p->kind)
		{
		case K_HASH: kripto_hash_input(o,in+al,600); kripto_hash_output(o,t+al,q->tl); n=q->tl; break;
		case K_BLOCK: kripto_block_encrypt(o,in+al,t+al); kripto_block_decrypt(o,in+al,t+al+p->b->bs); n=2*p->b->bs; break;
		case K_MAC: kripto_mac_input(o,in+al,600); kripto_mac_tag(o,t+al,q->tl); n=q->tl; break;
		case K_STREAM: n=p->unit>1?4*p->unit:600; kripto_stream_encrypt(o,in+al,t+al,n); break;
		default: n=p->unit>1?4*p->unit:600; kripto_ae_encrypt(o,in+al,t+al,n); kripto_ae_tag(o,t+al+n,q->tl); n+=q->tl;
		}
		o_destroy(p,o); put(t+al,n,"misaligned buffers");
	}
	if(p->kind==K_MAC&&p->maxtag) for(int w=0;w<2;w++) for(int i=0;i<nq;i++) if(CASE("key derivation %ld set %ld",(long)w,(long)i))
	{
		u8 k[KMAX]; par z=q[i]; z.tl=0; par_key(&z,k); int rc = w?kripto_scrypt(p->desc,z.rounds,8,2,2,k,z.kl,o_data,20,out,77):kripto_pbkdf2(p->desc,z.rounds,3,k,z.kl,o_data,20,out,77); if(rc) vf_fail("key derivation failed"); put(out,77,"key derivation");
	}
	if(df) fclose(df);
}
static void reg(void)
{
	vf_fill=0xA5;
	if(strstr(vf_opt,"helpers")){
#ifdef HELPERS
		helpers_units();
#endif
		return; }
	writing = strstr(vf_opt,"write")!=0; prims_init();
	for(int i=0;i<nprims;i++) vf_unit(u_dig,prims+i,"digest/%s",prims[i].name);
}
int main(int argc,char**argv){ return vf_main(argc,argv,reg); }
