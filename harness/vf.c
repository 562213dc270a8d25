#define _GNU_SOURCE
#include "vf.h"
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#include <sanitizer/asan_interface.h>
#endif

#ifdef VF_ASAN
const char *__asan_default_options(void){ return "detect_leaks=0:abort_on_error=0:exitcode=98"; }
#endif
#define MAXUNITS 20000
typedef struct { vf_fn fn; void *arg; char name[160]; } unit_t;
static unit_t *units; static int nunits;

typedef struct {
	volatile long case_no;      /* current case index */
	volatile long alive;
	const char *volatile fmt; long args[8]; int nargs;
	long cases, states, trans, validated, nontrivial, known;
	int done, failed; long fail_case; char what[600]; char desc[400];
	char sample[300];
} shared_t;
static shared_t *sh;            /* in child: own slot */
static long only_case = -1, upto_case = -1;
int vf_thorough, vf_verbose; const char *vf_opt = "";
static int cur_unit = -1;

void vf_unit(vf_fn fn, void *arg, const char *fmt, ...)
{
	va_list ap;
	if(!units) units = calloc(MAXUNITS, sizeof *units);
	if(nunits >= MAXUNITS){ fprintf(stderr, "too many units\n"); exit(2); }
	va_start(ap, fmt); vsnprintf(units[nunits].name, sizeof units[0].name, fmt, ap); va_end(ap);
	units[nunits].fn = fn; units[nunits].arg = arg; nunits++;
}
static void describe(shared_t *s, char *o, size_t n)
{
	long *a = s->args;
	if(!s->fmt){ snprintf(o, n, "(before the first case)"); return; }
	snprintf(o, n, s->fmt, a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7]);
}
int vf_case_(const char *fmt, const long *args, int nargs)
{
	long i = ++sh->case_no;
	if(only_case >= 0 && i != only_case) return 0;
	if(upto_case >= 0 && i > upto_case) return 0;
	sh->fmt = fmt; memcpy(sh->args, args, (size_t)nargs*sizeof(long)); sh->nargs = nargs;
	sh->cases++;
	if(sh->cases == 1 || sh->cases == 37) describe(sh, sh->sample, sizeof sh->sample);
	vf_heap_reset();
	if(vf_verbose && only_case >= 0){ char b[400]; describe(sh, b, sizeof b); printf("case %ld: %s\n", i, b); }
	return 1;
}
void vf_alive(void){ if(sh) sh->alive++; }
static void die_failed(void)
{
	sh->failed = 1; sh->fail_case = sh->case_no;
	describe(sh, sh->desc, sizeof sh->desc);
	fflush(stdout);
	_exit(3);
}
void vf_fail(const char *fmt, ...)
{
	va_list ap; va_start(ap, fmt); vsnprintf(sh->what, sizeof sh->what, fmt, ap); va_end(ap);
	die_failed();
}
static void hex(char *o, const u8 *p, size_t n){ for(size_t i=0;i<n;i++) sprintf(o+2*i, "%02x", p[i]); o[2*n]=0; }
int vf_eq(const void *got, const void *exp, size_t n, const char *what)
{
	sh->validated++;
	if(n == 0 || !memcmp(got, exp, n)) return 1;
	size_t i=0; while(((const u8*)got)[i]==((const u8*)exp)[i]) i++;
	char a[70],b[70]; size_t m = n-i > 32 ? 32 : n-i;
	hex(a,(const u8*)got+i,m); hex(b,(const u8*)exp+i,m);
	vf_fail("%s: differs from byte %zu of %zu on: got %s expected %s", what, i, n, a, b);
	return 0;
}
int vf_true(int c, const char *what){ sh->validated++; if(!c) vf_fail("%s", what); return c; }
void vf_log(const char *fmt, ...)
{
	if(!vf_verbose || only_case < 0) return;
	va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n');
}
void vf_trans(long n){ sh->trans += n; }
void vf_validated(long n){ sh->validated += n; }
void vf_nontrivial(long n){ sh->nontrivial += n; }

/* ---- distinct states */
static u64 *set; static size_t set_cap, set_n;
u64 vf_hash(u64 h, const void *p, size_t n)
{
	const u8 *b = p; h ^= 0x9E3779B97F4A7C15ULL + n;
	while(n >= 8){ u64 w; memcpy(&w,b,8); h = (h ^ w) * 0xff51afd7ed558ccdULL; h ^= h >> 32; b+=8; n-=8; }
	u64 w = 0; memcpy(&w,b,n); h = (h ^ w) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 29;
	return h;
}
static void set_add(u64 h)
{
	if(!h) h = 1;
	if(set_n*2 >= set_cap)
	{
		size_t oc = set_cap; u64 *o = set;
		set_cap = oc ? oc*2 : 4096; set = calloc(set_cap, 8); set_n = 0;
		if(!set) _exit(4);
		for(size_t i=0;i<oc;i++) if(o[i]){ size_t j=o[i]&(set_cap-1); while(set[j]) j=(j+1)&(set_cap-1); set[j]=o[i]; set_n++; }
		free(o);
	}
	size_t j = h & (set_cap-1);
	while(set[j]){ if(set[j]==h) return; j=(j+1)&(set_cap-1); }
	set[j]=h; set_n++; sh->states++;
}
void vf_state(const void *p, size_t n){ set_add(vf_hash((u64)cur_unit*0x1234567, p, n)); }
void vf_state2(u64 a, const void *p, size_t n){ set_add(vf_hash(vf_hash((u64)cur_unit*0x1234567, &a, 8), p, n)); }

/* ---- heap */
#if UINTPTR_MAX > 0xFFFFFFFF
#define ARENA_BASE ((u8*)0x200000000000ULL)
#define ARENA_SIZE ((size_t)6<<30)
#else
#define ARENA_BASE ((u8*)0x40000000)
#define ARENA_SIZE ((size_t)1<<30)
#endif
#define RZ 64
#define MAXBLK 4096
static u8 *arena; static size_t arena_pos, arena_hi;
vf_block vf_blocks[MAXBLK]; int vf_nblocks;
long vf_alloc_count, vf_fail_at, vf_fail_from; size_t vf_alloc_limit; u8 vf_fill = 0xA5; int vf_fill_mode; size_t vf_heap_skew;
void (*vf_free_hook)(u8*,size_t,int);
static void arena_init(void)
{
	arena = mmap(ARENA_BASE, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE, -1, 0);
	if(arena == MAP_FAILED) arena = mmap(0, ARENA_SIZE, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if(arena == MAP_FAILED){ perror("mmap"); exit(2); }
}
void vf_heap_reset(void)
{
#ifdef VF_ASAN
	if(arena_hi) ASAN_POISON_MEMORY_REGION(arena, arena_hi < ARENA_SIZE ? arena_hi : ARENA_SIZE);
#endif
	if(arena_hi > (64u<<20)){ madvise(arena, arena_hi, MADV_DONTNEED); }
	arena_pos = 0; arena_hi = 0; vf_nblocks = 0;
	vf_alloc_count = 0; vf_fail_at = 0; vf_fail_from = 0; vf_alloc_limit = 0; vf_free_hook = 0;
}
int vf_persist;
void *vf_malloc(size_t n)
{
	if(vf_persist){ void *q = malloc(n); if(q) memset(q, 0xA5, n); return q; }
	vf_alloc_count++;
	if(vf_fail_at && vf_alloc_count == vf_fail_at) return 0;
	if(vf_fail_from && vf_alloc_count >= vf_fail_from) return 0;
	if(vf_alloc_limit && n > vf_alloc_limit) return 0;
	if(n > ARENA_SIZE - arena_pos - 4*RZ || vf_nblocks >= MAXBLK) return 0;
	size_t rn = (n + 15) & ~(size_t)15;
	u8 *p = arena + arena_pos + RZ + (vf_heap_skew & ~(size_t)15);
	size_t end = (size_t)(p - arena) + rn + RZ;
	if(end > ARENA_SIZE) return 0;
#ifdef VF_ASAN
	ASAN_UNPOISON_MEMORY_REGION(arena + arena_pos, end - arena_pos);
#endif
	memset(p - RZ, 0xC9, RZ);
	memset(p + n, 0xC9, rn - n + RZ);
	if(n < (16u<<20))
	{
		if(vf_fill_mode == 0) memset(p, vf_fill, n);
		else for(size_t i=0;i<n;i++) p[i] = (u8)(vf_fill + i*131 + (i>>3));
	}
#ifdef VF_ASAN
	ASAN_POISON_MEMORY_REGION(arena + arena_pos, end - arena_pos);
	ASAN_UNPOISON_MEMORY_REGION(p, n);
#endif
	arena_pos = end; if(end > arena_hi) arena_hi = end;
	vf_blocks[vf_nblocks].p = p; vf_blocks[vf_nblocks].n = n; vf_blocks[vf_nblocks].live = 1; vf_nblocks++;
	return p;
}
void *vf_calloc(size_t a, size_t b)
{
	if(b && a > (size_t)-1/b) return 0;
	void *p = vf_malloc(a*b); if(p) memset(p,0,a*b); return p;
}
static int find(void *p){ for(int i=vf_nblocks-1;i>=0;i--) if(vf_blocks[i].p==p) return i; return -1; }
static void canary(int i)
{
	u8 *p = vf_blocks[i].p; size_t n = vf_blocks[i].n, rn = (n+15)&~(size_t)15;
#ifndef VF_ASAN
	for(int k=1;k<=RZ;k++) if(p[-k]!=0xC9) vf_fail("write %d bytes before a heap block of %zu bytes", k, n);
	for(size_t k=n;k<rn+RZ;k++) if(p[k]!=0xC9) vf_fail("write %zu bytes past the end of a heap block of %zu bytes", k-n, n);
#else
	(void)p;(void)rn;
#endif
}
void vf_heap_check(void){ for(int i=0;i<vf_nblocks;i++) if(vf_blocks[i].live) canary(i); }
void vf_free(void *p)
{
	if(!p) return;
	int i = find(p);
	if(i < 0) vf_fail("free of a pointer that is not a heap block");
	if(!vf_blocks[i].live) vf_fail("double free of a heap block");
	canary(i);
	vf_blocks[i].live = 0;
	if(vf_free_hook) vf_free_hook(vf_blocks[i].p, vf_blocks[i].n, i);
	if(vf_blocks[i].n < (16u<<20)) memset(p, 0xDD, vf_blocks[i].n);
#ifdef VF_ASAN
	ASAN_POISON_MEMORY_REGION(p, vf_blocks[i].n);
#endif
}
void *vf_realloc(void *p, size_t n)
{
	if(!p) return vf_malloc(n);
	int i = find(p); if(i<0 || !vf_blocks[i].live) vf_fail("realloc of a pointer that is not a heap block");
	void *q = vf_malloc(n); if(!q) return 0;
	memcpy(q, p, n < vf_blocks[i].n ? n : vf_blocks[i].n);
	vf_free(p); return q;
}
int vf_heap_live(void){ int c=0; for(int i=0;i<vf_nblocks;i++) c+=vf_blocks[i].live; return c; }
u64 vf_heap_hash(void)
{
	u64 h = 7;
	for(int i=0;i<vf_nblocks;i++) if(vf_blocks[i].live && vf_blocks[i].n < 65536) h = vf_hash(h, vf_blocks[i].p, vf_blocks[i].n);
	return h;
}
void vf_fillpat(void *p, size_t n, unsigned seed)
{
	u32 x = seed*2654435761u + 12345;
	for(size_t i=0;i<n;i++){ x ^= x<<13; x ^= x>>17; x ^= x<<5; ((u8*)p)[i] = (u8)(x>>11); }
}

/* ---- scheduler of units */
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }
static double cpu_of(pid_t p){ clockid_t c; struct timespec t; if(clock_getcpuclockid(p,&c)||clock_gettime(c,&t)) return 0; return (double)t.tv_sec+1e-9*(double)t.tv_nsec; }
static char tmpdir[64];
static pid_t spawn(int u, shared_t *slot, long only, long upto, int verbose, const char *errf)
{
	memset((void*)slot, 0, sizeof *slot);
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if(p) return p;
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	struct rlimit rl = {0,0}; setrlimit(RLIMIT_CORE,&rl);
	int fd = open(errf, O_WRONLY|O_CREAT|O_TRUNC, 0600);
	if(fd>=0){ dup2(fd,2); close(fd); }
	sh = slot; only_case = only; upto_case = upto; vf_verbose = verbose; cur_unit = u;
	arena_init();
	units[u].fn(units[u].arg);
	sh->done = 1;
	fflush(stdout);
	_exit(0);
}
typedef struct { pid_t pid; int unit; shared_t *s; long lastc; double lastcpu, lastwall; char errf[128]; int hung; } worker_t;
static void readerr(const char *f, char *o, size_t n)
{
	o[0]=0; FILE *fp=fopen(f,"r"); if(!fp) return;
	char line[512]; size_t l=0;
	while(fgets(line,sizeof line,fp))
	{
		if(strstr(line,"Assert")||strstr(line,"assert")||strstr(line,"ERROR: AddressSanitizer")||strstr(line,"    #0 ")||strstr(line,"    #1 ")||strstr(line,"    #2 ")||strstr(line,"WRITE of")||strstr(line,"READ of")||strstr(line,"runtime error"))
		{ size_t k=strlen(line); if(k&&line[k-1]=='\n') line[--k]=0; if(l+k+4<n){ memcpy(o+l,line,k); l+=k; memcpy(o+l," | ",4); l+=3; } }
	}
	fclose(fp);
}
/* runs one unit restricted to `only` (or up to `upto`) to completion; 1 if it fails */
static int rerun(int u, shared_t *slot, long only, long upto, int verbose, double limit, char *what, size_t wn, int *hang)
{
	char errf[128]; snprintf(errf,sizeof errf,"%s/r",tmpdir);
	pid_t p = spawn(u, slot, only, upto, verbose, errf);
	double t0=now(); long lc=-1,la=-1; double lcpu=0;
	int st; *hang = 0;
	for(;;)
	{
		pid_t r = waitpid(p,&st,WNOHANG);
		if(r==p) break;
		usleep(2000);
		double c = cpu_of(p);
		if(slot->case_no!=lc||slot->alive!=la){ lc=slot->case_no; la=slot->alive; lcpu=c; t0=now(); }
		if(c-lcpu > limit || now()-t0 > limit*6+60){ kill(p,SIGKILL); waitpid(p,&st,0); *hang=1; break; }
	}
	if(*hang){ snprintf(what,wn,"does not terminate (no progress within %.0f s of processor time)",limit); return 1; }
	if(slot->failed){ snprintf(what,wn,"%s",slot->what); return 1; }
	if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0))
	{
		char e[900]; readerr(errf,e,sizeof e);
		if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL) return 0; /* killed from outside (memory): not a result */
		if(WIFSIGNALED(st)) snprintf(what,wn,"crash: signal %d (%s) %s",WTERMSIG(st),strsignal(WTERMSIG(st)),e);
		else snprintf(what,wn,"abnormal exit %d %s",WEXITSTATUS(st),e);
		return 1;
	}
	return 0;
}
/* a filter is a list of substrings separated by commas */
static int wanted(const char *filter, const char *name)
{
	if(!filter) return 1;
	char b[600]; snprintf(b,sizeof b,"%s",filter);
	for(char *t=strtok(b,",");t;t=strtok(0,",")) if(strstr(name,t)) return 1;
	return 0;
}
static void jstr(FILE *f, const char *s){ fputc('"',f); for(;*s;s++){ if(*s=='"'||*s=='\\'){fputc('\\',f);fputc(*s,f);} else if((unsigned char)*s<32) fputc(' ',f); else fputc(*s,f);} fputc('"',f); }

int vf_main(int argc, char **argv, void (*reg)(void))
{
	const char *only_unit=0,*statf=0,*filter=0; long only=-1,upto=-1; int jobs=8,list=0,first_only=0; double deadline=1e9,limit=20;
	for(int i=1;i<argc;i++)
	{
		if(!strcmp(argv[i],"--thorough")) vf_thorough=1;
		else if(!strcmp(argv[i],"--list")) list=1;
		else if(!strcmp(argv[i],"--first")) first_only=1;	/* stop at the first confirmed failure (development) */
		else if(i+1<argc&&!strcmp(argv[i],"--unit")) only_unit=argv[++i];
		else if(i+1<argc&&!strcmp(argv[i],"--filter")) filter=argv[++i];
		else if(i+1<argc&&!strcmp(argv[i],"--case")) only=atol(argv[++i]);
		else if(i+1<argc&&!strcmp(argv[i],"--upto")) upto=atol(argv[++i]);
		else if(i+1<argc&&!strcmp(argv[i],"--jobs")) jobs=atoi(argv[++i]);
		else if(i+1<argc&&!strcmp(argv[i],"--opt")) vf_opt=argv[++i];
		else if(i+1<argc&&!strcmp(argv[i],"--stats")) statf=argv[++i];
		else if(i+1<argc&&!strcmp(argv[i],"--deadline")) deadline=atof(argv[++i]);
		else if(i+1<argc&&!strcmp(argv[i],"--case-limit")) limit=atof(argv[++i]);
		else { fprintf(stderr,"bad option %s\n",argv[i]); return 2; }
	}
	reg();
	if(list){ for(int i=0;i<nunits;i++) puts(units[i].name); return 0; }
	snprintf(tmpdir,sizeof tmpdir,"/tmp/vf.XXXXXX"); if(!mkdtemp(tmpdir)){ perror("mkdtemp"); return 2; }
	shared_t *slots = mmap(0,(size_t)(jobs+1)*sizeof(shared_t),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
	int rc=0;
	if(only_unit)
	{
		int u=-1; for(int i=0;i<nunits;i++) if(!strcmp(units[i].name,only_unit)) u=i;
		if(u<0){ printf("no such unit: %s\n",only_unit); rc=2; goto out; }
		char what[1200]; int hang;
		printf("unit %s\n",only_unit);
		if(rerun(u,slots,only,upto,1,limit*6,what,sizeof what,&hang)){ char d[400]; describe(slots,d,sizeof d); printf("FAIL unit=%s case=%ld {%s}: %s\n",only_unit,slots->case_no,d,what); rc=1; }
		else { printf("PASS (%ld cases, %ld comparisons)\n",slots->cases,slots->validated); }
		goto out;
	}
	worker_t *w=calloc((size_t)jobs,sizeof *w);
	for(int j=0;j<jobs;j++){ w[j].s=slots+j; snprintf(w[j].errf,sizeof w[j].errf,"%s/e%d",tmpdir,j); }
	double T0=now(); int next=0,active=0,nfail=0,ndone=0,skipped=0,unrepro=0;
	long cases=0,states=0,trans=0,val=0,nontriv=0; int sel=0;
	static char samples[64][500]; int nsamples=0;
	FILE *sf = statf?fopen(statf,"w"):stdout; if(!sf){ perror(statf); rc=2; goto out; }
	fprintf(sf,"{\"failures\":[");
	int total=0; for(int i=0;i<nunits;i++) if(wanted(filter,units[i].name)) total++;
	double spent=0;
	while(1)
	{
		for(int j=0;j<jobs;j++) if(!w[j].pid)
		{
			while(next<nunits && !wanted(filter,units[next].name)) next++;
			if(next>=nunits) break;
			if(now()-T0>deadline){ skipped++; next++; j--; continue; }
			w[j].unit=next; w[j].pid=spawn(next,w[j].s,-1,-1,0,w[j].errf); w[j].lastc=-1; w[j].lastcpu=0; w[j].lastwall=now(); w[j].hung=0; next++; active++; sel++;
		}
		if(!active) break;
		int progressed=0;
		for(int j=0;j<jobs;j++) if(w[j].pid)
		{
			int st; pid_t r=waitpid(w[j].pid,&st,WNOHANG);
			shared_t *s=w[j].s;
			if(r==0)
			{
				double c=cpu_of(w[j].pid); long k=s->case_no+s->alive;
				if(k!=w[j].lastc){ w[j].lastc=k; w[j].lastcpu=c; w[j].lastwall=now(); }
				if(c-w[j].lastcpu>limit||now()-w[j].lastwall>limit*6+60){ kill(w[j].pid,SIGKILL); waitpid(w[j].pid,&st,0); w[j].hung=1; }
				else if(now()-T0>deadline+5){ kill(w[j].pid,SIGKILL); waitpid(w[j].pid,&st,0); skipped++; cases+=s->cases; trans+=s->trans; val+=s->validated; states+=s->states; nontriv+=s->nontrivial; w[j].pid=0; active--; continue; }
				else continue;
			}
			progressed=1;
			cases+=s->cases; trans+=s->trans; val+=s->validated; states+=s->states; nontriv+=s->nontrivial;
			if(s->sample[0] && (nsamples<12 || ndone%((total/40)+1)==0) && nsamples<40) snprintf(samples[nsamples++],500,"%s: %s",units[w[j].unit].name,s->sample);
			int bad = w[j].hung || s->failed || WIFSIGNALED(st) || (WIFEXITED(st)&&WEXITSTATUS(st)!=0) || !s->done;
			if(bad)
			{
				long fc=s->case_no; char what[1200],desc[400],first[600]; int hang;
				describe(s,desc,sizeof desc); snprintf(first,sizeof first,"%s",s->failed?s->what:w[j].hung?"hang":"crash");
				shared_t *rs=slots+jobs;
				int rep, mode=0; double r0=now();
				if(nfail && spent>60){ rep=1; snprintf(what,sizeof what,"%s",first); } /* confirmed failures exist; replaying costs too much */
				else rep = rerun(w[j].unit,rs,fc,-1,0,limit*3,what,sizeof what,&hang);
				if(!rep){ rep = rerun(w[j].unit,rs,-1,fc,0,limit*3,what,sizeof what,&hang); mode=1; }
				spent+=now()-r0;
				if(rep)
				{
					fprintf(sf,"%s\n {\"unit\":",nfail?",":""); jstr(sf,units[w[j].unit].name);
					fprintf(sf,",\"case\":%ld,\"mode\":%s,\"desc\":",fc,mode?"\"upto\"":"\"case\""); jstr(sf,desc);
					fprintf(sf,",\"what\":"); jstr(sf,what); fprintf(sf,"}"); nfail++;
				}
				else { unrepro++; fprintf(stderr,"unreproduced: unit %s case %ld {%s}: %s\n",units[w[j].unit].name,fc,desc,first); }
			}
			ndone++; w[j].pid=0; active--;
		}
		if(first_only && nfail){ for(int j=0;j<jobs;j++) if(w[j].pid){ kill(w[j].pid,SIGKILL); waitpid(w[j].pid,0,0); } break; }
		if(!progressed) usleep(1000);
	}
	fprintf(sf,"],\n\"units\":%d,\"units_skipped\":%d,\"unreproduced\":%d,\"cases\":%ld,\"states\":%ld,\"transitions\":%ld,\"validated\":%ld,\"nontrivial\":%ld,\"wall\":%.2f,\n\"samples\":[",ndone,skipped,unrepro,cases,states,trans,val,nontriv,now()-T0);
	for(int i=0;i<nsamples;i++){ if(i) fputc(',',sf); jstr(sf,samples[i]); }
	fprintf(sf,"]}\n"); if(sf!=stdout) fclose(sf);
	(void)sel;
	rc = nfail?1:0;
out:;
	char cmd[200]; for(int j=0;j<jobs;j++){ snprintf(cmd,sizeof cmd,"%s/e%d",tmpdir,j); unlink(cmd); }
	snprintf(cmd,sizeof cmd,"%s/r",tmpdir); unlink(cmd); rmdir(tmpdir);
	return rc;
}
