#include "vt.h"
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#if defined(__SANITIZE_ADDRESS__)
#define VT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#endif
#endif
#ifdef VT_ASAN
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(p,n) ((void)(p),(void)(n))
#define ASAN_UNPOISON_MEMORY_REGION(p,n) ((void)(p),(void)(n))
#endif

FILE* out; char** tk; int ntk, tp;
static int fill = 0xA5;

/* the end of one block is never the start of another */
#ifdef VT_ASAN
void* xmalloc(size_t n){ void* p = malloc(n ? n : 1); if(!p) abort(); return p; }
#else
void* xmalloc(size_t n){ void* p = malloc(n+1); if(!p) abort(); return p; }
#endif
bool tokend(void){ return tp >= ntk; }
const char* tok(void){ if(tp >= ntk){ fprintf(stderr,"script: missing token\n"); _exit(77);} return tk[tp++]; }
long tokl(void){ return strtol(tok(), NULL, 10); }
int toki(void){ return (int)tokl(); }
static int hexv(int c){ return c <= '9' ? c-'0' : c-'a'+10; }
static bytes_t hex0(int extra)
{
	const char* t = tok(); bytes_t b; int i;
	b.n = t[0]=='-' ? 0 : (int)strlen(t)/2;
	/* exact-size block; an empty one still gets a block, whose single byte is poisoned */
	b.p = xmalloc(b.n+extra);
	for(i=0;i<b.n;i++) b.p[i] = hexv(t[2*i])*16 + hexv(t[2*i+1]);
	for(i=0;i<extra;i++) b.p[b.n+i]=0;
	if(b.n+extra == 0) ASAN_POISON_MEMORY_REGION(b.p,1);
	return b;
}
bytes_t exact_new(int n){ bytes_t b={xmalloc(n),n}; if(n==0) ASAN_POISON_MEMORY_REGION(b.p,1); return b; }
void free_exact(void* p){ if(!p) return; ASAN_UNPOISON_MEMORY_REGION(p,1); free(p); }
bytes_t tokhex(void){ return hex0(0); }
bytes_t tokhexz(void){ return hex0(1); }

/* ---- output ---- */
void obytes(const char* name, const void* p, long n)
{
	fprintf(out, ",\"%s\":", name); olit(p,n);
}
void olit(const void* p, long n)
{
	const uint8_t* q = p; long i;
	fputc('[', out);
	for(i=0;i<n;i++){ int v=q[i]; if(i) fputc(',',out); if(v>=100) fputc('0'+v/100,out); if(v>=10) fputc('0'+v/10%10,out); fputc('0'+v%10,out); }
	fputc(']', out);
}

/* ---- literal sources ---- */
#define MAXLIT 1400
static struct { uint8_t* p; uint8_t* copy; int n; int an; } lits[MAXLIT]; static int nlit;
void lit_reset(void){ nlit=0; }
bytes_t lit_add(bytes_t b, int extra)
{
	if(nlit>=MAXLIT){ fprintf(stderr,"too many literals\n"); _exit(77);}
	lits[nlit].p=b.p; lits[nlit].n=b.n+extra; lits[nlit].copy=xmalloc(b.n+extra);
	memcpy(lits[nlit].copy,b.p,b.n+extra); nlit++;
	return b;
}
int lit_check(void)
{
	int ok=!vt_touched,i;
	for(i=0;i<nlit;i++)
	{
		if(memcmp(lits[i].p,lits[i].copy,lits[i].n)) ok=0;
		ASAN_UNPOISON_MEMORY_REGION(lits[i].p,1);
		free(lits[i].p); free(lits[i].copy);
	}
	nlit=0;
	return ok;
}

/* ---- allocators: 1 stdlib (the library's malloc/realloc/free are redirected here), 2 and 3 always move, 4 in place ---- */
#define ARENA 4096
typedef struct { char* p; size_t n; size_t real; int id; } blk_t;
#define MAXBLK 1500
static blk_t blks[MAXBLK]; static int nblk;
int vt_live[NALLOC+1]; int vt_err, vt_used;
static int blk_find(const void* p){ int i; for(i=0;i<nblk;i++) if(blks[i].p==p) return i; return -1; }
long vt_block_size(const void* p, int* id){ int i=blk_find(p); if(i<0) return -1; if(id) *id=blks[i].id; return (long)blks[i].n; }
static void* blk_new(int id, size_t n)
{
	size_t real = id==4 ? (n > ARENA ? n : ARENA) : n;
	char* p;
	if(n > (size_t)64<<20){ fprintf(stderr,"allocation of %zu\n",n); vt_err|=16; abort(); }
	p = xmalloc(real);
	memset(p, fill, real);
	if(real>n) ASAN_POISON_MEMORY_REGION(p+n, real-n);
	if(nblk>=MAXBLK){ fprintf(stderr,"too many blocks\n"); abort(); }
	blks[nblk++] = (blk_t){p,n,real,id};
	vt_live[id]++;
	return p;
}
static void blk_del(int i)
{
	ASAN_UNPOISON_MEMORY_REGION(blks[i].p, blks[i].real);
	memset(blks[i].p, 0xDD, blks[i].real);
	free(blks[i].p);
	vt_live[blks[i].id]--;
	blks[i]=blks[--nblk];
}
static void* vt_re(int id, void* p, size_t n)
{
	int i; void* q; size_t c;
	if(!p) return blk_new(id,n);
	i=blk_find(p);
	if(i<0){ vt_err|=1; fprintf(stderr,"resize of a pointer which is not a live block\n"); abort(); }
	if(blks[i].id!=id) vt_err|=2;
	id=blks[i].id;
	if(id==4 && n<=blks[i].real)
	{
		ASAN_UNPOISON_MEMORY_REGION(blks[i].p, blks[i].real);
		if(n>blks[i].n) memset(blks[i].p+blks[i].n, fill, n-blks[i].n);
		blks[i].n=n;
		ASAN_POISON_MEMORY_REGION(blks[i].p+n, blks[i].real-n);
		return p;
	}
	q=blk_new(id,n); i=blk_find(p);
	c = blks[i].n<n ? blks[i].n : n;
	memcpy(q,p,c);
	blk_del(i);
	return q;
}
static void vt_del(int id, void* p)
{
	int i;
	if(!p) return;
	i=blk_find(p);
	if(i<0){ vt_err|=1; fprintf(stderr,"release of a pointer which is not a live block\n"); abort(); }
	if(blks[i].id!=id) vt_err|=2;
	blk_del(i);
}
/* "armf k": the k-th request for memory from now on is refused (recorded as it happens); what must come next is the library's allocation check */
static int vt_fail; static bool vt_refusing; static char vt_call[16]; static int vt_call_slot;
static bool refused(void)
{
	if(vt_fail<=0 || --vt_fail) return false;
	vt_refusing=true;
	fprintf(out," \n{\"op\":\"refuse\",\"s\":0}\n");       /* a record already begun is void: the call cannot return */
	return true;
}
void vt_assert_fail(const char* what, const char* file, unsigned line, const char* func)
{
	if(!vt_refusing){ fprintf(stderr,"%s:%u: %s: assertion %s\n",file,line,func,what); abort(); }
	fprintf(out,"{\"op\":\"stop\",\"c\":\"%s\",\"s\":%d}\n",vt_call,vt_call_slot);
	fclose(out);
	_exit(76);
}
/* redirected from the library's objects (objcopy --redefine-sym) */
void* vt_malloc(size_t n){ vt_yield(); vt_used|=2; return refused() ? NULL : blk_new(1,n); }
void* vt_calloc(size_t a, size_t b){ void* p; vt_yield(); vt_used|=2; if(refused()) return NULL; p=blk_new(1,a*b); memset(p,0,a*b); return p; }
void* vt_realloc(void* p, size_t n){ vt_yield(); vt_used|=2; return refused() ? NULL : vt_re(1,p,n); }
void vt_free(void* p){ vt_yield(); vt_used|=2; vt_del(1,p); }

static int magic[NALLOC+1];
static void* alloc_func(struct strbuf_allocator_t* a, void* p, size_t n)
{
	vt_yield();
	int id = a->app_data ? (int)((int*)a->app_data - magic) : NALLOC;      /* the last one has no application data */
	if(id<1||id>NALLOC||a->allocator!=alloc_func){ vt_err|=4; fprintf(stderr,"allocator called with foreign allocator data\n"); abort(); }
	vt_used|=1<<id;
	if(n==0){ if(!p) vt_err|=8; vt_del(id,p); return NULL; }
	return vt_re(id,p,n);
}
static strbuf_allocator_t allocs[NALLOC+1];
strbuf_allocator_t* vt_allocator(int id)
{
	int i = id<0 ? 0 : id;
	allocs[i].allocator = id<0 ? NULL : alloc_func; allocs[i].app_data= i==NALLOC ? NULL : &magic[i];
	return &allocs[i];
}
#ifdef VT_USER_DEFAULT
	strbuf_allocator_t strbuf_default_allocator = {.app_data=&magic[1], .allocator=alloc_func};
#endif
void vt_user_free(int id, void* p){ vt_del(id,p); }
void vt_reset(void)
{
	while(nblk) blk_del(nblk-1);
	memset(vt_live,0,sizeof vt_live); vt_err=0;
}

static void on_alarm(int sig){ (void)sig; _exit(78); }

/* a script: "H <id> <family>" starts a history; one call per line; the last line of each history is "end" */
/* ---- one line of a script ---- */
static char fam='b'; int vt_touched;
int vt_watch(void){ return fam=='b' ? lit_watch() : fam=='v' ? lit_watch() && view_watch() : fam=='n' ? num_watch() : 1; }
int lit_watch(void)
{
	int i;
	for(i=0;i<nlit;i++) if(lits[i].n<=VT_WATCHED() && memcmp(lits[i].p,lits[i].copy,lits[i].n)) return 0;
	return 1;
}
void vt_line(char* p)
{
	char* toks[1200]; bool ok=false; ntk=0; tp=0;
	while(*p)
	{
		while(*p==' '||*p=='\n') *p++=0;
		if(!*p) break;
		if(ntk<1200) toks[ntk++]=p;
		while(*p&&*p!=' '&&*p!='\n') p++;
	}
	if(!ntk) return;
	tk=toks;
	const char* op=tok();
	if(!strcmp(op,"H"))
	{
		const char* id=tok(); fam=tok()[0];
		struct itimerval it={{0,0},{5,0}}; setitimer(ITIMER_PROF,&it,NULL);
		vt_reset(); lit_reset(); vt_touched=0; vt_fail=0; vt_refusing=false; nest_fresh();
		if(fam=='b') buf_reset(); else if(fam=='v') view_reset(); else if(fam=='n') num_reset(); else if(fam=='h') huge_reset(); else acc_reset();
		fprintf(out,"H %s\n",id);
		tk=NULL; return;
	}
	vt_used=0; vt_touched=0;
	snprintf(vt_call,sizeof vt_call,"%s",op); vt_call_slot = ntk>1 ? atoi(toks[1]) : 0;
	if(!strcmp(op,"armf")){ vt_fail=vt_call_slot; fprintf(out,"{\"op\":\"nop\"}\n"); ok=true; }
	else if(!strcmp(op,"end"))
	{
		if(fam=='b') buf_finish(); else if(fam=='v') view_finish(); else if(fam=='n') num_finish(); else if(fam=='h') huge_finish(); else acc_finish();
		ok=true;
	}
	else if(fam=='b') ok=buf_op(op);
	else if(fam=='v') ok=view_op(op);
	else if(fam=='n') ok=num_op(op);
	else if(fam=='h') ok=huge_op(op);
	else ok=acc_op(op) || buf_op(op);
	if(!ok){ fprintf(stderr,"script: unknown op %s\n",op); _exit(77); }
	tk=NULL;
}

/* a script: "H <id> <family>" starts a history; one call per line; the last line of each history is "end".
   "@- <line>" is a line of the other history; "@<k> <line>" one which runs at the k-th yield point of the next call */
int main(int argc, char** argv)
{
	FILE* in; FILE* out2; FILE* cnt; char* line=NULL; size_t cap=0; ssize_t n;
	if(argc<3) return 77;
	in=fopen(argv[1],"r"); out=fopen(argv[2],"w");
	if(!in||!out) return 77;
	if(argc>3) fill=atoi(argv[3]);
	out2 = argc>4 ? fopen(argv[4],"w") : NULL;
	cnt = argc>5 ? fopen(argv[5],"w") : NULL;
	vt_watching = argc<=4;
	setvbuf(out, NULL, _IOLBF, 1<<20);
	signal(SIGPROF,on_alarm);
	nest_init(out2);
	while((n=getline(&line,&cap,in))>0)
	{
		if(line[0]=='@')
		{
			char* p=strchr(line,' ');
			if(!p||!nest_ready()){ fprintf(stderr,"script: no interleaving here\n"); _exit(77); }
			if(line[1]=='-') nest_run(p+1); else nest_arm(strtol(line+1,NULL,10),p+1);
			continue;
		}
		vt_yields=0;
		vt_line(line);
		nest_flush();
		if(cnt) fprintf(cnt,"%ld\n",vt_yields);
	}
	fclose(out);
	if(cnt) fclose(cnt);
	return 0;
}
