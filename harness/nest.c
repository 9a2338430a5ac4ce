/* Interleaving: two histories run in one process, each in its own copy of the driver's state, on one copy of the library.
   The library's objects are compiled with -fsanitize=thread but linked against the callbacks below instead of a race
   detector: every memory access of library code, every call of libc's memory functions, of an allocator, of a fetcher and of
   read()/write() is a point where the other history's next call may run to completion. */
#include "vt.h"
int vt_depth, vt_watching; long vt_yields;
static long countdown; static char* pending; static int fired;
static char* img; static size_t nimg;
extern char __start_vtdata[] __attribute__((weak)), __stop_vtdata[] __attribute__((weak));

extern char __start_libdata[] __attribute__((weak)), __stop_libdata[] __attribute__((weak));
static char* libimg;
/* the library's variables as when the process started: what only happens the first time happens in every pair */
void nest_fresh(void){ if(libimg && !vt_depth) memcpy(__start_libdata,libimg,__stop_libdata-__start_libdata); }

static void swap_ctx(void)
{
	static char tmp[1<<16]; size_t i,n; char* a=__start_vtdata;
	for(i=0;i<nimg;i+=n)
	{
		n = nimg-i < sizeof tmp ? nimg-i : sizeof tmp;
		memcpy(tmp,a+i,n); memcpy(a+i,img+i,n); memcpy(img+i,tmp,n);
	}
}
int nest_ready(void){ return nimg>0; }
void nest_init(FILE* out2)
{
	if(!__start_vtdata || !out2) return;
	nimg=__stop_vtdata-__start_vtdata; img=malloc(nimg); if(!img) abort();
	memcpy(img,__start_vtdata,nimg);
	swap_ctx(); out=out2; swap_ctx();
	if(__start_libdata){ libimg=malloc(__stop_libdata-__start_libdata+1); if(!libimg) abort(); memcpy(libimg,__start_libdata,__stop_libdata-__start_libdata); }
}
/* a line of the other history, now */
void nest_run(char* line)
{
	int e=errno;
	vt_depth++; swap_ctx(); vt_line(line); fflush(out); swap_ctx(); vt_depth--;
	errno=e;
}
void nest_arm(long k, char* line){ free(pending); pending=strdup(line); countdown=k; fired=0; }
void nest_flush(void){ if(pending){ char* p=pending; pending=NULL; nest_run(p); free(p); } }
void vt_yield(void)
{
	if(vt_depth) return;
	vt_yields++;
	if(vt_watching && !vt_watch()) vt_touched=1;
	if(pending && --countdown<=0) nest_flush();
}
#define Y(name) void name(void* p){ (void)p; vt_yield(); }
void __tsan_init(void){}
Y(__tsan_func_entry) void __tsan_func_exit(void){ vt_yield(); }
#define YS(k) Y(__tsan_read##k) Y(__tsan_write##k) Y(__tsan_volatile_read##k) Y(__tsan_volatile_write##k) Y(__tsan_unaligned_read##k) Y(__tsan_unaligned_write##k) \
	Y(__tsan_unaligned_volatile_read##k) Y(__tsan_unaligned_volatile_write##k) Y(__tsan_read##k##_pc) Y(__tsan_write##k##_pc)
YS(1) YS(2) YS(4) YS(8) YS(16)
void __tsan_read_range(void* p, long n){ (void)p; (void)n; vt_yield(); }
void __tsan_write_range(void* p, long n){ (void)p; (void)n; vt_yield(); }
void __tsan_vptr_update(void** a, void* b){ (void)a; (void)b; }
/* libc's memory functions, redirected from the library's objects */
void* vt_memcpy(void* d, const void* s, size_t n){ void* r; vt_yield(); r=memcpy(d,s,n); vt_yield(); return r; }
void* vt_memmove(void* d, const void* s, size_t n){ void* r; vt_yield(); r=memmove(d,s,n); vt_yield(); return r; }
void* vt_memset(void* d, int c, size_t n){ void* r; vt_yield(); r=memset(d,c,n); vt_yield(); return r; }
int vt_memcmp(const void* d, const void* s, size_t n){ int r; vt_yield(); r=memcmp(d,s,n); vt_yield(); return r; }
void* vt_memchr(const void* d, int c, size_t n){ void* r; vt_yield(); r=(void*)memchr(d,c,n); vt_yield(); return r; }
size_t vt_strlen(const char* s){ size_t r; vt_yield(); r=strlen(s); vt_yield(); return r; }
int vt_vsnprintf(char* d, size_t n, const char* f, va_list va){ int r; vt_yield(); r=vsnprintf(d,n,f,va); vt_yield(); return r; }
