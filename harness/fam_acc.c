/* accessories: descriptor I/O with scripted faults, packing, encryption */
#include "vt.h"
#include <sys/types.h>
#include "strbuf_io.h"
#include "strview_io.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
#include "strbuf_crypt/strbuf_crypt.h"

/* descriptors and errors of all kinds: which, is drawn from the seed of the call */
static const int fds[]={1234,0,1,2,3,255,256,65537,1234}, errs[]={EAGAIN,EINTR,EIO,EPIPE,ENOSPC,EBADF,EINVAL,ECONNRESET,EFBIG,ENOMEM,ETIMEDOUT};
#define FD fds[io.seed%(sizeof fds/sizeof *fds)]
#define ERR errs[io.seed/3%(sizeof errs/sizeof *errs)]
#define BEFORE (io.seed%5==0?EINTR:io.seed%5==1?EAGAIN:io.seed%5==2?0:EBADMSG)
/* ---- scripted read() and write(): the library's calls are redirected here ---- */
static struct { int calls; long offered; const char* p; int fd; long ret; int mode; long val; int seed; int xn; uint8_t* x; } io;
static void io_arm(void){ uint8_t* x=io.x ? io.x : xmalloc(70000); memset(&io,0,sizeof io); io.x=x; io.mode=tok()[0]=='r'; io.val=tokl(); io.seed=toki(); }
static long io_ret(long n){ long r = io.mode ? n+io.val : io.val; if(r>n) r=n; if(r<-1) r=-1; return r; }
ssize_t vt_read(int fd, void* p, size_t n)
{
	long i;
	vt_yield();
	io.calls++; io.fd=fd; io.p=p; io.offered=(long)n; io.ret=io_ret((long)n);
	if(io.calls>50) abort();
	if(io.ret<0){ errno=ERR; return -1; }
	for(i=0;i<io.ret;i++){ ((uint8_t*)p)[i]=(uint8_t)(io.seed*37+i*11); if(i<70000) io.x[i]=((uint8_t*)p)[i]; }
	io.xn=(int)(io.ret<70000?io.ret:70000);
	return io.ret;
}
ssize_t vt_write(int fd, const void* p, size_t n)
{
	vt_yield();
	io.calls++; io.fd=fd; io.p=p; io.offered=(long)n; io.ret=io_ret((long)n);
	if(io.calls>50) abort();
	io.xn=(int)(n<70000?n:70000); memcpy(io.x,p,io.xn);
	if(io.ret<0){ errno=ERR; return -1; }
	return io.ret;
}
/* ---- a view with its own memory ---- */
static uint8_t* vb; static uint8_t* vbc; static int vbn; static strview_t av;
static void vdrop(void){ if(vb) free_exact(vb); free(vbc); vb=NULL; vbc=NULL; vbn=0; av=STRVIEW_INVALID; }
void acc_reset(void){ buf_reset(); vdrop(); }
void acc_finish(void){ buf_finish(); vdrop(); }
static void oav(void)
{
	if(!av.data) fprintf(out,",\"V\":[0,0,%d]",av.size);
	else if(vb && (uint8_t*)av.data>=vb && (uint8_t*)av.data<=vb+vbn) fprintf(out,",\"V\":[1,%ld,%d]",(long)((uint8_t*)av.data-vb),av.size);
	else fprintf(out,",\"V\":[-1,0,%d]",av.size);
	fprintf(out,",\"vm\":%d", !vb || !memcmp(vb,vbc,vbn));
}
static void vset(const void* p,int n)
{
	bytes_t b=exact_new(n); vdrop(); memcpy(b.p,p,n); vb=b.p; vbn=n; vbc=xmalloc(n); memcpy(vbc,p,n);
	av=(strview_t){(char*)vb,n};
}
bool acc_op(const char* op)
{
	int s,i,rv;
	#define IS(x) (!strcmp(op,x))
	if(IS("rd")||IS("wr"))
	{
		s=toki(); io_arm(); ev_begin(op,s);
		strbuf_t* b0 = s>0 ? slot[s]:NULL; char* base=b0?b0->cstr:NULL;
		errno=BEFORE;
		rv = IS("rd") ? strbuf_append_read(hnd(s),FD) : strbuf_write(FD,hnd(s));
		fprintf(out,",\"nq\":%d,\"q\":%ld,\"qo\":%ld,\"fd\":%d,\"i\":%ld,\"rv\":%d,\"en\":%d",io.calls,io.offered,base?(long)(io.p-base):0,io.calls?io.fd==FD:1,io.ret,rv, rv<0?errno==ERR:1);
		obytes("x",io.x,io.xn);
		fprintf(out,",\"r\":[9,0,0]"); oav(); ev_target(s); ev_end(s); return true;
	}
	if(IS("vset")){ bytes_t b=tokhex(); vset(b.p,b.n); fprintf(out,"{\"op\":\"vset\",\"s\":0"); obytes("b",b.p,b.n); free_exact(b.p); oav(); ev_target(0); ev_end(0); return true; }
	if(IS("vbuf")){ s=toki(); if(s>0&&slot[s]) vset(slot[s]->cstr,slot[s]->size); else vdrop(); fprintf(out,"{\"op\":\"vbuf\",\"s\":0,\"s2\":%d",s); oav(); ev_target(0); ev_end(0); return true; }
	if(IS("vinv")){ vdrop(); fprintf(out,"{\"op\":\"vinv\",\"s\":0"); oav(); ev_target(0); ev_end(0); return true; }
	if(IS("vw"))
	{
		int nul=toki(); io_arm(); const char* base=av.data;
		errno=BEFORE; rv=strview_write(FD,nul?NULL:&av);
		fprintf(out,"{\"op\":\"vw\",\"s\":0,\"nul\":%d,\"nq\":%d,\"q\":%ld,\"qo\":%ld,\"fd\":%d,\"i\":%ld,\"rv\":%d,\"en\":%d",nul,io.calls,io.offered,io.calls&&base?(long)(io.p-base):0,io.calls?io.fd==FD:1,io.ret,rv,rv<0?errno==ERR:1);
		obytes("x",io.x,io.xn); oav(); ev_target(0); ev_end(0); return true;
	}
	if(IS("pack"))
	{	/* pack s type order value(8 bytes, little endian) */
		s=toki(); const char* ty=tok(); int be=tok()[0]=='b'; bytes_t b=tokhex(); uint64_t u=0; strbuf_t** h=hnd(s); int n=0;
		memcpy(&u,b.p,8); free_exact(b.p);
		ev_begin(op,s);
		/* the operand is a variable (of any name), a constant object, or an expression; w: the conversion's value, widened */
		int64_t w=0; int sg=ty[0]=='i';
		w=hdr_pack(h,ty,be,u,&n);
		fprintf(out,",\"be\":%d,\"sg\":%d,\"r\":[9,0,0]",be,sg); obytes("x",&u,n); obytes("wv",&w,8); oav();
		ev_target(s); ev_end(s); return true;
	}
	if(IS("unpack"))
	{
		const char* ty=tok(); int be=tok()[0]=='b'; int n=0, sg=ty[0]=='i'; int64_t w=0; uint8_t raw[8]; memset(raw,0,8);
		#define SZ(nm,T) if(!strcmp(ty,nm)) n=sizeof(T);
		SZ("u8",uint8_t) SZ("i8",int8_t) SZ("u16",uint16_t) SZ("i16",int16_t) SZ("u32",uint32_t) SZ("i32",int32_t) SZ("u64",uint64_t) SZ("i64",int64_t)
		if(!av.data || av.size<n){ fprintf(out,"{\"op\":\"nop\"}\n"); return true; }     /* the macros need enough bytes */
		w=hdr_unpack(&av,ty,be,raw);
		fprintf(out,"{\"op\":\"unpack\",\"s\":0,\"be\":%d,\"sg\":%d,\"n\":%d",be,sg,n); obytes("x",raw,n); obytes("wv",&w,8); oav(); ev_target(0); ev_end(0); return true;
	}
	if(IS("enc")||IS("dec"))
	{
		uint8_t key[32],iv[16]; strview_t r; s=toki(); bytes_t k=lit_add(tokhex(),0), v=lit_add(tokhex(),0);
		if(k.n!=32||v.n!=16) _exit(77);
		(void)key;(void)iv;
		ev_begin(op,s); obytes("key",k.p,32); obytes("iv",v.p,16);
		r = IS("enc") ? strbuf_encrypt(hnd(s),k.p,v.p) : strbuf_decrypt(hnd(s),k.p,v.p);
		ev_ret(r,s); oav(); ev_target(s); ev_end(s); return true;
	}
	if(IS("long"))
	{	/* a long text through both directions; blocks here and there are recorded: index, text, previous encrypted block, encrypted block */
		int kind=toki(), n=toki(), mul=toki(), flip=toki(), nb=n/16+1, j, first=1; bytes_t k=lit_add(tokhex(),0), v=lit_add(tokhex(),0);
		static const int at[]={0,1,2,15,16,127,128,254,255,256,257,4095,4096,4097,32767,32768,65534,65535,65536,65537};
		char* mem=NULL; strbuf_t* b; strview_t r; uint8_t* old=xmalloc(n+1); uint8_t last[32]; int ok, es, ds, bs;
		#define BYTE(i) (uint8_t)((i)*mul+((i)>>7))
		for(i=0;i<n;i++) old[i]=BYTE(i);
		if(kind){ mem=xmalloc(sizeof(strbuf_t)+nb*16+1); b=strbuf_create_fixed(mem,sizeof(strbuf_t)+nb*16+1); } else b=strbuf_create((size_t)0,vt_allocator(2));
		strbuf_assign(&b,(strview_t){(char*)old,n});
		r=strbuf_encrypt(&b,k.p,v.p); es=r.size; ok = r.data==b->cstr && b->size==es && b->cstr[es]==0;
		fprintf(out,"{\"op\":\"long\",\"s\":0,\"n\":%d,\"es\":%d,\"ok\":%d",n,es,ok); obytes("key",k.p,32); obytes("iv",v.p,16); fprintf(out,",\"b\":[");
		if(es==nb*16) for(j=0;j<(int)(sizeof at/sizeof *at)+2;j++)
		{
			i = j<(int)(sizeof at/sizeof *at) ? at[j] : nb-(j-(int)(sizeof at/sizeof *at))-1;
			if(i<0||i>=nb||(j<(int)(sizeof at/sizeof *at)&&i>=nb-2)) continue;
			fprintf(out,"%s{\"i\":%d",first?"":",",i); first=0;
			obytes("p",old+i*16,i*16+16<=n?16:n-i*16); obytes("q",i?(uint8_t*)b->cstr+i*16-16:v.p,16); obytes("c",(uint8_t*)b->cstr+i*16,16); fprintf(out,"}");
		}
		fprintf(out,"]");
		uint8_t* enc=xmalloc(nb*16); memcpy(enc,b->cstr,es<nb*16?es:nb*16);
		r=strbuf_decrypt(&b,k.p,v.p); ds=r.size; ok = r.data==b->cstr && b->size==ds && b->cstr[ds]==0 && ds==n && !memcmp(b->cstr,old,n);
		fprintf(out,",\"ds\":%d,\"dk\":%d",ds,ok);
		/* once more, with the last encrypted block damaged */
		memset(last,0,32); if(nb>1) memcpy(last,enc+nb*16-32,32); else { memcpy(last,v.p,16); memcpy(last+16,enc,16); }
		if(es==nb*16){ enc[nb*16-1]^=(uint8_t)flip; last[31]^=(uint8_t)flip; strbuf_assign(&b,(strview_t){(char*)enc,nb*16}); r=strbuf_decrypt(&b,k.p,v.p); }
		bs = r.data ? r.size : -1; ok = (r.data ? r.data==b->cstr && b->size==r.size : b->size==0) && b->cstr[b->size]==0;
		fprintf(out,",\"bs\":%d,\"bk\":%d",bs,ok); obytes("lq",last,16); obytes("lc",last+16,16);
		strbuf_destroy(&b); free(mem); free(old); free(enc);
		fprintf(out,",\"m\":%d,\"e\":%d}\n",lit_check(),vt_err); return true;
	}
	if(IS("poke"))
	{	/* the environment damages one stored byte (ciphertext corruption), or the user cuts the content */
		s=toki(); i=toki(); int x=toki(); strbuf_t* b=s>0?slot[s]:NULL;
		ev_begin(op,s);
		if(b && b->size){ i%=b->size; b->cstr[i]^=(char)x; } else { i=0; x=0; }
		fprintf(out,",\"i\":%d,\"n\":%d,\"r\":[9,0,0]",i,x); oav(); ev_target(s); ev_end(s); return true;
	}
	return false;
}
