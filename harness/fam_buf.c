/* strbuf.h family */
#include "vt.h"
#include <wchar.h>

strbuf_t* slot[NSLOT+1];
static struct { strbuf_t* p; strbuf_t hdr; char* data; int n; } shadow[NSLOT+1];
static void* fixmem[NSLOT+1];           /* memory of fixed buffers, released at the end of the history */
#define MAXFIX 4096
static void* fixall[MAXFIX]; static int nfix;
typedef struct { char* p; int al; int fixed; } cs_t;
static cs_t cs[64]; static int ncs;
static strbuf_t* addr0;                 /* target's address before the call */

strbuf_t** hnd(int s){ return s ? &slot[s] : NULL; }

static void shadow_take(int s)
{
	free(shadow[s].data); shadow[s].data=NULL; shadow[s].p=slot[s];
	if(slot[s])
	{
		shadow[s].hdr=*slot[s];
		shadow[s].n=slot[s]->size>=0 && slot[s]->size<=slot[s]->capacity ? slot[s]->size+1 : 0;
		shadow[s].data=xmalloc(shadow[s].n); memcpy(shadow[s].data,slot[s]->cstr,shadow[s].n);
	}
}
static int shadow_ok(int s)
{
	if(shadow[s].p!=slot[s]) return 0;
	if(!slot[s]) return 1;
	return slot[s]->size==shadow[s].hdr.size && slot[s]->capacity==shadow[s].hdr.capacity
		&& slot[s]->allocator.allocator==shadow[s].hdr.allocator.allocator && slot[s]->allocator.app_data==shadow[s].hdr.allocator.app_data
		&& !memcmp(shadow[s].data,slot[s]->cstr,shadow[s].n);
}
void buf_reset(void)
{
	int i;
	for(i=0;i<nfix;i++) free(fixall[i]);
	nfix=0; ncs=0;
	for(i=1;i<=NSLOT;i++){ slot[i]=NULL; fixmem[i]=NULL; shadow_take(i); }
}

/* ---- event writing ---- */
void ev_begin(const char* op, int s)
{
	fprintf(out,"{\"op\":\"%s\",\"s\":%d",op,s);
	addr0 = s>0 ? slot[s] : NULL;
	vt_used=0;
}
void ev_ret(strview_t r, int s)
{
	strbuf_t* b = s>0 ? slot[s] : NULL;
	if(!r.data) fprintf(out,",\"r\":[%d,0,%d]", r.size==0?0:3, r.size==0?0:1);
	else if(b && r.data>=b->cstr && r.data<=b->cstr+(b->size>0?b->size:0)) fprintf(out,",\"r\":[1,%ld,%d]",(long)(r.data-b->cstr),r.size);
	else fprintf(out,",\"r\":[2,0,%d]",r.size);
}
static void ev_noret(void){ fprintf(out,",\"r\":[9,0,0]"); }
/* projected state of the target, the ledger, and the frame */
void ev_target(int s)
{
	strbuf_t* b = s>0 ? slot[s] : NULL;
	int wf=1, term=1, z=1, al=0, i, o=1, f=1, same=1;
	if(b)
	{
		int k = b->allocator.allocator ? 1:2;
		wf = b->size>=0 && b->capacity>=0 && b->size<=b->capacity;
		if(k==1)
		{
			long bs=vt_block_size(b,&al);
			z = bs>=0 && (size_t)bs >= sizeof(strbuf_t)+(size_t)(b->capacity<0?0:b->capacity)+1;
		}
		if(k==2 && addr0==b) same=1; else same=0;
		if(wf && z) term = b->cstr[b->size]==0;
		f = k==1 || !addr0 || same;
		fprintf(out,",\"k\":%d,\"cap\":%d,\"al\":%d",k,b->capacity,al);
		if(wf && z) obytes("D",b->cstr,b->size); else fprintf(out,",\"D\":[]");
	}
	else fprintf(out,",\"k\":0,\"cap\":0,\"al\":0,\"D\":[]");
	for(i=1;i<=NSLOT;i++) if(i!=s && !shadow_ok(i)) o=0;
	fprintf(out,",\"w\":%d,\"t\":%d,\"z\":%d,\"fa\":%d,\"o\":%d",wf,term,z,f,o);
	fprintf(out,",\"m\":%d",lit_check());
	fprintf(out,",\"u\":%d,\"L\":[%d,%d,%d,%d],\"e\":%d",vt_used,vt_live[1],vt_live[2],vt_live[3],vt_live[4],vt_err);
}
void ev_end(int s){ (void)s; fprintf(out,"}\n"); for(int i=1;i<=NSLOT;i++) shadow_take(i); }

/* ---- source arguments ---- */
typedef struct { strview_t v; const char* c; int isc; } arg_t;
static int pmod(int a, int m){ int r; if(m<=0) return 0; r=a%m; return r<0?r+m:r; }
static int live_size(int s){ return s>0 && slot[s] ? slot[s]->size : 0; }
static arg_t argparse(int s, int first)
{
	arg_t a; const char* t=tok(); bytes_t b; int o,n,q;
	memset(&a,0,sizeof a);
	if(!first) fputc(',',out);
	switch(t[0])
	{
	case 'L': b=lit_add(tokhex(),0); a.v.data=(char*)b.p; a.v.size=b.n; fprintf(out,"{\"t\":\"lit\",\"b\":"); olit(b.p,b.n); fputc('}',out); break;
	case 'F': case 'A':      /* a literal as long as what is left of (F) or as the whole (A) capacity, plus k */
		o=toki(); n=toki(); q = s>0&&slot[s] ? slot[s]->capacity-(t[0]=='F'?slot[s]->size:0) : 3; q+=o; if(q<0) q=0; if(q>5000) q=5000;
		b=exact_new(q); { int j; for(j=0;j<q;j++) b.p[j]=(uint8_t)(n*29+j*13); } b=lit_add(b,0); a.v.data=(char*)b.p; a.v.size=b.n;
		fprintf(out,"{\"t\":\"lit\",\"b\":"); olit(b.p,b.n); fputc('}',out); break;
	case 'C': b=lit_add(tokhexz(),1); a.isc=1; a.c=(char*)b.p; a.v=cstr(a.c); fprintf(out,"{\"t\":\"cs\",\"b\":"); olit(b.p,b.n); fputc('}',out); break;
	case 'c': a.isc=1; a.c=NULL; a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"csnil\"}"); break;
	case 'N': a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); break;
	case 'B': b=lit_add((bytes_t){memset(xmalloc(1),'x',1),1},0); n=toki(); a.v.data=(char*)b.p; a.v.size=n; fprintf(out,"{\"t\":\"big\",\"n\":%d}",n); break;
	case 'b':       /* a claimed length which is k beyond what the int range leaves (never to be read) */
		n=toki(); q=live_size(s);
		if(!(s>0&&slot[s]) || q<1){ a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); break; }
		n=1+pmod(n,q); n=INT_MAX-q+n;
		b=lit_add((bytes_t){memset(xmalloc(1),'x',1),1},0); a.v.data=(char*)b.p; a.v.size=n; fprintf(out,"{\"t\":\"big\",\"n\":%d}",n); break;
	case 'S': o=toki(); n=toki(); q=live_size(s);
		if(!(s>0&&slot[s])){ a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); break; }
		o=pmod(o,q+1); n=pmod(n,q-o+1); a.v.data=slot[s]->cstr+o; a.v.size=n;
		fprintf(out,"{\"t\":\"self\",\"o\":%d,\"n\":%d}",o,n); break;
	case 'T': o=toki(); q=live_size(s);       /* a char* into the buffer itself */
		if(!(s>0&&slot[s])){ a.isc=1; a.c=NULL; fprintf(out,"{\"t\":\"csnil\"}"); break; }
		o=pmod(o,q+1); a.isc=1; a.c=slot[s]->cstr+o; a.v=cstr(a.c);
		fprintf(out,"{\"t\":\"self\",\"o\":%d,\"n\":%d}",o,a.v.size); break;
	case 'O': { int s2=toki(); o=toki(); n=toki(); q=live_size(s2);
		if(s2==s){ if(slot[s]){ o=pmod(o,q+1); n=pmod(n,q-o+1); a.v.data=slot[s]->cstr+o; a.v.size=n; fprintf(out,"{\"t\":\"self\",\"o\":%d,\"n\":%d}",o,n);} else { a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); } break; }
		if(!slot[s2]){ a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); break; }
		o=pmod(o,q+1); n=pmod(n,q-o+1); a.v.data=slot[s2]->cstr+o; a.v.size=n;
		fprintf(out,"{\"t\":\"slot\",\"s\":%d,\"o\":%d,\"n\":%d}",s2,o,n); break; }
	default: fprintf(stderr,"script: bad arg %s\n",t); _exit(77);
	}
	return a;
}
/* location views */
static strview_t locparse(int s, int before)
{
	const char* t=tok(); strview_t v=STRVIEW_INVALID; int o,n,q; bytes_t b;
	fprintf(out,",\"d\":");
	switch(t[0])
	{
	case 'S': o=toki(); n=toki(); q=live_size(s);
		if(!(s>0&&slot[s])){ fprintf(out,"{\"t\":\"nil\"}"); break; }
		o=pmod(o,q+1); n=pmod(n,q-o+1); v.data=slot[s]->cstr+o; v.size=n;
		fprintf(out,"{\"t\":\"self\",\"o\":%d,\"n\":%d}",o,n); break;
	case 'X':                              /* inside the storage but behind the content */
		q=live_size(s);
		if(s>0&&slot[s]&&slot[s]->capacity>q){ v.data=slot[s]->cstr+q+1; v.size=0; fprintf(out,"{\"t\":\"out\"}"); }
		else fprintf(out,"{\"t\":\"nil\"}");
		break;
	case 'Y': case 'Z':                    /* Y: some bytes behind the content; Z: begins in the content and ends behind it */
		o=toki(); n=toki(); q=live_size(s);
		if(!(s>0&&slot[s]&&slot[s]->capacity>q)){ fprintf(out,"{\"t\":\"nil\"}"); break; }
		if(t[0]=='Y' || before){ o=q+1+pmod(o,slot[s]->capacity-q); n=pmod(n,slot[s]->capacity-o+1); }
		else { o=pmod(o,q+1); n=q+1+pmod(n,slot[s]->capacity-q)-o; }
		v.data=slot[s]->cstr+o; v.size=n; fprintf(out,"{\"t\":\"out\"}"); break;
	case 'F': b=lit_add(tokhex(),0); v.data=(char*)b.p; v.size=b.n; fprintf(out,"{\"t\":\"foreign\"}"); break;
	default: fprintf(out,"{\"t\":\"nil\"}");
	}
	return v;
}

/* ---- formatted output ---- */
#ifdef STRBUF_PROVIDE_PRINTF
static strview_t call_vprintf(strbuf_t** b, int app, const char* f, ...)
{
	va_list va; strview_t r; va_start(va,f);
	r = app ? strbuf_append_vprintf(b,f,va) : strbuf_vprintf(b,f,va);
	va_end(va); return r;
}
#endif
#ifdef STRBUF_PROVIDE_PRNF
static strview_t call_vprnf(strbuf_t** b, int app, const char* f, ...)
{
	va_list va; strview_t r; va_start(va,f);
	r = app ? strbuf_append_vprnf(b,f,va) : strbuf_vprnf(b,f,va);
	va_end(va); return r;
}
#endif
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
/* kind: 0 printf 1 aprintf 2 prnf 3 aprnf; va: through the va_list form */
#define CALLFMT(...) ( \
	kind==0 ? (va ? call_vprintf(h,0,__VA_ARGS__) : strbuf_printf(h,__VA_ARGS__)) : \
	kind==1 ? (va ? call_vprintf(h,1,__VA_ARGS__) : strbuf_append_printf(h,__VA_ARGS__)) : \
	kind==2 ? (va ? call_vprnf(h,0,__VA_ARGS__) : strbuf_prnf(h,__VA_ARGS__)) : \
	          (va ? call_vprnf(h,1,__VA_ARGS__) : strbuf_append_prnf(h,__VA_ARGS__)) )

static void fl(const char* s, bool first){ fprintf(out,"%s{\"t\":\"lit\",\"b\":",first?"":","); olit(s,strlen(s)); fputc('}',out); }
static void fb(const char* t, const void* p, int n){ fprintf(out,",{\"t\":\"%s\",\"b\":",t); olit(p,n); fputc('}',out); }
static void fi(const char* t, int w, int v){ fprintf(out,",{\"t\":\"%s\",\"w\":%d,\"v\":%d}",t,w,v); }
static void fmt_op(const char* op, int kind)
{
	int s=toki(), va=toki(), shape=toki(); strbuf_t** h=hnd(s); strview_t r; int fail=0;
	/* operands: an int, two texts (never containing zero), a char */
	int v=toki(); bytes_t a=lit_add(tokhexz(),1), b=lit_add(tokhexz(),1); int c=toki();
	char fmt[4096];
	ev_begin(op,s);
	if(s>0 && !slot[s]) {;}
	fprintf(out,",\"f\":[");
	switch(shape)
	{
	case 0:		/* literal text only; a is used as the format, without % */
		fprintf(out,"{\"t\":\"lit\",\"b\":"); olit(a.p,a.n); fputc('}',out);
		r=CALLFMT((char*)a.p); break;
	case 1: fl("n=",true); fi("d",0,v); fl(";",false); r=CALLFMT("n=%d;",v); break;
	case 2: fl("",true); fb("s",a.p,a.n); r=CALLFMT("%s",(char*)a.p); break;
	case 3: fl("",true); fb("s",a.p,a.n); fi("d",0,v); fb("s",b.p,b.n); r=CALLFMT("%s%d%s",(char*)a.p,v,(char*)b.p); break;
	case 4:		/* prnf's %x differs from the standard one */
		fl("",true); fi("c",0,c); fi(kind<2?"x":"d",0,v);
		if(kind<2) r=CALLFMT("%c%x",c,v); else r=CALLFMT("%c%d",c,v);
		break;
	case 5: fl("<",true); fi("d",7,v); fl("|",false); fi("z",5,c); fl(">%",false); r=CALLFMT("<%7d|%05d>%%",v,c); break;
	case 6: fl("",true); fb("s",a.p,a.n); fb("s",b.p,b.n); fb("s",a.p,a.n); r=CALLFMT("%s%s%s",(char*)a.p,(char*)b.p,(char*)a.p); break;
	case 7:		/* an encoding error: printf only */
		fail=1; fl("",true); { wchar_t w[2]={(wchar_t)0x110000+5,0};
		if(va) r = kind==0 ? call_vprintf(h,0,"ab%ls",w) : call_vprintf(h,1,"ab%ls",w);
		else r = kind==0 ? strbuf_printf(h,"ab%ls",w) : strbuf_append_printf(h,"ab%ls",w); }
		break;
	case 8:		/* a view through PRIstr: printf only */
		fl("[",true); fb("s",a.p,a.n); fl("]",false); { strview_t w={(char*)a.p,a.n}; r = kind==0 ? strbuf_printf(h,"[%"PRIstr"]",PRIstrarg(w)) : strbuf_append_printf(h,"[%"PRIstr"]",PRIstrarg(w)); }
		break;
	default: (void)fmt; fprintf(stderr,"shape\n"); _exit(77);
	}
	fprintf(out,"],\"i\":%d",fail);
	ev_ret(r,s); ev_target(s); ev_end(s);
}

/* ---- fetcher ---- */
static struct { int calls; int offered; long off; int ret; int mode; int val; int seed; uint8_t* w; int wn; int s; } fx;
#define FXW (1<<18)
static int fetcher(void* dst, int dst_size, void* vars)
{
	int i,k;
	if(vars!=&fx) abort();
	vt_yield();
	fx.calls++; fx.offered=dst_size; fx.off=(char*)dst-slot[fx.s]->cstr;
	fx.ret = fx.mode ? dst_size+fx.val : fx.val;
	k = fx.ret<0 || fx.ret>dst_size ? dst_size : fx.ret;
	if(k<0) k=0;
	if(k>FXW) k=FXW;
	if(dst_size>0 && fx.seed%2) memset(dst,0x7E,dst_size);      /* all of the offered space may be used, whatever is delivered */
	for(i=0;i<k;i++) fx.w[i]=((char*)dst)[i]= fx.seed<0 ? 'a' : (char)(fx.seed*31+i*7);
	fx.wn=k;
	return fx.ret;
}

/* ---- static initialisers ---- */
#define ST(c) static strbuf_space_t(c) st_##c = STRBUF_STATIC_INIT(c)
#define STX(c,e) static strbuf_space_t(e) st_##c = STRBUF_STATIC_INIT(e)      /* capacity given as an expression */
ST(0); ST(1); ST(2); STX(5,1?5:9); STX(7,7|1); ST(16); ST(33); STX(300,301-1); ST(70000);
static strbuf_t *fc_0,*fc_3,*fc_8,*fc_20,*fc_300,*fc_70000;
static void* clone_static(int kind, int cap)
{
	size_t n=sizeof(strbuf_t)+cap+1; void* src=NULL; void* p;
	if(kind==0) switch(cap)
	{
		case 0: src=&st_0; n=sizeof st_0; break; case 1: src=&st_1; n=sizeof st_1; break; case 2: src=&st_2; n=sizeof st_2; break;
		case 5: src=&st_5; n=sizeof st_5; break; case 7: src=&st_7; n=sizeof st_7; break;
		case 16: src=&st_16; n=sizeof st_16; break; case 33: src=&st_33; n=sizeof st_33; break;
		case 300: src=&st_300; n=sizeof st_300; break; case 70000: src=&st_70000; n=sizeof st_70000; break;
	}
	else
	{
		fc_0=STRBUF_FIXED_CAP(0); fc_3=STRBUF_FIXED_CAP(1?3:9); fc_8=STRBUF_FIXED_CAP(8|0); fc_20=STRBUF_FIXED_CAP(20); fc_300=STRBUF_FIXED_CAP(300); fc_70000=STRBUF_FIXED_CAP(70000);
		switch(cap){ case 0: src=fc_0; break; case 3: src=fc_3; break; case 8: src=fc_8; break; case 20: src=fc_20; break; case 300: src=fc_300; break; case 70000: src=fc_70000; break; }
		if(src){ p=xmalloc(n); memcpy(p,src,n); return p; }
	}
	if(!src){ fprintf(stderr,"script: static cap %d\n",cap); _exit(77); }
	p=xmalloc(n); memcpy(p,src,n);
	/* nothing but the header and the first byte may be relied on */
	return p;
}

bool buf_op(const char* op)
{
	strview_t r; int s,i; arg_t a;
	#define IS(x) (!strcmp(op,x))
	#define BEGIN() s=toki(); ev_begin(op,s)
	#define ONEARG() fprintf(out,",\"a\":["); a=argparse(s,1); fputc(']',out)
	#define DONE() ev_ret(r,s); ev_target(s); ev_end(s); return true
	#define DONEN() ev_noret(); ev_target(s); ev_end(s); return true
	/* by name, or by the generic macro from either pointer type */
	#define TEXT(f,...) ( a.isc ? (var ? f##_cstr(__VA_ARGS__,a.c) : a.c&&strlen(a.c)%2 ? f(__VA_ARGS__,(char*)a.c) : f(__VA_ARGS__,(const char*)a.c)) \
			: (var ? f##_strview(__VA_ARGS__,a.v) : f(__VA_ARGS__,a.v)) )
	if(IS("append")||IS("prepend")||IS("strip"))
	{
		int var; BEGIN(); var=toki(); ONEARG();
		strbuf_t** h=hnd(s);
		r = IS("append") ? TEXT(strbuf_append,h) : IS("prepend") ? TEXT(strbuf_prepend,h) : TEXT(strbuf_strip,h);
		DONE();
	}
	if(IS("insert"))
	{
		int var; BEGIN(); var=toki(); i=toki(); fprintf(out,",\"i\":%d",i); ONEARG();
		strbuf_t** h=hnd(s);
		r = TEXT(strbuf_insert_at_index,h,i);
		DONE();
	}
	if(IS("before")||IS("after"))
	{
		int var; strview_t d; BEGIN(); var=toki(); d=locparse(s,IS("before")); ONEARG();
		strbuf_t** h=hnd(s);
		r = IS("before") ? TEXT(strbuf_insert_before,h,d) : TEXT(strbuf_insert_after,h,d);
		DONE();
	}
	if(IS("assign")){ BEGIN(); ONEARG(); r=strbuf_assign(hnd(s),a.v); DONE(); }
	if(IS("char")){ BEGIN(); i=toki(); fprintf(out,",\"i\":%d",i); r=strbuf_append_char(hnd(s),(char)i); DONE(); }
	if(IS("cat")||IS("vcat"))
	{
		extern strview_t cat_call(strbuf_t** h, int n, strview_t* v, int viaval);
		static strview_t vs[400]; int n; BEGIN(); n=toki(); fprintf(out,",\"a\":[");
		for(i=0;i<n;i++){ a=argparse(s,i==0); vs[i]=a.v; }
		fputc(']',out);
		r=cat_call(hnd(s),n,vs,IS("vcat"));
		DONE();
	}
	if(IS("printf")){ fmt_op(op,0); return true; }
	if(IS("aprintf")){ fmt_op(op,1); return true; }
	if(IS("prnf")){ fmt_op(op,2); return true; }
	if(IS("aprnf")){ fmt_op(op,3); return true; }
	if(IS("using"))
	{
		BEGIN(); { uint8_t* w=fx.w ? fx.w : xmalloc(FXW); memset(&fx,0,sizeof fx); fx.w=w; } fx.mode=tok()[0]=='r'; fx.val=toki(); fx.seed=toki(); fx.s=s;
		r=strbuf_append_using(hnd(s),fetcher,&fx);
		fprintf(out,",\"i\":%d,\"q\":%d,\"nq\":%d,\"qo\":%ld",fx.ret,fx.offered,fx.calls,fx.off); obytes("x",fx.w,fx.wn);
		DONE();
	}
	if(IS("view")){ BEGIN(); r=strbuf_view(hnd(s)); DONE(); }
	if(IS("grow")){ BEGIN(); i=toki(); fprintf(out,",\"i\":%d",i); r=strbuf_grow(hnd(s),i); DONE(); }
	if(IS("growr")){ op="grow"; s=toki(); ev_begin("grow",s); i=toki()+(s>0&&slot[s]?slot[s]->capacity:0); if(i<0) i=0; fprintf(out,",\"i\":%d",i); r=strbuf_grow(hnd(s),i); DONE(); }
	if(IS("shrink")){ BEGIN(); r=strbuf_shrink(hnd(s)); DONE(); }
	if(IS("create")||IS("init")||IS("fixed")||IS("static"))
	{	/* creation assigns the handle: only into a null one */
		s=atoi(tk[tp]);
		if(s<1||slot[s]){ fprintf(out,"{\"op\":\"nop\"}\n"); return true; }
	}
	if(IS("create"))
	{
		int al,var; BEGIN(); i=toki(); al=toki(); var=toki(); addr0=NULL;
		fprintf(out,",\"i\":%d,\"aa\":%d",i,al);
		strbuf_allocator_t none={NULL,NULL}; strbuf_allocator_t* ap = al==0?NULL : al==-1 ? &none : vt_allocator(al);
		static const size_t over[]={(size_t)INT_MAX+1,(size_t)INT_MAX+4097,(size_t)UINT_MAX-3,(size_t)UINT_MAX+1,(size_t)UINT_MAX+17,(size_t)UINT_MAX+101,SIZE_MAX/2+1,SIZE_MAX,SIZE_MAX-15,SIZE_MAX-sizeof(strbuf_t)};
		if(i<0) slot[s]= var==0 ? strbuf_create(over[(-1-i)%10],ap) : strbuf_create_empty(over[(-1-i)%10],ap);
		else slot[s]= var==0 ? strbuf_create(i,ap) : var==1 ? strbuf_create((size_t)i,ap) : strbuf_create_empty(i,ap);
		if(ap==&none) memset(&none,0x5A,sizeof none);
		DONEN();
	}
	if(IS("init"))
	{
		int al,var; BEGIN(); al=toki(); var=toki(); fprintf(out,",\"aa\":%d",al); ONEARG(); addr0=NULL;
		strbuf_allocator_t none={NULL,NULL}; strbuf_allocator_t* ap = al==0?NULL : al==-1 ? &none : vt_allocator(al);
		slot[s]= var ? strbuf_create(a.v,ap) : strbuf_create_init(a.v,ap);
		DONEN();
	}
	if(IS("fixed"))
	{	/* fixed s size mis null : size = bytes beyond sizeof(strbuf_t), may be negative */
		int mis,nul; char* mem; BEGIN(); i=toki(); mis=toki(); nul=toki(); addr0=NULL;
		size_t sz = i < -(int)sizeof(strbuf_t) ? 0 : sizeof(strbuf_t)+i;
		fprintf(out,",\"i\":%d,\"q\":%d",i,(mis==0&&!nul));
		mem=xmalloc(sz+mis); memset(mem,0xC3,sz+mis);
		fixall[nfix++]=mem; if(nfix>=MAXFIX) abort();
		slot[s]=strbuf_create_fixed(nul?NULL:mem+mis,sz);
		if(!slot[s]){ size_t j; int same=1; for(j=0;j<sz+mis;j++) if((uint8_t)mem[j]!=0xC3) same=0; if(!same) vt_err|=32; }
		else if((char*)slot[s]!=mem+mis) vt_err|=64;
		DONEN();
	}
	if(IS("static"))
	{
		int kind; BEGIN(); i=toki(); kind=toki(); fprintf(out,",\"i\":%d",i); addr0=NULL;
		slot[s]=clone_static(kind,i); fixall[nfix++]=slot[s]; if(nfix>=MAXFIX) abort();
		DONEN();
	}
	if(IS("destroy")){ BEGIN(); strbuf_destroy(hnd(s)); DONEN(); }
	if(IS("tocstr"))
	{
		char* c; int al=0; long bs; BEGIN(); strbuf_t* b0 = s>0?slot[s]:NULL; int wasfix = b0 && !b0->allocator.allocator; int len=b0?b0->size:0;
		c=strbuf_to_cstr(hnd(s));
		if(!c) fprintf(out,",\"r\":[0,0,0],\"R\":[]");
		else
		{
			bs=vt_block_size(c,&al);
			if(wasfix) fprintf(out,",\"r\":[4,%d,%d]", c==b0->cstr?0:2, c[len]?1:0);
			else fprintf(out,",\"r\":[4,%d,%ld]", bs>=0?1:2, bs>=0 && bs>=len+1 ? (bs-(len+1))+(c[len]?100000:0) : -1);
			if(wasfix || bs>=len+1) obytes("R",c,len); else fprintf(out,",\"R\":[]");
			if(ncs<64){ cs[ncs].p=c; cs[ncs].al=wasfix?0:al; ncs++; }
		}
		ev_target(s); ev_end(s); return true;
	}
	if(IS("freecs"))
	{
		s=0; i=toki(); if(ncs==0){ fprintf(out,"{\"op\":\"nop\"}\n"); return true; }
		i=pmod(i,ncs); ev_begin(op,0); fprintf(out,",\"i\":%d",i+1);
		if(cs[i].al) vt_user_free(cs[i].al,cs[i].p);
		memmove(&cs[i],&cs[i+1],sizeof(cs_t)*(ncs-i-1)); ncs--;
		DONEN();
	}
	return false;
}
/* end of history: the user releases everything it owns; then nothing may be left */
void buf_finish(void)
{
	int s;
	for(s=1;s<=NSLOT;s++) if(slot[s]){ ev_begin("destroy",s); strbuf_destroy(&slot[s]); ev_noret(); ev_target(s); ev_end(s); }
	while(ncs){ ev_begin("freecs",0); fprintf(out,",\"i\":1"); if(cs[0].al) vt_user_free(cs[0].al,cs[0].p); memmove(&cs[0],&cs[1],sizeof(cs_t)*(ncs-1)); ncs--; ev_noret(); ev_target(0); ev_end(0); }
	fprintf(out,"{\"op\":\"end\",\"s\":0,\"L\":[%d,%d,%d,%d],\"e\":%d}\n",vt_live[1],vt_live[2],vt_live[3],vt_live[4],vt_err);
}
