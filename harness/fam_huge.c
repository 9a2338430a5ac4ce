/* one buffer at the upper end of the int range, in sparse memory that is never read or written as a whole: only sizes and the
   last few bytes of the content are recorded */
#include "vt.h"
#include <sys/mman.h>
#include "strbuf_crypt/strbuf_crypt.h"

#define SPAN ((size_t)INT_MAX + 4096)
#define GUARD 64                /* bytes behind a block which nobody may change */
static void guard(char* p){ memset(p,0xA5,GUARD); }
static int intact(const char* p){ int i; for(i=0;i<GUARD;i++) if((unsigned char)p[i]!=0xA5) return 0; return 1; }
#define NARENA 4
static struct { char* p; size_t n; int used, shut; } arena[NARENA]; static int herr;
static strbuf_t* hb; static char* fixm; static size_t fixn;
static void* map(void)
{
	void* p=mmap(NULL,SPAN,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	if(p==MAP_FAILED){ fprintf(stderr,"mmap failed\n"); _exit(77); }
	madvise(p,SPAN,MADV_NOHUGEPAGE);
	return p;
}
static void release(int i)
{
	if(!intact(arena[i].p+arena[i].n)) herr|=4;
	arena[i].used=0; arena[i].shut=1;
	madvise(arena[i].p,SPAN,MADV_DONTNEED); mprotect(arena[i].p,SPAN,PROT_NONE);        /* whoever still uses it crashes */
}
static int take(size_t n)
{
	int i; static int next;
	for(i=0;i<NARENA;i++) if(!arena[(next+i)%NARENA].used) break;
	if(i==NARENA) abort();
	i=(next+i)%NARENA; next=(i+1)%NARENA;
	if(!arena[i].p) arena[i].p=map();
	if(arena[i].shut) mprotect(arena[i].p,SPAN,PROT_READ|PROT_WRITE);
	arena[i].shut=0; arena[i].used=1; arena[i].n=n; guard(arena[i].p+n);
	return i;
}
/* blocks of up to 4 MiB always move, larger ones never */
static void* halloc(struct strbuf_allocator_t* a, void* p, size_t n)
{
	int i=0, j; (void)a;
	if(p){ for(i=0;i<NARENA;i++) if(arena[i].used && arena[i].p==p) break; if(i==NARENA){ herr|=1; if(n) abort(); return NULL; } }
	if(!n){ if(p) release(i); else herr|=1; return NULL; }
	if(n>SPAN-GUARD){ herr|=2; fprintf(stderr,"allocation of %zu\n",n); abort(); }
	if(!p) return arena[take(n)].p;
	if(arena[i].n>((size_t)4<<20) || n>((size_t)4<<20)){ if(!intact(arena[i].p+arena[i].n)) herr|=4; arena[i].n=n; guard(arena[i].p+n); return p; }
	j=take(n); memcpy(arena[j].p,p,arena[i].n<n?arena[i].n:n); release(i);
	return arena[j].p;
}
static strbuf_allocator_t hal;
void huge_reset(void)
{
	int i; hb=NULL; herr=0; hal=(strbuf_allocator_t){.allocator=halloc,.app_data=&herr};
	for(i=0;i<NARENA;i++) if(arena[i].p && arena[i].used){ guard(arena[i].p+arena[i].n); release(i); }
	herr=0;
	if(fixm) madvise(fixm,SPAN,MADV_DONTNEED);
}
static int num(void){ const char* t=tok(); return t[0]=='m' ? INT_MAX-atoi(t+1) : atoi(t); }
static int nused(void){ int i,n=0; for(i=0;i<NARENA;i++) n+=arena[i].used; return n; }
static void begin(const char* op){ fprintf(out,"{\"op\":\"%s\"",op); }
static void finish(strview_t r, int hasr)
{
	int k=0, term=1, z=1, wf=1, n, i; long bs=-1;
	if(hb)
	{
		k=hb->allocator.allocator?1:2;
		wf=hb->size>=0 && hb->size<=hb->capacity;
		if(k==1){ for(i=0;i<NARENA;i++) if(arena[i].used && arena[i].p==(char*)hb) bs=(long)arena[i].n; z= bs>=(long)sizeof(strbuf_t)+(long)hb->capacity+1 && intact((char*)hb+bs); }
		else if(fixn<=SPAN-GUARD) z=intact(fixm+fixn);
		if(wf) term=hb->cstr[hb->size]==0;
		fprintf(out,",\"k\":%d,\"cap\":%d,\"n\":%d",k,hb->capacity,hb->size);
		n = !wf?0:hb->size<8?hb->size:8;
		obytes("tl",wf?hb->cstr+hb->size-n:NULL,n);
	}
	else fprintf(out,",\"k\":0,\"cap\":0,\"n\":0,\"tl\":[]");
	if(!hasr) fprintf(out,",\"r\":[9,0]");
	else if(!r.data) fprintf(out,",\"r\":[0,%d]",r.size);
	else fprintf(out,",\"r\":[%d,%d]",hb&&r.data==hb->cstr?1:2,r.size);
	fprintf(out,",\"w\":%d,\"t\":%d,\"z\":%d,\"L\":%d,\"e\":%d}\n",wf,term,z,nused(),herr);
}
static int claim_n;
static int claimer(void* d, int n, void* v)        /* writes the last bytes it says it stored: abcdefgh */
{
	int i; (void)v;
	if(claim_n>0 && claim_n<=n) for(i=0;i<8&&i<claim_n;i++) ((char*)d)[claim_n-1-i]='h'-i;
	return claim_n;
}
/* sources: L hex | W the whole buffer | E k its last k bytes | B n claimed, never to be read | Z n bytes of zeros | N */
static strview_t src(int first)
{
	const char* t=tok(); strview_t v=STRVIEW_INVALID; bytes_t b; int k;
	if(!first) fputc(',',out);
	switch(t[0])
	{
	case 'L': b=lit_add(tokhex(),0); v=(strview_t){(char*)b.p,b.n}; fprintf(out,"{\"t\":\"lit\",\"n\":%d,\"b\":",b.n); olit(b.p,b.n); fprintf(out,"}"); break;
	case 'Z': { static char* zeros; if(!zeros) zeros=map(); k=num(); v=(strview_t){zeros,k}; fprintf(out,"{\"t\":\"lit\",\"n\":%d,\"b\":",k); olit(zeros,k<8?k:8); fprintf(out,"}"); break; }
	case 'W': if(hb) v=strbuf_view(&hb); fprintf(out,"{\"t\":\"self\",\"n\":%d,\"b\":[]}",v.size); break;
	case 'E': k=toki(); if(hb){ if(k>hb->size) k=hb->size; v=(strview_t){hb->cstr+hb->size-k,k}; } fprintf(out,"{\"t\":\"%s\",\"n\":%d,\"b\":",hb?"end":"nil",v.size); olit(v.data,v.size); fprintf(out,"}"); break;
	case 'B': if(hb && hb->size<=200){ num(); fprintf(out,"{\"t\":\"nil\",\"n\":0,\"b\":[]}"); break; } b=lit_add((bytes_t){memset(xmalloc(1),'x',1),1},0); v=(strview_t){(char*)b.p,num()}; fprintf(out,"{\"t\":\"big\",\"n\":%d,\"b\":[]}",v.size); break;
	default: fprintf(out,"{\"t\":\"nil\",\"n\":0,\"b\":[]}");
	}
	return v;
}
bool huge_op(const char* op)
{
	strview_t r=STRVIEW_INVALID, v; int i;
	#define IS(x) (!strcmp(op,x))
	if(IS("new") || IS("fix"))
	{
		size_t extra=0;         /* p<k>: memory for k bytes more than the largest capacity, q: all the address space */
		if(tk[tp][0]=='p'){ extra=strtoull(tok()+1,NULL,10); i=INT_MAX; } else if(tk[tp][0]=='q'){ tok(); extra=SIZE_MAX-INT_MAX-sizeof(strbuf_t)-1; i=INT_MAX; } else i=num();
		begin(op); fprintf(out,",\"i\":%d",i);
		if(hb){ strbuf_destroy(&hb); hb=NULL; }
		if(IS("new")) hb=strbuf_create((size_t)i,&hal);
		else { if(!fixm) fixm=map(); fixn=sizeof(strbuf_t)+(size_t)i+1+extra; if(fixn<=SPAN-GUARD) guard(fixm+fixn); hb=strbuf_create_fixed(fixm,fixn); }
		finish(r,0); return true;
	}
	if(IS("claim"))        /* the fetcher says it stored bytes until the content has this size */
	{
		i=num(); begin(op); claim_n=i-(hb?hb->size:0); fprintf(out,",\"i\":%d",claim_n);
		r=strbuf_append_using(&hb,claimer,NULL); finish(r,1); return true;
	}
	if(IS("append")||IS("assign")){ begin(op); fprintf(out,",\"i\":0,\"a\":["); v=src(1); fputc(']',out); r=IS("append")?strbuf_append(&hb,v):strbuf_assign(&hb,v); finish(r,1); lit_check(); return true; }
	if(IS("prepend")){ begin(op); fprintf(out,",\"i\":0,\"a\":["); v=src(1); fputc(']',out); r=strbuf_prepend(&hb,v); finish(r,1); lit_check(); return true; }
	if(IS("insert")){ i=num(); begin(op); fprintf(out,",\"i\":%d,\"a\":[",i); v=src(1); fputc(']',out); r=strbuf_insert_at_index(&hb,i,v); finish(r,1); lit_check(); return true; }
	if(IS("before")||IS("after"))
	{       /* at the last k bytes */
		i=toki(); begin(op); if(hb && i>hb->size) i=hb->size; if(!hb) i=0; fprintf(out,",\"i\":%d,\"a\":[",i); v=src(1); fputc(']',out);
		strview_t loc = hb ? (strview_t){hb->cstr+hb->size-i,i} : STRVIEW_INVALID;
		r=IS("before")?strbuf_insert_before(&hb,loc,v):strbuf_insert_after(&hb,loc,v); finish(r,1); lit_check(); return true;
	}
	if(IS("char")){ i=toki(); begin(op); fprintf(out,",\"i\":0,\"a\":[{\"t\":\"lit\",\"n\":1,\"b\":[%d]}]",i); r=strbuf_append_char(&hb,(char)i); finish(r,1); return true; }
	if(IS("printf")||IS("prnf"))
	{
		bytes_t b=tokhexz(); begin(op); fprintf(out,",\"i\":0,\"a\":[{\"t\":\"lit\",\"n\":%d,\"b\":",b.n); olit(b.p,b.n); fprintf(out,"}]");
		r=IS("printf")?strbuf_printf(&hb,"%s",(char*)b.p):strbuf_prnf(&hb,"%s",(char*)b.p); free(b.p); finish(r,1); return true;
	}
	if(IS("aprintf")||IS("aprnf"))
	{
		bytes_t b=tokhexz(); begin(op); fprintf(out,",\"i\":0,\"a\":[{\"t\":\"lit\",\"n\":%d,\"b\":",b.n); olit(b.p,b.n); fprintf(out,"}]");
		r=IS("aprintf")?strbuf_append_printf(&hb,"%s",(char*)b.p):strbuf_append_prnf(&hb,"%s",(char*)b.p); free(b.p); finish(r,1); return true;
	}
	if(IS("cat"))
	{
		int n=toki(); strview_t a[3]={STRVIEW_INVALID,STRVIEW_INVALID,STRVIEW_INVALID};
		begin(op); fprintf(out,",\"i\":0,\"a\":["); for(i=0;i<n&&i<3;i++) a[i]=src(i==0); fputc(']',out);
		r = n==1 ? strbuf_cat(&hb,a[0]) : n==2 ? strbuf_cat(&hb,a[0],a[1]) : strbuf_cat(&hb,a[0],a[1],a[2]); finish(r,1); lit_check(); return true;
	}
	if(IS("grow")){ i=num(); begin(op); fprintf(out,",\"i\":%d",i); r=strbuf_grow(&hb,i); finish(r,1); return true; }
	if(IS("shrink")){ begin(op); fprintf(out,",\"i\":0"); r=strbuf_shrink(&hb); finish(r,1); return true; }
	if(IS("view")){ begin(op); fprintf(out,",\"i\":0"); r=strbuf_view(&hb); finish(r,1); return true; }
	if(IS("enc")){ uint8_t k[32]={1},v2[16]={2}; begin(op); fprintf(out,",\"i\":0"); r=strbuf_encrypt(&hb,k,v2); finish(r,1); return true; }
	return false;
}
void huge_finish(void){ begin("end"); if(hb) strbuf_destroy(&hb); finish((strview_t){0},0); }
/* views of a text of any size up to INT_MAX, of which only the size matters */
