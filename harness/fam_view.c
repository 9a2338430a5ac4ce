/* strview.h family: registers hold views of exact-size memories */
#include "vt.h"
#include <sys/mman.h>
#define NREG 6
#define NEOL 2
#define MAXMEM 400
static strview_t reg[NREG+1];
static char eolv[NEOL+1];
static struct { uint8_t* p; uint8_t* copy; int n; int lit; } mem[MAXMEM]; static int nmem;

static void mem_free(void)
{
	int i;
	for(i=0;i<nmem;i++){ if(!mem[i].lit) free_exact(mem[i].p); free(mem[i].copy); }
	nmem=0;
}
static int mem_add(uint8_t* p, int n, int lit)
{
	if(lit) for(int i=0;i<nmem;i++) if(mem[i].lit && mem[i].p==p && mem[i].n==n) return i;
	if(nmem>=MAXMEM){ fprintf(stderr,"too many memories\n"); _exit(77); }
	mem[nmem].p=p; mem[nmem].n=n; mem[nmem].lit=lit; mem[nmem].copy=xmalloc(n); memcpy(mem[nmem].copy,p,n);
	return nmem++;
}
static int mem_ok(void){ int i; for(i=0;i<nmem;i++) if(memcmp(mem[i].p,mem[i].copy,mem[i].n)) return 0; return 1; }
int view_watch(void){ int i; for(i=0;i<nmem;i++) if(mem[i].n<=VT_WATCHED() && memcmp(mem[i].p,mem[i].copy,mem[i].n)) return 0; return 1; }
void view_reset(void){ int i; mem_free(); for(i=0;i<=NREG;i++) reg[i]=STRVIEW_INVALID; memset(eolv,0,sizeof eolv); }

static void oview(strview_t v)
{
	int i;
	if(!v.data){ fprintf(out,"[0,0,%d]",v.size); return; }
	for(i=nmem-1;i>=0;i--) if((uint8_t*)v.data>=mem[i].p && (uint8_t*)v.data<mem[i].p+mem[i].n){ fprintf(out,"[%d,%ld,%d]",i+1,(long)((uint8_t*)v.data-mem[i].p),v.size); return; }
	for(i=nmem-1;i>=0;i--) if((uint8_t*)v.data>=mem[i].p && (uint8_t*)v.data<=mem[i].p+mem[i].n){ fprintf(out,"[%d,%ld,%d]",i+1,(long)((uint8_t*)v.data-mem[i].p),v.size); return; }
	fprintf(out,"[-1,0,%d]",v.size);
}
static void vend(void)
{
	int i;
	fprintf(out,",\"G\":[");
	for(i=1;i<=NREG;i++){ if(i>1) fputc(',',out); oview(reg[i]); }
	fprintf(out,"],\"E\":[%d,%d],\"M\":%d,\"m\":%d}\n",(uint8_t)eolv[1],(uint8_t)eolv[2],mem_ok()&&!vt_touched,lit_check());
}
static void vres(strview_t v){ fprintf(out,",\"r\":"); oview(v); }

typedef struct { strview_t v; char* c; int isc; } varg_t;
static varg_t varg(const char* name)
{
	varg_t a; const char* t=tok(); bytes_t b; int k;
	memset(&a,0,sizeof a);
	fprintf(out,",\"%s\":",name);
	switch(t[0])
	{
	case 'L': b=lit_add(tokhex(),0); a.v.data=(char*)b.p; a.v.size=b.n; fprintf(out,"{\"t\":\"lit\",\"b\":"); olit(b.p,b.n); fputc('}',out); break;
	case 'C': b=lit_add(tokhexz(),1); a.isc=1; a.c=(char*)b.p; a.v=cstr(a.c); fprintf(out,"{\"t\":\"cs\",\"b\":"); olit(b.p,b.n); fputc('}',out); break;
	case 'c': a.isc=1; a.c=NULL; a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); break;
	case 'N': a.v=STRVIEW_INVALID; fprintf(out,"{\"t\":\"nil\"}"); break;
	case 'R': k=toki(); a.v=reg[k]; fprintf(out,"{\"t\":\"reg\",\"r\":%d}",k); break;
	default: fprintf(stderr,"script: bad view arg %s\n",t); _exit(77);
	}
	return a;
}
static void stream_op(void)
{
	/* stream mode n chunk... : mode 0 exact blocks, 1 a strbuf accumulates, 2 a new buffer per chunk */
	int mode=toki(), n=toki(), i, first=1, runaway=0; long guard; char eol=0;
	strbuf_t* sb=NULL; uint8_t* acc=xmalloc(0); int accn=0;
	fprintf(out,"{\"op\":\"stream\",\"ch\":[");
	bytes_t* c=xmalloc(sizeof(bytes_t)*(n+1));
	for(i=0;i<n;i++){ c[i]=lit_add(tokhex(),0); if(i) fputc(',',out); olit(c[i].p,c[i].n); }
	fprintf(out,"],\"X\":[");
	if(mode==1) sb=strbuf_create_empty(0,vt_allocator(2));
	for(i=0;i<n && !runaway;i++)
	{
		strview_t v,line; uint8_t* blk=NULL;
		v=STRVIEW_INVALID; if(n>1 && (i+n)%3==0) v=cstr("");       /* nothing has arrived: no line, and nothing changes */
		if(n>1 && (i+n)%3!=1) { line=strview_split_line(&v,&eol); if(strview_is_valid(line)) { if(!first) fputc(',',out); first=0; olit(line.data,line.size); } }
		if(mode==1){ strbuf_append_strview(&sb,(strview_t){(char*)c[i].p,c[i].n}); v=strbuf_view(&sb); }
		else
		{
			bytes_t e=exact_new(accn+c[i].n); memcpy(e.p,acc,accn); memcpy(e.p+accn,c[i].p,c[i].n); blk=e.p;
			v.data=(char*)blk; v.size=accn+c[i].n;
		}
		guard=(long)v.size+2;
		while(line=strview_split_line(&v,&eol), strview_is_valid(line))
		{
			if(--guard<0){ runaway=1; break; }
			if(!first) fputc(',',out);
			first=0; olit(line.data,line.size);
		}
		if(mode==1) strbuf_assign(&sb, v);
		else
		{
			uint8_t* na=xmalloc(v.size); if(v.size) memcpy(na,v.data,v.size);
			free(acc); acc=na; accn=v.size; free_exact(blk);
		}
	}
	fprintf(out,"],\"run\":%d,\"el\":%d",runaway,(uint8_t)eol);
	if(mode==1){ obytes("lo",sb->cstr,sb->size); strbuf_destroy(&sb); } else obytes("lo",acc,accn);
	free(acc); free(c);
}
static strview_t* rp(int r){ return r ? &reg[r] : NULL; }

static bytes_t tb;      /* where strview_to_cstr() copied to last */
bool view_op(const char* op)
{
	int r,d,k,i,j; strview_t v; varg_t a; bool q;
	#define IS(x) (!strcmp(op,x))
	if(IS("mem")||IS("memz"))
	{
		d=toki(); bytes_t b=tokhex();
		i=mem_add(b.p,b.n,0); reg[d]=(strview_t){(char*)b.p,b.n};
		fprintf(out,"{\"op\":\"mem\",\"d\":%d,\"mi\":%d",d,i+1); obytes("b",b.p,b.n); vend(); return true;
	}
	if(IS("cstr"))
	{	/* a zero-terminated memory viewed through cstr() */
		d=toki(); bytes_t b=tokhexz();
		i=mem_add(b.p,b.n+1,0); reg[d]=cstr((char*)b.p);
		fprintf(out,"{\"op\":\"cstr\",\"d\":%d,\"mi\":%d",d,i+1); obytes("b",b.p,b.n); vres(reg[d]); vend(); return true;
	}
	if(IS("sl"))
	{
		d=toki(); k=toki(); const char* p; int n;
		#define SL(s) p=s; n=sizeof(s); reg[d]=cstr_SL(s); break
		switch(k){ case 0: SL(""); case 1: SL("a"); case 2: SL("one,two"); case 3: SL("a\0b"); default: SL("\"x,y\",z"); }
		/* the compiler may give each use of a literal its own address: take it from the view */
		if(memcmp(reg[d].data,p,n)) abort();
		i=mem_add((uint8_t*)reg[d].data,n,1);
		fprintf(out,"{\"op\":\"cstrsl\",\"d\":%d,\"mi\":%d",d,i+1); obytes("b",p,n-1); vres(reg[d]); vend(); return true;
	}
	if(IS("cstrnull")){ d=toki(); reg[d]=cstr(NULL); fprintf(out,"{\"op\":\"inv\",\"d\":%d,\"src\":\"cstr\"",d); vres(reg[d]); vend(); return true; }
	if(IS("inv")){ d=toki(); reg[d]=STRVIEW_INVALID; fprintf(out,"{\"op\":\"inv\",\"d\":%d",d); vres(reg[d]); vend(); return true; }
	if(IS("copy")){ d=toki(); r=toki(); reg[d]=reg[r]; fprintf(out,"{\"op\":\"copy\",\"d\":%d,\"s\":%d",d,r); vend(); return true; }
	if(IS("raw"))
	{	/* the user narrows a view by hand: offset and length relative to register r */
		d=toki(); r=toki(); i=toki(); j=toki(); 
		v=reg[r]; if(v.data){ i%=v.size+1; j%=v.size-i+1; v.data+=i; v.size=j; } else i=j=0;
		reg[d]=v; fprintf(out,"{\"op\":\"raw\",\"d\":%d,\"s\":%d,\"i\":%d,\"n\":%d",d,r,i,j); vend(); return true;
	}
	if(IS("wr"))
	{	/* the user changes one byte of the text which register r shows */
		r=toki(); i=toki(); int c=toki(), at=-1;
		v=reg[r];
		if(v.data && v.size>0) for(j=nmem-1;j>=0;j--) if(!mem[j].lit && (uint8_t*)v.data>=mem[j].p && (uint8_t*)v.data<mem[j].p+mem[j].n)
		{ at=i%v.size; k=(int)((uint8_t*)v.data-mem[j].p)+at; if(k>=mem[j].n){ at=-1; break; } mem[j].p[k]=mem[j].copy[k]=(uint8_t)c; break; }
		fprintf(out,"{\"op\":\"wr\",\"s\":%d,\"i\":%d,\"c\":%d",r,at,c); vend(); return true;
	}
	if(IS("swap")){ r=toki(); d=toki(); strview_swap(&reg[r],&reg[d]); fprintf(out,"{\"op\":\"swap\",\"s\":%d,\"d\":%d",r,d); vend(); return true; }
	if(IS("valid")){ r=toki(); q=strview_is_valid(reg[r]); fprintf(out,"{\"op\":\"valid\",\"s\":%d,\"q\":%d",r,q); vend(); return true; }
	if(IS("seteol")){ k=toki(); i=toki(); eolv[k]=(char)i; fprintf(out,"{\"op\":\"seteol\",\"k\":%d,\"i\":%d",k,i); vend(); return true; }
	if(IS("first")||IS("last"))
	{
		r=toki(); d=toki(); k=toki(); fprintf(out,"{\"op\":\"%s\",\"s\":%d,\"d\":%d,\"xq\":%d",op,r,d,k);
		a=varg("a");
		v= IS("first") ? strview_split_first_delim(rp(r),a.c,k) : strview_split_last_delim(rp(r),a.c,k);
		vres(v); reg[d]=v; vend(); return true;
	}
	if(IS("all"))
	{
		int n; r=toki(); n=toki(); k=toki(); fprintf(out,"{\"op\":\"all\",\"s\":%d,\"n\":%d,\"xq\":%d",r,n,k);
		a=varg("a");
		strview_t* dst=xmalloc(sizeof(strview_t)*n);
		i=strview_split_all(n,dst,reg[r],a.c,k);
		fprintf(out,",\"c\":%d,\"F\":[",i);
		for(j=0;j<i&&j<n;j++){ if(j) fputc(',',out); oview(dst[j]); }
		fputc(']',out);
		free(dst); vend(); return true;
	}
	if(IS("splitidx")){ r=toki(); d=toki(); i=toki(); fprintf(out,"{\"op\":\"splitidx\",\"s\":%d,\"d\":%d,\"i\":%d",r,d,i==INT_MIN?-2147483647:i); v=strview_split_index(rp(r),i); vres(v); reg[d]=v; vend(); return true; }
	if(IS("pop")){ r=toki(); char c=strview_pop_first_char(rp(r)); fprintf(out,"{\"op\":\"pop\",\"s\":%d,\"c\":%d",r,(uint8_t)c); vend(); return true; }
	if(IS("line")){ r=toki(); d=toki(); k=toki(); fprintf(out,"{\"op\":\"line\",\"s\":%d,\"d\":%d,\"k\":%d",r,d,k); v=strview_split_line(rp(r),k?&eolv[k]:NULL); vres(v); reg[d]=v; vend(); return true; }
	if(IS("left")||IS("right"))
	{
		r=toki(); d=toki(); fprintf(out,"{\"op\":\"%s\",\"s\":%d,\"d\":%d",op,r,d); a=varg("a");
		v= IS("left") ? strview_split_left(rp(r),a.v) : strview_split_right(rp(r),a.v);
		vres(v); reg[d]=v; vend(); return true;
	}
	if(IS("sub"))
	{
		int b,e; r=toki(); d=toki(); b=toki(); e=toki();
		fprintf(out,"{\"op\":\"sub\",\"s\":%d,\"d\":%d,\"i\":%d,\"n\":%d",r,d,b==INT_MIN?-2147483647:b,e==INT_MIN?-2147483647:e);
		v=strview_sub(reg[r],b,e); vres(v); reg[d]=v; vend(); return true;
	}
	if(IS("trim"))
	{
		int var; k=toki(); r=toki(); d=toki(); var=toki(); fprintf(out,"{\"op\":\"trim\",\"k\":%d,\"s\":%d,\"d\":%d",k,r,d); a=varg("a");
		#define G(f) ( a.isc ? (var==0 ? f##_cstr(reg[r],a.c) : var==1 ? f(reg[r],(const char*)a.c) : f(reg[r],a.c)) : (var ? f##_strview(reg[r],a.v) : f(reg[r],a.v)) )
		v = k==0 ? G(strview_trim) : k==1 ? G(strview_trim_start) : G(strview_trim_end);
		vres(v); reg[d]=v; vend(); return true;
	}
	if(IS("find"))
	{
		int var; k=toki(); r=toki(); d=toki(); var=toki(); fprintf(out,"{\"op\":\"find\",\"k\":%d,\"s\":%d,\"d\":%d",k,r,d); a=varg("a");
		v = k==0 ? G(strview_find_first) : k==1 ? G(strview_find_first_nocase) : k==2 ? G(strview_find_last) : G(strview_find_last_nocase);
		vres(v); reg[d]=v; vend(); return true;
	}
	if(IS("match")||IS("starts"))
	{
		int var; k=toki(); r=toki(); var=toki(); fprintf(out,"{\"op\":\"%s\",\"k\":%d,\"s\":%d",op,k,r); a=varg("a");
		if(IS("match")) q = k==0 ? G(strview_is_match) : G(strview_is_match_nocase);
		else q = k==0 ? G(strview_starts_with) : G(strview_starts_with_nocase);
		fprintf(out,",\"q\":%d",(int)q); vend(); return true;
	}
	if(IS("contains"))
	{
		k=toki(); r=toki(); fprintf(out,"{\"op\":\"contains\",\"k\":%d,\"s\":%d",k,r); a=varg("a");
		q = k==0 ? strview_contains(reg[r],a.v) : strview_contains_nocase(reg[r],a.v);
		fprintf(out,",\"q\":%d",(int)q); vend(); return true;
	}
	if(IS("cmp"))
	{
		r=toki(); fprintf(out,"{\"op\":\"cmp\",\"s\":%d",r); a=varg("a");
		i=strview_compare(reg[r],a.v); fprintf(out,",\"q\":%d",(i>0)-(i<0)); vend(); return true;
	}
	if(IS("dequote")){ r=toki(); d=toki(); fprintf(out,"{\"op\":\"dequote\",\"s\":%d,\"d\":%d",r,d); v=strview_dequote(reg[r]); vres(v); reg[d]=v; vend(); return true; }
	if(IS("tocstr"))
	{
		int size,nul; r=toki(); size=toki(); nul=toki(); fprintf(out,"{\"op\":\"tocstr\",\"s\":%d,\"n\":%d,\"nul\":%d",r,size,nul);
		if(nul || size!=tb.n || !tb.p){ if(tb.p) free_exact(tb.p); tb=exact_new(size); memset(tb.p,0x7E,size); }     /* the same place again, if it is as large */
		bytes_t b=tb;
		char* res=strview_to_cstr(nul?NULL:(char*)b.p,size,reg[r]);
		fprintf(out,",\"q\":%d",res==(nul?NULL:(char*)b.p)); obytes("D",b.p,size);
		vend(); return true;
	}
	if(IS("bigcstr"))
	{	/* a destination whose size no int holds; the record speaks of its beginning only */
		static const size_t szs[]={0x7FFFFFFFul,0x80000000ul,0x80000001ul,0xFFFFFFFFul,0x100000000ul,0x100000001ul,0x100000003ul};
		r=toki(); k=toki(); size_t size=szs[k%7], len=((size_t)1<<32)+(1<<16); int n=reg[r].size+32;
		char* m=mmap(NULL,len,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED) _exit(77);
		memset(m,0x7E,n);
		fprintf(out,"{\"op\":\"tocstr\",\"s\":%d,\"n\":%d,\"nul\":0",r,n);
		char* res=strview_to_cstr(m,size,reg[r]);
		fprintf(out,",\"q\":%d",res==m); obytes("D",m,n); munmap(m,len);
		vend(); return true;
	}
	if(IS("hsub")||IS("hsplit")||IS("hleft")||IS("hright"))
	{	/* index arithmetic on views of up to INT_MAX bytes of memory which cannot be touched */
		static char* base; strview_t pos; int n=(int)tokl();
		if(!base){ base=mmap(NULL,((size_t)1<<31)+(1<<20),PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(base==MAP_FAILED) _exit(77); base+=1<<16; }
		i=(int)tokl(); j=(int)tokl();
		strview_t src={base,n};
		pos.data=base+i; pos.size=j;
		v = IS("hsub") ? strview_sub(src,i,j) : IS("hsplit") ? strview_split_index(&src,i) : IS("hleft") ? strview_split_left(&src,pos) : strview_split_right(&src,pos);
		#define HV(x) (x).data?1:0, (x).data?(long)((x).data-base):0L, (x).size
		fprintf(out,"{\"op\":\"%s\",\"n\":%d,\"i\":%d,\"j\":%d,\"r\":[%d,%ld,%d],\"v\":[%d,%ld,%d]",op,n,i,j,HV(v),HV(src)); vend(); return true;
	}
	if(IS("stream")){ stream_op(); vend(); return true; }
	return false;
}
void view_finish(void){ fprintf(out,"{\"op\":\"end\",\"L\":[%d,%d,%d,%d],\"e\":%d}\n",vt_live[1],vt_live[2],vt_live[3],vt_live[4],vt_err); mem_free(); if(tb.p) free_exact(tb.p); tb.p=NULL; }
