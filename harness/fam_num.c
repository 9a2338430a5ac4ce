/* strnum.h family: one source view, consumed step by step */
#include "vt.h"
static uint8_t* blk; static int blkn; static uint8_t* blkcopy; static strview_t src; static int srcnull;
static void drop(void){ if(blk) free_exact(blk); free(blkcopy); blk=NULL; blkcopy=NULL; blkn=0; }
void num_reset(void){ drop(); src=STRVIEW_INVALID; srcnull=0; }
int num_watch(void){ return !blk || blkn>VT_WATCHED() || !memcmp(blk,blkcopy,blkn); }
static int errcode(int e){ return e==0?0 : e==EINVAL?1 : e==ERANGE?2 : 3; }
/* where the source view is now: [1,offset,size] inside the text, [0,0,size] null, [-1,..] anything else */
static void osrc(void)
{
	if(!src.data) fprintf(out,",\"S\":[0,0,%d]",src.size);
	else if(blk && (uint8_t*)src.data>=blk && (uint8_t*)src.data<=blk+blkn) fprintf(out,",\"S\":[1,%ld,%d]",(long)((uint8_t*)src.data-blk),src.size);
	else fprintf(out,",\"S\":[-1,0,%d]",src.size);
	fprintf(out,",\"m\":%d", !vt_touched && (!blk || !memcmp(blk,blkcopy,blkn)));
}
#define PRE 0x5C
#define CONSUME(name,T,sz) if(!strcmp(fn,#name)) { T* p=malloc(sizeof(T)); memset(p,PRE,sizeof(T)); \
	int e = var ? strnum_value(hasdst?p:NULL_T(T),sp,o) : strnum_consume_##name(hasdst?p:NULL,sp,o); \
	fprintf(out,",\"e\":%d",errcode(e)); obytes("D",p,sz); free(p); ok=1; }
#define NULL_T(T) ((T*)NULL)
#define VALUE(name,T,sz) if(!strcmp(fn,#name)) { T dflt; memset(&dflt,PRE,sizeof dflt); \
	uint8_t raw[16]; T before; (void)before; memcpy(&dflt,df,sizeof(T)<16?sizeof(T):16); T v = strnum_##name(src,dflt,o); memcpy(raw,&v,sz); obytes("D",raw,sz); ok=1; }
/* the options as strnum.h names them */
static int named(int o)
{
	return (o&1?STRNUM_BASE_BIN:STRNUM_DEFAULT) | (o&2?STRNUM_BASE_HEX:STRNUM_DEFAULT) | (o&4?STRNUM_NOBX:STRNUM_DEFAULT)
	     | (o&8?STRNUM_NOSIGN:STRNUM_DEFAULT) | (o&16?STRNUM_NOSPACE:STRNUM_DEFAULT) | (o&32?STRNUM_NOEXP:STRNUM_DEFAULT);
}
bool num_op(const char* op)
{
	if(!strcmp(op,"src"))
	{	/* src <hex> | src N (invalid view) | src 0 (no source at all) | src R (invalid view with a length of zero over a non-empty block) */
		const char* t=tk[tp];
		srcnull=0;
		if(t[0]!='N'&&t[0]!='Z'&&blk&&blkn)
		{	/* a text of the same length takes the place of the former one */
			bytes_t b=tokhex();
			if(b.n==blkn){ memcpy(blk,b.p,b.n); memcpy(blkcopy,b.p,b.n); free_exact(b.p); }
			else { drop(); blk=b.p; blkn=b.n; blkcopy=xmalloc(b.n); memcpy(blkcopy,b.p,b.n); }
			src=(strview_t){(char*)blk,blkn};
			fprintf(out,"{\"op\":\"src\",\"k\":0"); obytes("b",blk,blkn); fprintf(out,"}\n");
			return true;
		}
		drop();
		if(t[0]=='N'||t[0]=='Z'){ tok(); src=STRVIEW_INVALID; srcnull=t[0]=='Z'; fprintf(out,"{\"op\":\"src\",\"k\":%d,\"b\":[]}\n",srcnull?2:1); }
		else
		{
			bytes_t b=tokhex(); blk=b.p; blkn=b.n; blkcopy=xmalloc(b.n); memcpy(blkcopy,b.p,b.n);
			src=(strview_t){(char*)blk,blkn};
			fprintf(out,"{\"op\":\"src\",\"k\":0"); obytes("b",b.p,b.n); fprintf(out,"}\n");
		}
		return true;
	}
	if(!strcmp(op,"skip"))
	{	/* the user drops bytes from the front of the source */
		int n=toki(); if(src.data && src.size){ n%=src.size+1; src.data+=n; src.size-=n; } else n=0;
		fprintf(out,"{\"op\":\"skip\",\"i\":%d}\n",n); return true;
	}
	if(!strcmp(op,"num"))
	{
		const char* fn=tok(); int o=toki(), var=toki(), hasdst=toki(), ok=0; strview_t* sp=srcnull?NULL:&src;
		fprintf(out,"{\"op\":\"num\",\"fn\":\"%s\",\"o\":%d,\"dst\":%d",fn,o,hasdst); o=named(o);
		CONSUME(uchar,unsigned char,1) CONSUME(ushort,unsigned short,2) CONSUME(uint,unsigned int,4) CONSUME(ulong,unsigned long,8) CONSUME(ullong,unsigned long long,8)
		CONSUME(char,char,1) CONSUME(short,short,2) CONSUME(int,int,4) CONSUME(long,long,8) CONSUME(llong,long long,8)
		#ifndef STRNUM_NOFLOAT
		CONSUME(float,float,4) CONSUME(double,double,8) CONSUME(ldouble,long double,10)
		#endif
		if(!ok){ fprintf(stderr,"num fn %s\n",fn); _exit(77); }
		osrc(); fprintf(out,"}\n"); return true;
	}
	if(!strcmp(op,"val"))
	{
		const char* fn=tok(); int o=toki(), ok=0; uint8_t df[16]; bytes_t b=tokhex();
		memset(df,0,16); memcpy(df,b.p,b.n<16?b.n:16); free_exact(b.p);
		fprintf(out,"{\"op\":\"val\",\"fn\":\"%s\",\"o\":%d",fn,o); o=named(o);
		obytes("df",df,16);
		VALUE(i8,int8_t,1) VALUE(i16,int16_t,2) VALUE(i32,int32_t,4) VALUE(i64,int64_t,8)
		VALUE(u8,uint8_t,1) VALUE(u16,uint16_t,2) VALUE(u32,uint32_t,4) VALUE(u64,uint64_t,8)
		VALUE(uchar,unsigned char,1) VALUE(ushort,unsigned short,2) VALUE(uint,unsigned int,4) VALUE(ulong,unsigned long,8) VALUE(ullong,unsigned long long,8)
		VALUE(char,char,1) VALUE(short,short,2) VALUE(int,int,4) VALUE(long,long,8) VALUE(llong,long long,8)
		#ifndef STRNUM_NOFLOAT
		VALUE(float,float,4) VALUE(double,double,8) VALUE(ldouble,long double,10)
		#endif
		if(!ok){ fprintf(stderr,"val fn %s\n",fn); _exit(77); }
		osrc(); fprintf(out,"}\n"); return true;
	}
	return false;
}
void num_finish(void){ fprintf(out,"{\"op\":\"end\",\"L\":[%d,%d,%d,%d],\"e\":%d}\n",vt_live[1],vt_live[2],vt_live[3],vt_live[4],vt_err); drop(); }
