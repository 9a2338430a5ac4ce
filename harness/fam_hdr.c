/* calls of code which lives in headers: built with the same flags as the library's own objects */
#include "vt.h"
#include "strbuf_pack.h"
#include "strview_unpack.h"
int64_t hdr_pack(strbuf_t** h, const char* ty, int be, uint64_t u, int* np)
{
	int64_t w=0; int n=0;
	#define PK(x) do{ if(be) STRBUF_PACK_BE(h,x); else STRBUF_PACK_LE(h,x); }while(0)
	#define P(nm,T) if(!strcmp(ty,nm)){ n=sizeof(T); T wx=(T)u; w = be ? xendian_pack_BE(wx) : xendian_pack_LE(wx); switch((u>>3)%4){ case 0: { T x=(T)u; PK(x); break; } case 1: { T tmp=(T)u; PK(tmp); break; } \
		case 2: { const T src=(T)u; PK(src); break; } default: PK((T)u); } }
	P("u8",uint8_t) P("i8",int8_t) P("u16",uint16_t) P("i16",int16_t) P("u32",uint32_t) P("i32",int32_t) P("u64",uint64_t) P("i64",int64_t)
	*np=n; return w;
}
int64_t hdr_unpack(strview_t* v, const char* ty, int be, uint8_t raw[8])
{
	int64_t w=0; strview_t av=*v;
	#define U(nm,T) if(!strcmp(ty,nm)){ T x=0, wx; memcpy(&wx,av.data,sizeof wx); w = be ? xendian_unpack_BE(wx) : xendian_unpack_LE(wx); if(be) STRVIEW_UNPACK_BE(x,av); else STRVIEW_UNPACK_LE(x,av); memcpy(raw,&x,sizeof x); }
	U("u8",uint8_t) U("i8",int8_t) U("u16",uint16_t) U("i16",int16_t) U("u32",uint32_t) U("i32",int32_t) U("u64",uint64_t) U("i64",int64_t)
	*v=av; return w;
}
