/* Conformance driver: interprets scripts of calls, runs them on the real library and logs one event per call. */
#ifndef VT_H
#define VT_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <limits.h>
#include <errno.h>
#include <unistd.h>
#include "strbuf.h"
#include "strview.h"
#include "strnum.h"

/* script tokens */
extern char** tk; extern int ntk, tp;
const char* tok(void); long tokl(void); int toki(void); bool tokend(void);
typedef struct { uint8_t* p; int n; } bytes_t;
bytes_t tokhex(void);               /* exact-size malloc'ed block (ASan guards both ends) */
bytes_t tokhexz(void);              /* same with a terminating zero, n excludes it */
void* xmalloc(size_t n);
bytes_t exact_new(int n);            /* block of exactly n bytes; the single byte behind an empty one is poisoned */
void free_exact(void* p);

/* output */
extern FILE* out;
void obytes(const char* name, const void* p, long n);
void olit(const void* p, long n);

/* literal sources used by the current call, checked afterwards */
void lit_reset(void);
int  lit_check(void);               /* 1 = every source still has its original bytes; frees them */
bytes_t lit_add(bytes_t b, int extra);   /* registers a block of n+extra bytes */

/* allocators */
#define NALLOC 4
extern strbuf_allocator_t* vt_allocator(int id);
extern int vt_live[NALLOC+1];
extern int vt_err;
extern int vt_used;        /* allocators the library has called since the start of the call (bit set) */
long vt_block_size(const void* p, int* id);   /* -1 if not a live block start */
void vt_user_free(int id, void* p);
void vt_reset(void);

/* interleaving of two histories (nest.c) */
extern int vt_depth, vt_watching, vt_touched;
extern long vt_yields;              /* yield points passed so far */
void vt_yield(void);
void vt_line(char* line);
int vt_watch(void);                 /* are all sources unchanged right now? */
int lit_watch(void); int view_watch(void); int num_watch(void);
/* sources up to this size are compared at this access */
#define VT_WATCHED() (vt_yields%61 ? 1024 : 1<<17)
void nest_init(FILE* out2); void nest_run(char* line); void nest_arm(long k, char* line); void nest_flush(void); int nest_ready(void); void nest_fresh(void);
/* calls of header code, built like the library's own (fam_hdr.c) */
int64_t hdr_pack(strbuf_t** h, const char* ty, int be, uint64_t u, int* n);
int64_t hdr_unpack(strview_t* v, const char* ty, int be, uint8_t raw[8]);

/* families */
void buf_reset(void); void buf_finish(void); bool buf_op(const char* op);
void view_reset(void); void view_finish(void); bool view_op(const char* op);
bool num_op(const char* op); void num_reset(void); void num_finish(void);
void acc_reset(void); void acc_finish(void); bool acc_op(const char* op);

void huge_reset(void); void huge_finish(void); bool huge_op(const char* op);

/* shared with other families */
extern strbuf_t* slot[];
#define NSLOT 3
void ev_begin(const char* op, int s);
void ev_target(int s);
void ev_end(int s);
void ev_ret(strview_t r, int s);
strbuf_t** hnd(int s);
#endif
