/* common parts of the per-rank driver: script tokens, event output */
#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <stddef.h>
#include <string.h>
#include <stdint.h>
#include <float.h>
#include <limits.h>
#include <math.h>
#include "gslib.h"
#include "sim.h"
#undef free
/* the library's heap is the simulator's guarded heap; so is the driver's */
#define dmalloc(n) sim_malloc(n)
#define dfree(p) sim_free(p)

const char *tok(void);          /* next token of the current line ("" if none) */
int ti(void); long long tll(void); double td(void);
int more(void);
#define IS sizeof(uint)
#ifndef GSLIB_USE_MPI
#define MPI_COMM_WORLD 0
#define MPI_Comm_c2f(c) 0
#endif
#define EM sim_emit
#define ME sim_rank()
void em_ints(const char *name,const int *v,int n);  /* ,"name":[..] */
void em_sent(void);                                  /* ,"m":[messages to each world rank] */

#define NSLOT 64
#define BADV 2000000001
#define MAXV 2000000000
struct dcomm { struct comm c; int used, key; };
extern struct dcomm DC[NSLOT];
struct dbuf { buffer b; int used; }; extern struct dbuf DB[16];
buffer *getbuf(int k);

/* scalar domains */
void put_val(int dom,void *p,size_t i,long long v,int shift);
int get_val(int dom,const void *p,size_t i,int shift,int mod);
extern const unsigned dsz[5];
int xdom(int dom);              /* the domain used in this configuration for a domain of the script */
void em_uints(const char *name,const uint *v,int n);
#define SDOM GS_TYPE_LOCAL(2,3,4)
#define LDOM GS_TYPE_GLOBAL(2,3,4)
#define MODP 32749

int cmd_gs(const char *c), cmd_mv(const char *c), cmd_srt(const char *c), cmd_fp(const char *c), cmd_num(const char *c);
#pragma weak cmd_mv
#pragma weak cmd_srt

#pragma weak cmd_num
int cmd_cm(const char *c);
#pragma weak cmd_cm
void gs_dump_all(void);
#endif
