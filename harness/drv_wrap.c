#include "sim.h"
#include <stdlib.h>
void *__wrap_malloc(size_t n){ return sim_malloc(n); } void *__wrap_calloc(size_t a,size_t b){ return sim_calloc(a,b); }
void *__wrap_realloc(void*p,size_t n){ return sim_realloc(p,n); } void __wrap_free(void*p){ sim_free(p); }
void __wrap_exit(int s){ sim_exit(s); }
/* memcpy as the language defines it: between overlapping blocks it may do anything, so here it copies in the direction that goes wrong */
void *vf_memcpy(void *d,const void *s,size_t n){ unsigned char *a=d; const unsigned char *b=s; size_t i;
  if(a<b&&b<a+n) for(i=n;i--;) a[i]=b[i];
  else if(b<a&&a<b+n) for(i=0;i<n;++i) a[i]=b[i];
  else if(a!=b&&n) __builtin_memcpy(a,b,n);
  return d; }
