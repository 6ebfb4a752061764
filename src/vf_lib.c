// The repository's own lib.c with page mappings recycled (zeroed) instead of returned to the kernel.
#define _GNU_SOURCE
#include <sys/mman.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <stdint.h>
struct vf_fl { struct vf_fl *next; size_t sz; };
static struct vf_fl *vf_free[64]; 
static unsigned vf_nfree;
long vf_mapped;
static void *vf_mmap(void *a, size_t sz, int p, int fl, int fd, long off){
  if (fl & MAP_HUGETLB) { errno=ENOMEM; return MAP_FAILED; }
  vf_mapped += (long) sz;
  for (unsigned i=0;i<vf_nfree;i++) if (vf_free[i] && vf_free[i]->sz==sz) { void *r=vf_free[i]; vf_free[i]=vf_free[--vf_nfree]; memset(r,0,sz); return r; }
  return mmap(a,sz,p,fl,fd,off);
}
static int vf_munmap(void *a, size_t sz){ vf_mapped -= (long) sz; if (vf_nfree<64 && sz>=4096 && sz <= (1u<<21)) { struct vf_fl*f=a; f->sz=sz; vf_free[vf_nfree++]=f; return 0;} return munmap(a,sz);} 
#define mmap vf_mmap
#define munmap vf_munmap
#define mlock(a,b) (0)
#include "lib.c"
