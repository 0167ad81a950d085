/* Link-level interposition (ld --wrap) of the resources librseq requests: accounting, fault injection, containment. */
#ifndef INTERPOSE_H
#define INTERPOSE_H
#include <stddef.h>
#include <stdint.h>
extern __thread int ip_in_lib;		/* only calls made while set are accounted / faulted */
extern long ip_fault_countdown;		/* >0: that many-th resource request from now fails */
extern int ip_fault_hit;		/* number of faults injected */
extern long ip_nreq;			/* resource requests seen since reset */
extern long ip_munmap_countdown;	/* >0: that many-th munmap fails */
extern int ip_munmap_hit;
extern long ip_wild;			/* unmap/remap/free/close of something the library does not own */
extern int ip_place;			/* placement policy for non-fixed mappings, see interpose.c */
extern size_t ip_place_align;
extern size_t ip_max_len;		/* mappings longer than this fail with ENOMEM (not counted as injected) */
extern uint64_t ip_last_len;		/* length asked for by the last non-fixed mmap */
void ip_reset(void);
long ip_pages(void);			/* pages currently owned according to the registry */
long ip_pages_mapped(void);		/* of those, pages that are really mapped in this process (reads /proc/self/maps) */
long ip_fds(void);
long ip_heap(void);
int ip_covers(uintptr_t a, size_t len);	/* is [a,a+len) inside owned mappings */
int ip_fault(void);			/* count one resource request; 1: make it fail */
#define LIB(x) ({ ip_in_lib++; __auto_type _r = (x); ip_in_lib--; _r; })
#define LIBV(x) ({ ip_in_lib++; (x); ip_in_lib--; })
#endif
