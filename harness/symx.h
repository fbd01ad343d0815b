/* Harness interface shared by the symbolic engine (symx) and native replay. */
#ifndef SYMX_H
#define SYMX_H
#include <stdint.h>
#include <stddef.h>
void symx_make(void *p, size_t n, const char *name);   /* fresh symbolic bytes */
void symx_assume(int c);
void symx_assert(int c, const char *label);            /* obligation */
void symx_concretize(void *p, size_t n);               /* case-split over all values (n<=8) */
void symx_observe(uint64_t v);                         /* recorded for engine/native cross-validation */
void symx_reach(const char *label);                    /* vacuity marker */
void symx_end(void);                                   /* end of path */
int  symx_is_symbolic(uint64_t v);
int  symx_readable(const void *p, size_t n);
uint64_t symx_live_heap(void);
extern int symx_case;                                  /* configuration number */
static inline uint32_t symx_u32(const char *n) { uint32_t v; symx_make(&v, 4, n); return v; }
static inline uint16_t symx_u16(const char *n) { uint16_t v; symx_make(&v, 2, n); return v; }
static inline uint8_t  symx_u8(const char *n) { uint8_t v; symx_make(&v, 1, n); return v; }
/* a value in [0,n) decided by case split */
#ifdef SYMX_RND
unsigned symx_choice(unsigned n, const char *name);
#else
static inline unsigned symx_choice(unsigned n, const char *name) { uint8_t v; symx_make(&v, 1, name); symx_assume(v < n); symx_concretize(&v, 1); return v; }
#endif
#endif
