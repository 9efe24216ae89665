/* Force-included before every mjs source file of a verification build: routes
 * the library's own allocations through counting wrappers (per-case leak
 * detection) without touching the sources. */
#ifndef VERIF_PRE_H_
#define VERIF_PRE_H_
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void *vf_malloc(size_t n);
void *vf_calloc(size_t a, size_t b);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
char *vf_strdup(const char *s);
#ifdef __cplusplus
}
#endif
#ifndef VERIF_NO_WRAP
#undef strdup
#define malloc(n) vf_malloc(n)
#define calloc(a, b) vf_calloc(a, b)
#define realloc(p, n) vf_realloc(p, n)
#define free(p) vf_free(p)
#define strdup(s) vf_strdup(s)
#endif
#endif
