/* Force-included into the library's sources for C28: allocations of the library go through the harness. */
#include <stdlib.h>
#include <string.h>
void *pbt_malloc(size_t n, const char *file);
void *pbt_calloc(size_t m, size_t n, const char *file);
void *pbt_realloc(void *p, size_t n, const char *file);
#define malloc(n) pbt_malloc(n, __FILE__)
#define calloc(m, n) pbt_calloc(m, n, __FILE__)
#define realloc(p, n) pbt_realloc(p, n, __FILE__)
