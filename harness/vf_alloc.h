/* Force-included into the C sources under test: routes allocation through the
   harness (leak accounting, failure injection). */
#pragma once
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void* vf_malloc(size_t n);
void* vf_calloc(size_t m, size_t n);
void* vf_realloc(void* p, size_t n);
void vf_free(void* p);
char* vf_strdup(const char* s);
#ifdef __cplusplus
}
#endif
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#undef strdup
#define strdup vf_strdup
