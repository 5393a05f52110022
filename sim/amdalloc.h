/* Forced into amd_global.c: the ordering package takes its memory through
 * these, so that the simulator can tell its allocations from the others. */
#include <stddef.h>
void *simamd_malloc(size_t); void *simamd_calloc(size_t, size_t); void simamd_free(void *); void *simamd_realloc(void *, size_t);
#define malloc simamd_malloc
#define calloc simamd_calloc
#define free simamd_free
#define realloc simamd_realloc
