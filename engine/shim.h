/* Forced into every translation unit of the library (and of the harnesses) with -include.
 * It redirects the allocation functions to tracked versions, so that the checks can
 *  - decide that every block is freed exactly once (leaks, double frees),
 *  - inject an allocation failure at the N-th request,
 *  - stop a runaway allocation.
 * It changes nothing else: it includes no header, so that the sources can choose the features of the C library
 * they want, and the declarations in <stdlib.h>, <string.h> and <time.h> become those of the tracked versions. */
#ifndef VF_SHIM_H
#define VF_SHIM_H
#define malloc  vf_malloc
#define calloc  vf_calloc
#define realloc vf_realloc
#define free    vf_free
#define strdup  vf_strdup
#define strndup vf_strndup
#define time    vf_time
#define rand    vf_rand
#define srand   vf_srand
#endif
