/* the real library; under CBMC calloc becomes the primitive it is made of, so that the object keeps its type */
#ifdef SYM
#include <stdlib.h>
#define calloc(a, b) __CPROVER_allocate((a) * (b), 1)
#endif
#include "lj92.c"
