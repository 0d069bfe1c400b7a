/* Memory given by malloc() and released by free() is filled, so that its use before it is written or after it is released shows. */
#include <malloc.h>
__attribute__((constructor)) static void perturb(void) { mallopt(M_PERTURB, 0xa5); }
