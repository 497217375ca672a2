/* force-included: builds the field arithmetic for compilers without vector extensions */
#include <features.h>
#include "macros.h"
#undef HAVE_ATTR_VECTOR_SIZE
