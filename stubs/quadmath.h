/* clang has no quadmath.h of its own: use the one of the gcc the build uses */
#include "/usr/lib/gcc/x86_64-linux-gnu/13/include/quadmath.h"
