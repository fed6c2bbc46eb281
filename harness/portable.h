/* force-included: what the sources see on a processor and compiler they have
 * no special code for.  The system headers are read first, because they need
 * to know the truth. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#undef __x86__
#undef __x86_64__
#undef __AMD64__
#undef __amd64__
#undef __amd64
#undef __x86_64
#undef _M_IX86
#undef _M_AMD64
#undef __i386__
#undef __GNUC__
