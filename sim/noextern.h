// templates of the standard library that its shared object also provides are compiled here, so that
// their memory accesses are seen by the simulator
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
