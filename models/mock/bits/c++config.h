// The standard library's own configuration, with every template instantiated where it is used: the definitions then
// are in the IR.
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
