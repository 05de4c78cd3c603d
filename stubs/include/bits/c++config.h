#include_next <bits/c++config.h>
// All library templates are instantiated here, so that the engine sees their code.
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
