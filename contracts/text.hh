// Included first by contracts that depend on text: std::string members are then
// instantiated in the translation unit (and verified through) instead of being declared only
#ifndef VF_NATIVE
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
