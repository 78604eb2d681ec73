// Compile std::string's members into each object, so that they carry memory-access
// instrumentation too (otherwise they would come from libstdc++.so, unseen).
#ifdef __cplusplus
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#endif
