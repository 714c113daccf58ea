// force-included: libstdc++ templates are instantiated in place, so that their code is available to the symbolic executor
#ifdef __cplusplus
#include <cstddef>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
