// instantiate std::string's members in the instrumented objects instead of calling libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
