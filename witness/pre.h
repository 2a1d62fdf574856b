// Included before everything else. libstdc++ keeps the bodies of std::string members in its shared object; asking for
// them to be instantiated here makes them visible to the analysis.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#include <cstdint>
#include <iostream>
#include <limits>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <functional>
