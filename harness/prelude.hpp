// Included first by every analysis unit: the standard headers as clang sees them, then the compiler version
// macros of the compiler that builds /repo (g++ 13), so that conditional code in /repo is selected as in the build.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <cerrno>
#include <csetjmp>
#include <climits>
#include <stdint.h>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <utility>
#include <limits>
#include <algorithm>
#include <iterator>
#include <stdexcept>
#include <exception>
#include <iostream>
#include <sstream>
#include <fstream>
#undef __GNUC__
#undef __GNUC_MINOR__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
