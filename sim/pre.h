/* Forced into every instrumented C++ unit: library templates are instantiated here, instrumented, instead of being
   taken uninstrumented from libstdc++.so. */
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <cerrno>
#include <cassert>
#include <cmath>
#include <cstring>
#include <climits>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cctype>
#include <ctime>
#include <regex.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <memory>
#include <algorithm>
#include <stack>
#include <queue>
#include <bitset>
#include <vector>
#include <map>
#include <unordered_map>
#include <list>
#include <iostream>
#include <iomanip>
#include <set>
#include <type_traits>
#include <typeinfo>
#include <regex>
#include <string>
#include <sstream>
#include <initializer_list>
#include <functional>
#include <codecvt>
#include <chrono>
#include <utility>
#include <tuple>
#include <random>
#include <future>
#endif
