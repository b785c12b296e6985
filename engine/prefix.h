// Included first in every symbolic build: keeps these library functions out of line so that the model replaces them.
// Library templates are compiled in place rather than taken from libstdc++'s binary.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <bits/stringfwd.h>
namespace std { inline namespace __cxx11 {
#define SX_NI __attribute__((noinline))
SX_NI basic_string<char> to_string(int) noexcept; SX_NI basic_string<char> to_string(unsigned) noexcept; SX_NI basic_string<char> to_string(long);
SX_NI basic_string<char> to_string(unsigned long); SX_NI basic_string<char> to_string(long long); SX_NI basic_string<char> to_string(unsigned long long);
SX_NI basic_string<char> to_string(float); SX_NI basic_string<char> to_string(double);
} }
