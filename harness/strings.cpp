// out-of-line members of std::string (normally inside libstdc++), instantiated from the installed headers so they can be executed symbolically
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
template class std::__cxx11::basic_string<char>;
