// The standard library's own string code, instantiated so that it can be executed symbolically.
#include <string>
template class std::__cxx11::basic_string<char>;
template class std::__cxx11::basic_string<wchar_t>;
