// Bitcode of the members of std::string that libstdc++ keeps in its library.
#include <string>
template class std::basic_string<char>;
