// Bodies of out-of-line libstdc++ string members, as IR.
#include <string>
template class std::basic_string<char>;
