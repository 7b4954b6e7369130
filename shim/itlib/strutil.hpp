#pragma once
#include <string_view>
namespace itlib {
inline bool starts_with(std::string_view str, std::string_view with) { return str.substr(0, with.size()) == with; }
inline bool ends_with(std::string_view str, std::string_view with) {
    return str.size() >= with.size() && str.substr(str.size() - with.size()) == with;
}
}
