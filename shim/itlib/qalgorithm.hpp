#pragma once
#include <algorithm>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename R, typename V>
auto qfind(R&& r, const V& v) { return std::find(std::begin(r), std::end(r), v); }
template <typename R, typename P>
auto qfind_if(R&& r, P&& p) { return std::find_if(std::begin(r), std::end(r), p); }
template <typename R, typename V>
auto pfind(R&& r, const V& v) -> decltype(&*std::begin(r)) {
    auto f = std::find(std::begin(r), std::end(r), v);
    if (f == std::end(r)) return nullptr;
    return &*f;
}
template <typename R, typename P>
auto pfind_if(R&& r, P&& p) -> decltype(&*std::begin(r)) {
    auto f = std::find_if(std::begin(r), std::end(r), p);
    if (f == std::end(r)) return nullptr;
    return &*f;
}
template <typename R, typename P>
bool qall_of(R&& r, P&& p) { return std::all_of(std::begin(r), std::end(r), p); }
template <typename R, typename P>
bool qany_of(R&& r, P&& p) { return std::any_of(std::begin(r), std::end(r), p); }
template <typename R, typename P>
bool qnone_of(R&& r, P&& p) { return std::none_of(std::begin(r), std::end(r), p); }
template <typename C, typename V>
bool erase_first(C& c, const V& v) {
    auto f = std::find(c.begin(), c.end(), v);
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename P>
bool erase_first_if(C& c, P&& p) {
    auto f = std::find_if(c.begin(), c.end(), p);
    if (f == c.end()) return false;
    c.erase(f);
    return true;
}
template <typename C, typename V>
size_t erase_all(C& c, const V& v) {
    auto n = std::remove(c.begin(), c.end(), v);
    size_t ret = size_t(c.end() - n);
    c.erase(n, c.end());
    return ret;
}
template <typename C, typename P>
size_t erase_all_if(C& c, P&& p) {
    auto n = std::remove_if(c.begin(), c.end(), p);
    size_t ret = size_t(c.end() - n);
    c.erase(n, c.end());
    return ret;
}
}
