#pragma once
#include <cassert>
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <utility>
#include <vector>
namespace itlib {
template <typename T>
class span {
    T* m_begin = nullptr;
    T* m_end = nullptr;
public:
    using value_type = std::remove_cv_t<T>;
    using element_type = T;
    using size_type = size_t;
    using difference_type = std::ptrdiff_t;
    using pointer = T*;
    using reference = T&;
    using iterator = pointer;
    using const_iterator = const T*;

    constexpr span() noexcept = default;
    constexpr span(T* begin, size_t size) noexcept : m_begin(begin), m_end(begin + size) {}
    constexpr span(T* begin, T* end) noexcept : m_begin(begin), m_end(end) {}
    template <size_t N>
    constexpr span(T (&ar)[N]) noexcept : m_begin(ar), m_end(ar + N) {}
    template <typename U, typename = std::enable_if_t<std::is_convertible_v<U(*)[], T(*)[]>>>
    constexpr span(const span<U>& o) noexcept : m_begin(o.begin()), m_end(o.end()) {}
    template <typename C, typename = std::enable_if_t<
        !std::is_array_v<std::remove_reference_t<C>>
        && std::is_convertible_v<std::remove_pointer_t<decltype(std::declval<C&>().data())>(*)[], T(*)[]>
        && std::is_convertible_v<decltype(std::declval<C&>().size()), size_t>>>
    constexpr span(C&& c) noexcept : m_begin(c.data()), m_end(c.data() + c.size()) {}

    constexpr T* begin() const noexcept { return m_begin; }
    constexpr T* end() const noexcept { return m_end; }
    constexpr const T* cbegin() const noexcept { return m_begin; }
    constexpr const T* cend() const noexcept { return m_end; }
    constexpr auto rbegin() const noexcept { return std::reverse_iterator<T*>(m_end); }
    constexpr auto rend() const noexcept { return std::reverse_iterator<T*>(m_begin); }
    constexpr T* data() const noexcept { return m_begin; }
    constexpr size_t size() const noexcept { return size_t(m_end - m_begin); }
    constexpr size_t size_bytes() const noexcept { return size() * sizeof(T); }
    constexpr bool empty() const noexcept { return m_begin == m_end; }
    constexpr explicit operator bool() const noexcept { return !empty(); }
    constexpr T& operator[](size_t i) const noexcept { return m_begin[i]; }
    constexpr T& at(size_t i) const noexcept { return m_begin[i]; }
    constexpr T& front() const noexcept { return *m_begin; }
    constexpr T& back() const noexcept { return m_end[-1]; }
    constexpr span subspan(size_t off, size_t n = size_t(-1)) const noexcept {
        return n == size_t(-1) ? span(m_begin + off, m_end) : span(m_begin + off, n);
    }
};
template <typename T> span(T*, size_t) -> span<T>;
template <typename T> span(T*, T*) -> span<T>;
template <typename T, size_t N> span(T (&)[N]) -> span<T>;
template <typename C> span(C&&) -> span<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <typename T> span<T> make_span(T* p, size_t s) { return {p, s}; }
}
