#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
namespace itlib {
template <typename T>
class stride_span {
    using byte_t = std::conditional_t<std::is_const_v<T>, const unsigned char, unsigned char>;
    byte_t* m_data = nullptr;
    size_t m_size = 0;
    size_t m_stride = 0;
public:
    stride_span() = default;
    stride_span(void const* d, size_t size, size_t stride)
        : m_data(reinterpret_cast<byte_t*>(const_cast<void*>(d))), m_size(size), m_stride(stride) {}
    class iterator {
        byte_t* p; size_t stride;
        friend class stride_span;
        iterator(byte_t* p, size_t s) : p(p), stride(s) {}
    public:
        using value_type = std::remove_cv_t<T>;
        using reference = T&;
        using pointer = T*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        iterator() : p(nullptr), stride(0) {}
        T& operator*() const { return *reinterpret_cast<T*>(p); }
        T* operator->() const { return reinterpret_cast<T*>(p); }
        iterator& operator++() { p += stride; return *this; }
        iterator operator++(int) { auto r = *this; p += stride; return r; }
        bool operator==(const iterator& o) const { return p == o.p; }
        bool operator!=(const iterator& o) const { return p != o.p; }
    };
    iterator begin() const { return iterator(m_data, m_stride); }
    iterator end() const { return iterator(m_data + m_size * m_stride, m_stride); }
    size_t size() const { return m_size; }
    bool empty() const { return !m_size; }
    T& operator[](size_t i) const { return *reinterpret_cast<T*>(m_data + i * m_stride); }
};
template <typename T, typename M>
auto make_stride_span_member_view(const T* data, size_t size, M T::*member) {
    return stride_span<const M>(data ? &(data->*member) : nullptr, size, sizeof(T));
}
template <typename T, typename M>
auto make_stride_span_member_view(T* data, size_t size, M T::*member) {
    return stride_span<M>(data ? &(data->*member) : nullptr, size, sizeof(T));
}
}
