#pragma once
#include <algorithm>
#include <functional>
#include <utility>
#include <vector>
namespace itlib {
template <typename K, typename V, typename Cmp = std::less<K>, typename C = std::vector<std::pair<K, V>>>
class flat_map {
    Cmp m_cmp;
    C m_c;
    template <typename It, typename Q>
    It lb(It b, It e, const Q& k) const {
        return std::lower_bound(b, e, k, [this](const auto& p, const auto& q) { return m_cmp(p.first, q); });
    }
public:
    using value_type = std::pair<K, V>;
    using iterator = typename C::iterator;
    using const_iterator = typename C::const_iterator;
    flat_map() = default;
    template <typename Alloc>
    flat_map(const Cmp& c, const Alloc& a) : m_cmp(c), m_c(a) {}
    iterator begin() { return m_c.begin(); }
    iterator end() { return m_c.end(); }
    const_iterator begin() const { return m_c.begin(); }
    const_iterator end() const { return m_c.end(); }
    size_t size() const { return m_c.size(); }
    bool empty() const { return m_c.empty(); }
    void clear() { m_c.clear(); }
    template <typename Q> iterator find(const Q& k) {
        auto i = lb(m_c.begin(), m_c.end(), k);
        if (i != m_c.end() && m_cmp(k, i->first)) return m_c.end();
        return i;
    }
    template <typename Q> const_iterator find(const Q& k) const {
        auto i = lb(m_c.begin(), m_c.end(), k);
        if (i != m_c.end() && m_cmp(k, i->first)) return m_c.end();
        return i;
    }
    template <typename Q> size_t count(const Q& k) const { return find(k) != end(); }
    template <typename... A>
    std::pair<iterator, bool> emplace(K k, A&&... a) {
        auto i = lb(m_c.begin(), m_c.end(), k);
        if (i != m_c.end() && !m_cmp(k, i->first)) return {i, false};
        return {m_c.emplace(i, std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::forward<A>(a)...)), true};
    }
    std::pair<iterator, bool> insert(value_type v) { return emplace(std::move(v.first), std::move(v.second)); }
    V& operator[](const K& k) {
        auto i = lb(m_c.begin(), m_c.end(), k);
        if (i == m_c.end() || m_cmp(k, i->first)) i = m_c.emplace(i, k, V{});
        return i->second;
    }
    iterator erase(iterator i) { return m_c.erase(i); }
    iterator erase(const_iterator i) { return m_c.erase(i); }
    template <typename Q> size_t erase_key(const Q& k) { auto i = find(k); if (i == end()) return 0; m_c.erase(i); return 1; }
    template <typename Q> V& at(const Q& k) { return find(k)->second; }
};
}
