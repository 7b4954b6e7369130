#pragma once
#include <algorithm>
#include <functional>
#include <vector>
namespace itlib {
template <typename K, typename Cmp = std::less<K>, typename C = std::vector<K>>
class flat_set {
    Cmp m_cmp; C m_c;
public:
    size_t size() const { return m_c.size(); }
    auto begin() const { return m_c.begin(); }
    auto end() const { return m_c.end(); }
    auto insert(const K& k) {
        auto i = std::lower_bound(m_c.begin(), m_c.end(), k, m_cmp);
        if (i == m_c.end() || m_cmp(k, *i)) i = m_c.insert(i, k);
        return i;
    }
    C& modify_container() { return m_c; }
};
}
