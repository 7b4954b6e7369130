#pragma once
#include <atomic>
namespace itlib {
template <typename T>
class atomic_relaxed_counter {
    std::atomic<T> m;
public:
    atomic_relaxed_counter(T t = {}) noexcept : m(t) {}
    atomic_relaxed_counter(const atomic_relaxed_counter&) = delete;
    atomic_relaxed_counter& operator=(const atomic_relaxed_counter&) = delete;
    T operator=(T t) noexcept { m.store(t, std::memory_order_relaxed); return t; }
    T load() const noexcept { return m.load(std::memory_order_relaxed); }
    void store(T t) noexcept { m.store(t, std::memory_order_relaxed); }
    operator T() const noexcept { return load(); }
    T fetch_add(T t) noexcept { return m.fetch_add(t, std::memory_order_relaxed); }
    T fetch_sub(T t) noexcept { return m.fetch_sub(t, std::memory_order_relaxed); }
    T operator++() noexcept { return fetch_add(1) + 1; }
    T operator++(int) noexcept { return fetch_add(1); }
    T operator--() noexcept { return fetch_sub(1) - 1; }
    T operator--(int) noexcept { return fetch_sub(1); }
    T operator+=(T t) noexcept { return fetch_add(t) + t; }
    T operator-=(T t) noexcept { return fetch_sub(t) - t; }
};
}
