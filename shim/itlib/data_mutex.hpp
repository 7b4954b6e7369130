#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace itlib {
template <typename T, typename Mutex>
class data_mutex {
    T m_data;
    mutable Mutex m_mutex;
    template <typename D, typename Lock>
    class basic_lock {
        friend class data_mutex;
        D* m_data;
        Lock m_lock;
        basic_lock(D& d, Mutex& m) : m_data(&d), m_lock(m) {}
    public:
        D* operator->() noexcept { return m_data; }
        D& operator*() noexcept { return *m_data; }
        const D* operator->() const noexcept { return m_data; }
        const D& operator*() const noexcept { return *m_data; }
        void unlock() { m_lock.unlock(); }
        explicit operator bool() const noexcept { return m_lock.owns_lock(); }
        bool owns_lock() const noexcept { return m_lock.owns_lock(); }
    };
public:
    template <typename... Args>
    explicit data_mutex(Args&&... args) : m_data(std::forward<Args>(args)...) {}
    data_mutex(const data_mutex&) = delete;
    data_mutex& operator=(const data_mutex&) = delete;

    using unique_lock_t = basic_lock<T, std::unique_lock<Mutex>>;
    using shared_lock_t = basic_lock<const T, std::shared_lock<Mutex>>;
    unique_lock_t unique_lock() { return unique_lock_t(m_data, m_mutex); }
    shared_lock_t shared_lock() const { return shared_lock_t(m_data, m_mutex); }
    T& unsafe_data() { return m_data; }
    T& _unsafe_get() noexcept { return m_data; }
};
}
