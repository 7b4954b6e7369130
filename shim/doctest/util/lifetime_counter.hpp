#pragma once
// stand-in for doctest-util's lifetime_counter (only used to run the repository's own unit tests)
#include <atomic>
#include <doctest/doctest.h>
namespace doctest { namespace util {
struct lifetime_stats {
    std::atomic<int> living{0}, total{0}, copies{0}, d_ctr{0}, c_ctr{0}, c_asgn{0}, m_ctr{0}, m_asgn{0}, asgn{0};
};
struct lifetime_counter_sentry { const lifetime_stats* s; lifetime_counter_sentry(const lifetime_stats& st) : s(&st) {} };
template <typename T>
class lifetime_counter {
public:
    struct sentry : public lifetime_stats {
        sentry* prev;
        sentry() : prev(cur()) { cur() = this; }
        ~sentry() { cur() = prev; }
        sentry(const sentry&) = delete;
    };
    using lifetime_stats = sentry;
    static sentry*& cur() { static sentry* c = nullptr; return c; }
    template <typename F> static void each(F f) { for (auto c = cur(); c; c = c->prev) f(*c); }
    lifetime_counter() { each([](sentry& s){ ++s.living; ++s.total; ++s.d_ctr; }); }
    lifetime_counter(const lifetime_counter&) { each([](sentry& s){ ++s.living; ++s.total; ++s.copies; ++s.c_ctr; }); }
    lifetime_counter& operator=(const lifetime_counter&) { each([](sentry& s){ ++s.copies; ++s.c_asgn; ++s.asgn; }); return *this; }
    lifetime_counter(lifetime_counter&&) noexcept { each([](sentry& s){ ++s.living; ++s.total; ++s.m_ctr; }); }
    lifetime_counter& operator=(lifetime_counter&&) noexcept { each([](sentry& s){ ++s.m_asgn; ++s.asgn; }); return *this; }
    ~lifetime_counter() { each([](sentry& s){ --s.living; }); }
};
}}
