#pragma once
#include <cstddef>
#include <memory_resource>
namespace itlib {
template <typename T = std::byte>
class pmr_allocator : public std::pmr::polymorphic_allocator<T> {
    using base = std::pmr::polymorphic_allocator<T>;
public:
    using value_type = T;
    pmr_allocator() noexcept = default;
    pmr_allocator(std::pmr::memory_resource* r) noexcept : base(r) {}
    pmr_allocator(const pmr_allocator&) = default;
    template <typename U>
    pmr_allocator(const std::pmr::polymorphic_allocator<U>& o) noexcept : base(o.resource()) {}
    pmr_allocator& operator=(const pmr_allocator&) = delete;
    pmr_allocator select_on_container_copy_construction() const { return {}; }
    template <typename U> struct rebind { using other = pmr_allocator<U>; };
    [[nodiscard]] void* allocate_bytes(size_t n, size_t a = alignof(std::max_align_t)) { return this->resource()->allocate(n, a); }
    void deallocate_bytes(void* p, size_t n, size_t a = alignof(std::max_align_t)) { this->resource()->deallocate(p, n, a); }
    template <typename U, typename... Args>
    [[nodiscard]] U* new_object(Args&&... args) {
        void* p = allocate_bytes(sizeof(U), alignof(U));
        return ::new (p) U(std::forward<Args>(args)...);
    }
    template <typename U>
    void delete_object(U* p) { p->~U(); deallocate_bytes(p, sizeof(U), alignof(U)); }
};
template <typename A, typename B>
bool operator==(const pmr_allocator<A>& a, const pmr_allocator<B>& b) noexcept { return *a.resource() == *b.resource(); }
template <typename A, typename B>
bool operator!=(const pmr_allocator<A>& a, const pmr_allocator<B>& b) noexcept { return !(*a.resource() == *b.resource()); }
}
