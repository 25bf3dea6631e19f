// Allocation monitor: counts, refuses and fills allocations, and measures what stays allocated.
// Include in exactly one translation unit of a program.
#pragma once
#include <cstdlib>
#include <cstring>
#include <new>
#include <sanitizer/allocator_interface.h>

namespace vh { namespace alloc {
inline thread_local bool on = false;          ///< the code under test is running
inline thread_local long failAt = -1;         ///< number of the allocation to refuse
inline thread_local long made = 0, refused = 0;
inline unsigned char fill = 0x5a;

constexpr size_t most = size_t(1) << 28;       ///< larger allocations are refused

inline void check(size_t n) { if (n > most) throw std::bad_alloc(); if (!on) return; if (made++ == failAt) { ++refused; throw std::bad_alloc(); } }
inline void* get(size_t n) { check(n); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); if (on) memset(p, fill, n); return p; }
inline size_t bytes() { return __sanitizer_get_current_allocated_bytes(); }

/// The code under test runs inside.
struct Scope { explicit Scope(long fail = -1) { made = 0; refused = 0; failAt = fail; on = true; } ~Scope() { on = false; failAt = -1; } };
}}

extern "C" void vh_allocating(size_t n) { vh::alloc::check(n); }
extern "C" void vh_allocated(void* p, size_t n) { if (vh::alloc::on) memset(p, vh::alloc::fill, n); }

void* operator new(size_t n) { return vh::alloc::get(n); }
void* operator new[](size_t n) { return vh::alloc::get(n); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { try { return vh::alloc::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { try { return vh::alloc::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { free(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { free(p); }
