// Stand-in for blaze/util/Memory.h (blaze is not available offline):
// SIMD aligned allocation of arrays of built-in types and of class types.
#pragma once
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <new>
#include <type_traits>

// A harness program may watch, refuse and fill the allocations.
extern "C" {
__attribute__((weak)) void vh_allocating(size_t bytes);
__attribute__((weak)) void vh_allocated(void* memory, size_t bytes);
}

namespace blaze {

template <typename T>
T* allocate(size_t size)
{
    if constexpr (std::is_arithmetic<T>::value) {
        void* raw = nullptr;
        if (vh_allocating) vh_allocating(size * sizeof(T));
        if (size > (static_cast<size_t>(-1) - 64) / sizeof(T) ||
            posix_memalign(&raw, 32, size * sizeof(T) ? size * sizeof(T) : 1)) throw std::bad_alloc();
        if (vh_allocated) vh_allocated(raw, size * sizeof(T));
        return static_cast<T*>(raw);
    } else {
        return new T[size];
    }
}

template <typename T>
void deallocate(T* address) noexcept
{
    if (address == nullptr) return;
    if constexpr (std::is_arithmetic<T>::value) free(address);
    else delete[] address;
}

} // namespace blaze
