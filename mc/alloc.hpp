// An allocator of the user's: every block carries a header, so that memory obtained elsewhere, returned
// elsewhere or returned with a different size is seen at once (and leftovers are seen by the heap accounting).
#ifndef MC_ALLOC_HPP
#define MC_ALLOC_HPP
#include "mc/core.hpp"
#include <cstddef>

namespace mc {
// The most elements an allocation can ask for without being refused before it reaches operator new.
template<typename T>
size_t top_size() {
#ifdef MC_FREE
    return size_t(-1) / sizeof(T);
#else
    return size_t(-1) / 2 / sizeof(T);
#endif
}
struct alignas(16) AllocHead {
    size_t magic, n;
    const void* self;
};
template<typename T>
struct UserAlloc {
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef size_t size_type;
    typedef std::ptrdiff_t difference_type;
    template<typename U>
    struct rebind {
        typedef UserAlloc<U> other;
    };
    UserAlloc() noexcept {}
    template<typename U>
    UserAlloc(const UserAlloc<U>&) noexcept {}
    T* allocate(size_t n) {
        if (n > size_t(-1) / 2 / sizeof(T))
            throw std::bad_alloc();
        AllocHead* h = (AllocHead*)malloc(sizeof(AllocHead) + n * sizeof(T));
        h->magic = 0xA110C;
        h->n = n;
        h->self = h;
        return (T*)(h + 1);
    }
    void deallocate(T* p, size_t n) {
        AllocHead* h = (AllocHead*)(void*)p - 1;
        if (h->magic != 0xA110C || h->self != h)
            fail("memory that the allocator did not provide is returned to it");
        if (h->n != n)
            fail("%zu elements of memory are returned to the allocator as %zu", h->n, n);
        h->magic = 0;
        free(h);
    }
#ifdef MC_FREE
    // the freestanding AllocatorTraits asks the allocator for these
    size_t max_size() const noexcept {
        return size_t(-1) / sizeof(T);
    }
    template<typename U, typename... Args>
    void construct(U* p, Args&&... args) {
        ::new ((void*)p) U(std::forward<Args>(args)...);
    }
    template<typename U>
    void destroy(U* p) {
        p->~U();
    }
#endif
};
template<typename T, typename U>
bool operator==(const UserAlloc<T>&, const UserAlloc<U>&) {
    return true;
}
template<typename T, typename U>
bool operator!=(const UserAlloc<T>&, const UserAlloc<U>&) {
    return false;
}
}  // namespace mc
#endif
