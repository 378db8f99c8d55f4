// The harness's own C++ objects need no address sanitizer: take them from the
// C library directly. The library under test never uses operator new.
#include <cstddef>
#include <cstdlib>
#include <new>
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
void *operator new(size_t n)
{
    void *p = __libc_malloc(n ? n : 1);
    if (!p)
        abort();
    return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __libc_free(p); }
void operator delete[](void *p) noexcept { __libc_free(p); }
void operator delete(void *p, size_t) noexcept { __libc_free(p); }
void operator delete[](void *p, size_t) noexcept { __libc_free(p); }
