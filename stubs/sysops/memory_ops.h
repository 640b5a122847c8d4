// The sysops dependency is not available offline.  This stand-in declares the
// operations the library takes from it; a harness may define VERIF_SYSOPS_CUSTOM
// and supply its own bodies (the environment as a nondeterministic stub).
#ifndef verif_sysops_memory_ops_h
#define verif_sysops_memory_ops_h
#include <stdlib.h>
#include <string.h>

#include <cstddef>
#ifdef VERIF_HARNESS
extern "C" void sym_assert(bool c, const char *what);
#endif
namespace sysops::memory::ops
{
#ifdef VERIF_SYSOPS_CUSTOM
int posix_memalign(void **aPtr, std::size_t aAlignment,
                   std::size_t aSize) noexcept;
void free(void *aPtr) noexcept;
void *aligned_malloc(std::size_t aSize, std::size_t aAlignment) noexcept;
void aligned_free(void *aPtr) noexcept;
#elif defined(VERIF_HARNESS)
// an operating system without memory: no harness that leaves the operating
// system out has any business with it
inline int posix_memalign(void **, std::size_t, std::size_t) noexcept
{
    return 12;
}
inline void free(void *aPtr) noexcept
{
    sym_assert(aPtr == nullptr, "memory that is not the operating system's is given to it");
}
#else
inline int posix_memalign(void **aPtr, std::size_t aAlignment,
                          std::size_t aSize) noexcept
{
    return ::posix_memalign(aPtr, aAlignment, aSize);
}
inline void free(void *aPtr) noexcept { ::free(aPtr); }
#endif
}  // namespace sysops::memory::ops
#endif
