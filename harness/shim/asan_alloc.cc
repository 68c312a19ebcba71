// Sanitizer builds: route TBB's scalable allocator to malloc, so that out-of-bounds accesses are seen.
#include <cstdlib>
extern "C" {
void *scalable_malloc(std::size_t n) { return std::malloc(n); }
void scalable_free(void *p) { std::free(p); }
void *scalable_calloc(std::size_t a, std::size_t b) { return std::calloc(a, b); }
void *scalable_realloc(void *p, std::size_t n) { return std::realloc(p, n); }
int scalable_posix_memalign(void **p, std::size_t a, std::size_t n) { return posix_memalign(p, a, n); }
void *scalable_aligned_malloc(std::size_t n, std::size_t a) { void *p = nullptr; return posix_memalign(&p, a, n) ? nullptr : p; }
void scalable_aligned_free(void *p) { std::free(p); }
}
