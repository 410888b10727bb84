// Builds for the memory monitor: library calls that read or write the caller's memory are checked.
#include <cstdio>
#include <cstddef>
#include <cstdlib>
extern "C" {
void mc_range(const void *, size_t, int);
void mc_stack();
size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_memcmp(const void *, const void *, size_t);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { mc_range(p, s * n, 1); return __real_fread(p, s, n, f); }
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { mc_range(p, s * n, 0); return __real_fwrite(p, s, n, f); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { mc_range(a, n, 0); mc_range(b, n, 0); return __real_memcmp(a, b, n); }
[[noreturn]] void __stack_chk_fail() { mc_stack(); ::abort(); }
}
