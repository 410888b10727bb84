// In every copy: the program's output, termination and memory functions go to the run time.
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <dlfcn.h>
extern "C" {
void mc_out(const char *, size_t);
[[noreturn]] void mc_abort(const char *);
[[noreturn]] void mc_exit(int);
void mc_range(const void *, size_t, int);
__attribute__((no_sanitize("thread"))) int vprintf(const char *f, va_list ap)
{
    char b[4096]; va_list c; va_copy(c, ap); int n = vsnprintf(b, sizeof b, f, c); va_end(c);
    if (n > 0) mc_out(b, (size_t)n < sizeof b ? n : sizeof b - 1);
    return n;
}
__attribute__((no_sanitize("thread"))) int printf(const char *f, ...) { va_list ap; va_start(ap, f); int n = vprintf(f, ap); va_end(ap); return n; }
__attribute__((no_sanitize("thread"))) int puts(const char *s) { mc_out(s, strlen(s)); mc_out("\n", 1); return 1; }
__attribute__((no_sanitize("thread"))) int putchar(int c) { char b = c; mc_out(&b, 1); return c; }
#define NS __attribute__((no_sanitize("thread")))
static void *nextOf(const char *n) { return dlsym(RTLD_NEXT, n); }
NS size_t fwrite(const void *p, size_t s, size_t n, FILE *f)
{
    if (f == stdout) { mc_out((const char *)p, s * n); return n; }
    static size_t (*real)(const void *, size_t, size_t, FILE *) = (decltype(real))nextOf("fwrite"); return real(p, s, n, f);
}
NS int fputs(const char *s, FILE *f) { if (f == stdout) { mc_out(s, strlen(s)); return 1; } static int (*real)(const char *, FILE *) = (decltype(real))nextOf("fputs"); return real(s, f); }
NS int fputc(int c, FILE *f) { if (f == stdout) { char b = c; mc_out(&b, 1); return c; } static int (*real)(int, FILE *) = (decltype(real))nextOf("fputc"); return real(c, f); }
#undef putc
NS int putc(int c, FILE *f) { return fputc(c, f); }
NS int vfprintf(FILE *f, const char *m, va_list ap) { if (f == stdout) return vprintf(m, ap); static int (*real)(FILE *, const char *, va_list) = (decltype(real))nextOf("vfprintf"); return real(f, m, ap); }
NS int fprintf(FILE *f, const char *m, ...) { va_list ap; va_start(ap, m); int n = vfprintf(f, m, ap); va_end(ap); return n; }
__attribute__((no_sanitize("thread"))) void abort() { mc_abort("abort"); }
__attribute__((no_sanitize("thread"))) void exit(int c) { mc_exit(c); }
__attribute__((no_sanitize("thread"))) void _exit(int c) { mc_exit(c); }
__attribute__((no_sanitize("thread"))) void __assert_fail(const char *a, const char *f, unsigned l, const char *) noexcept
{ char b[600]; snprintf(b, sizeof b, "assert(%s) %s:%u", a, f, l); mc_abort(b); }
typedef void (*mc_sig)(int);
__attribute__((no_sanitize("thread"))) mc_sig signal(int, mc_sig) { return nullptr; }
void *__real_memmove(void *, const void *, size_t);
__attribute__((no_sanitize("thread"))) void *__wrap_memcpy(void *d, const void *s, size_t n) { mc_range(s, n, 0); mc_range(d, n, 1); return __real_memmove(d, s, n); }
__attribute__((no_sanitize("thread"))) void *__wrap_memmove(void *d, const void *s, size_t n) { mc_range(s, n, 0); mc_range(d, n, 1); return __real_memmove(d, s, n); }
void *__real_memset(void *, int, size_t);
__attribute__((no_sanitize("thread"))) void *__wrap_memset(void *d, int c, size_t n) { mc_range(d, n, 1); return __real_memset(d, c, n); }
}
