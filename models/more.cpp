// C library and C++ runtime functions the code does not call today but a rewrite of it might, by their documented contract.
#include <stdint.h>
#include <stddef.h>
#define WEAK __attribute__((weak))
extern "C" void vs_fail(const char*);
extern "C" {
WEAK void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
WEAK wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t*)(s + i); return 0; }
WEAK wchar_t* wmemset(wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) s[i] = c; return s; }
WEAK wchar_t* wcschr(const wchar_t* s, wchar_t c) { for (;; s++) { if (*s == c) return (wchar_t*)s; if (!*s) return 0; } }
WEAK char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
WEAK wchar_t* wcsrchr(const wchar_t* s, wchar_t c) { const wchar_t* r = 0; for (;; s++) { if (*s == c) r = s; if (!*s) return (wchar_t*)r; } }
WEAK int wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
WEAK int bcmp(const void* x, const void* y, size_t n) { const unsigned char* a = (const unsigned char*)x; const unsigned char* b = (const unsigned char*)y; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return 1; return 0; }
WEAK char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
WEAK wchar_t* wcsncpy(wchar_t* d, const wchar_t* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
WEAK char* strcat(char* d, const char* s) { char* p = d; while (*p) p++; while ((*p++ = *s++)); return d; }
WEAK wchar_t* wcscat(wchar_t* d, const wchar_t* s) { wchar_t* p = d; while (*p) p++; while ((*p++ = *s++)); return d; }
WEAK size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
WEAK size_t wcsnlen(const wchar_t* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
WEAK wchar_t* wcsstr(const wchar_t* h, const wchar_t* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (wchar_t*)h; if (!*h) return 0; } }
WEAK char* strstr(const char* h, const char* n) { for (;; h++) { size_t i = 0; while (n[i] && h[i] == n[i]) i++; if (!n[i]) return (char*)h; if (!*h) return 0; } }
WEAK int isdigit(int c) { return (unsigned)c - '0' < 10; }
WEAK int isspace(int c) { return c == ' ' || (unsigned)c - '\t' < 5; }
WEAK int isupper(int c) { return (unsigned)c - 'A' < 26; }
WEAK int islower(int c) { return (unsigned)c - 'a' < 26; }
WEAK int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
}
namespace std {
WEAK void __throw_length_error(const char*) { vs_fail("std::length_error"); __builtin_unreachable(); }
WEAK void __throw_bad_array_new_length() { vs_fail("std::bad_array_new_length"); __builtin_unreachable(); }
WEAK void __throw_bad_alloc() { vs_fail("std::bad_alloc"); __builtin_unreachable(); }
WEAK void __throw_out_of_range(const char*) { vs_fail("std::out_of_range"); __builtin_unreachable(); }
WEAK void __throw_out_of_range_fmt(const char*, ...) { vs_fail("std::out_of_range"); __builtin_unreachable(); }
WEAK void __throw_logic_error(const char*) { vs_fail("std::logic_error"); __builtin_unreachable(); }
WEAK void __throw_bad_function_call() { vs_fail("std::bad_function_call"); __builtin_unreachable(); }
WEAK void __throw_bad_optional_access() { vs_fail("std::bad_optional_access"); __builtin_unreachable(); }
WEAK void __throw_bad_variant_access(const char*) { vs_fail("std::bad_variant_access"); __builtin_unreachable(); }
}
