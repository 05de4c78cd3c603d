// C library functions as plain loops. No headers: the declarations here are the definitions.
#ifdef VF_ENGINE
typedef unsigned long size_t;
extern "C" {
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (; n; s++, n--) if (*s == (unsigned char)c) return (void*)s; return nullptr; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { char* r = nullptr; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
char* strstr(const char* h, const char* n) { for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) a++, b++; if (!*b) return (char*)h; if (!*h) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int isalnum(int c) { return ((unsigned)((c | 32) - 'a') < 26u) | ((unsigned)(c - '0') < 10u); }
int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; }
int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isxdigit(int c) { return ((unsigned)(c - '0') < 10u) | ((unsigned)((c | 32) - 'a') < 6u); }
int isspace(int c) { return c == ' ' || (unsigned)(c - 9) < 5u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
int islower(int c) { return (unsigned)(c - 'a') < 26u; }
int isprint(int c) { return (unsigned)(c - 32) < 95u; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
char* getenv(const char*) { return nullptr; }
int printf(const char*, ...) { return 0; }
int fprintf(void*, const char*, ...) { return 0; }
int puts(const char*) { return 0; }
}
#endif
