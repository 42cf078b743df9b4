typedef unsigned long size_t;
// ---------------------------------------------------------------- libc
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
int memcmp(const void* x, const void* y, size_t n) { const unsigned char *a = (const unsigned char*)x, *b = (const unsigned char*)y; for (; n; n--, a++, b++) if (*a != *b) return (int)*a - (int)*b; return 0; }
void* memset(void* p, int c, size_t n) { unsigned char* a = (unsigned char*)p; for (size_t i = 0; i < n; i++) a[i] = (unsigned char)c; return p; }
int bcmp(const void* x, const void* y, size_t n) { return memcmp(x, y, n); }
void* memchr(const void* p, int c, size_t n) { const unsigned char* a = (const unsigned char*)p; for (; n; n--, a++) if (*a == (unsigned char)c) return (void*)a; return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
static unsigned sxrand = 12345;
int rand(void) { sxrand = sxrand * 1103515245u + 12345u; return (int)((sxrand >> 1) & 0x7fffffff); }
void srand(unsigned s) { sxrand = s; }
long time(long* t) { if (t) *t = 1000; return 1000; }
