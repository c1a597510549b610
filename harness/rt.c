/* C library functions the code under test may call, as plain C so that they are executed symbolically too. */
typedef unsigned long size_t;
__attribute__((weak)) size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
__attribute__((weak)) int memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *p = (const unsigned char *)a, *q = (const unsigned char *)b;
  for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
__attribute__((weak)) int strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
  return x < y ? -1 : x > y ? 1 : 0;
}
__attribute__((weak)) int strncmp(const char *a, const char *b, size_t n) {
  size_t i = 0;
  while (i < n && a[i] && a[i] == b[i]) i++;
  if (i == n) return 0;
  unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
  return x < y ? -1 : x > y ? 1 : 0;
}
__attribute__((weak)) void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = (const unsigned char *)s;
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i);
  return 0;
}
__attribute__((weak)) char *strchr(const char *s, int c) {
  for (size_t i = 0;; i++) { if (s[i] == (char)c) return (char *)(s + i); if (!s[i]) return 0; }
}
__attribute__((weak)) char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
__attribute__((weak)) char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
__attribute__((weak)) int isdigit(int c) { return c >= '0' && c <= '9'; }
__attribute__((weak)) int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
__attribute__((weak)) int abs(int x) { return x < 0 ? -x : x; }
__attribute__((weak)) long labs(long x) { return x < 0 ? -x : x; }
__attribute__((weak)) long long llabs(long long x) { return x < 0 ? -x : x; }
__attribute__((weak)) int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
__attribute__((weak)) int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int the_errno;
int *__errno_location(void) { return &the_errno; }
