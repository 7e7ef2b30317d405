#include <stddef.h>
size_t strlen(const char*);
static char* vp_strcpy(char* d, const char* s) {
  char* r = d;
  while ((*d++ = *s++)) {}
  return r;
}
int strcmp(const char* a, const char* b) {
  for (;; ++a, ++b) {
    unsigned char x = *a, y = *b;
    if (x != y)
      return x < y ? -1 : 1;
    if (!x)
      return 0;
  }
}
int strncmp(const char* a, const char* b, size_t n) {
  for (; n; ++a, ++b, --n) {
    unsigned char x = *a, y = *b;
    if (x != y)
      return x < y ? -1 : 1;
    if (!x)
      return 0;
  }
  return 0;
}
void* memchr(const void* p, int c, size_t n) {
  const unsigned char* s = p;
  for (size_t i = 0; i < n; ++i)
    if (s[i] == (unsigned char)c)
      return (void*)(s + i);
  return 0;
}
char* strchr(const char* s, int c) {
  for (;; ++s) {
    if (*s == (char)c)
      return (char*)s;
    if (!*s)
      return 0;
  }
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
// std::cout, std::cerr, std::clog: enough of the object layout for the inlined parts of operator<< and std::endl (the
// virtual base offset, and a ctype facet whose widening table is filled).  Output itself is discarded by the engine.
static char vp_ctype[57 + 256 + 256 + 8] __attribute__((aligned(16))) = {[56] = 1, [57 + '\n'] = '\n', [57 + ' '] = ' '};
static const struct { long vbase; long top; void* ti; void* fn[8]; } vp_ostream_vtab = {8, 0, 0, {0}};
struct vp_ostream { const void* vptr; char ios[240]; void* ctype; void* put; void* get; };
#define VP_STREAM(sym) struct vp_ostream sym = {&vp_ostream_vtab.fn, {0}, vp_ctype, 0, 0};
VP_STREAM(_ZSt4cout)
VP_STREAM(_ZSt4cerr)
VP_STREAM(_ZSt4clog)

/* the environment is empty until the program under test sets something (the native replay clears the variables that are read) */
static char vp_env_name[4][64], vp_env_value[4][64];
static int vp_env_n;
char* getenv(const char* n) {
  for (int i = 0; i < vp_env_n; ++i)
    if (strcmp(vp_env_name[i], n) == 0)
      return vp_env_value[i];
  return 0;
}
int setenv(const char* n, const char* v, int overwrite) {
  char* old = getenv(n);
  if (old && !overwrite)
    return 0;
  if (strlen(n) >= 64 || strlen(v) >= 64 || (!old && vp_env_n == 4))
    return -1;
  if (!old) {
    vp_strcpy(vp_env_name[vp_env_n], n);
    old = vp_env_value[vp_env_n++];
  }
  vp_strcpy(old, v);
  return 0;
}
