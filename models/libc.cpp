// Models of the C library functions the code under test calls, linked in place of libc
// for the symbolic run (the native replay uses the real libc).  "C" locale.
#include <cstddef>
extern "C" {
static int vp_errno_cell = 0;
int *__errno_location() noexcept { return &vp_errno_cell; }

size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) {
  for (;; ++a, ++b) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; --n, ++a, ++b) {
    unsigned char x = *a, y = *b;
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
int memcmp(const void *p, const void *q, size_t n) {
  const unsigned char *a = static_cast<const unsigned char *>(p), *b = static_cast<const unsigned char *>(q);
  for (; n; --n, ++a, ++b) if (*a != *b) return *a < *b ? -1 : 1;
  return 0;
}
int bcmp(const void *p, const void *q, size_t n) { return memcmp(p, q, n); }
void *memchr(const void *p, int c, size_t n) {
  const unsigned char *a = static_cast<const unsigned char *>(p);
  for (; n; --n, ++a) if (*a == static_cast<unsigned char>(c)) return const_cast<unsigned char *>(a);
  return nullptr;
}
char *strchr(const char *s, int c) {
  for (;; ++s) { if (*s == static_cast<char>(c)) return const_cast<char *>(s); if (!*s) return nullptr; }
}
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }

// strtol, base 10 (the only base the code under test uses)
static long vp_strtol(const char *s, char **end, bool) {
  const char *p = s;
  while (isspace(*p)) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; }
  else if (*p == '+') ++p;
  if (!isdigit(*p)) { if (end) *end = const_cast<char *>(s); return 0; }
  const long L = 922337203685477580L;      // LONG_MAX / 10
  long v = 0;
  bool over = false, min = false;          // min: the value is exactly LONG_MIN
  for (; isdigit(*p); ++p) {
    int d = *p - '0';
    if (v > L || (v == L && d > 7)) {
      if (neg && v == L && d == 8 && !min && !over) min = true;
      else over = true;
    } else if (min || over) {
      over = true;
    } else {
      v = v * 10 + d;
    }
  }
  if (end) *end = const_cast<char *>(p);
  if (over) { *__errno_location() = 34; return neg ? -9223372036854775807L - 1 : 9223372036854775807L; }
  if (min) return -9223372036854775807L - 1;
  return neg ? -v : v;
}
long strtol(const char *s, char **end, int) { return vp_strtol(s, end, false); }
long long strtoll(const char *s, char **end, int) { return vp_strtol(s, end, false); }
long __isoc23_strtol(const char *s, char **end, int) { return vp_strtol(s, end, false); }
long long __isoc23_strtoll(const char *s, char **end, int) { return vp_strtol(s, end, false); }
// the unsigned functions, for values up to LONG_MAX
void vp_unmodelled(const char *what) noexcept;
unsigned long strtoul(const char *s, char **end, int) {
  int e = *__errno_location();
  long v = vp_strtol(s, end, false);
  if (*__errno_location() == 34 && e != 34) vp_unmodelled("strtoul: beyond LONG_MAX");
  return static_cast<unsigned long>(v);
}
unsigned long long strtoull(const char *s, char **end, int b) { return strtoul(s, end, b); }
unsigned long __isoc23_strtoul(const char *s, char **end, int b) { return strtoul(s, end, b); }
unsigned long long __isoc23_strtoull(const char *s, char **end, int b) { return strtoul(s, end, b); }
int atoi(const char *s) { return static_cast<int>(vp_strtol(s, nullptr, true)); }
long atol(const char *s) { return vp_strtol(s, nullptr, true); }

// strtod: plain decimal notation  [ws][sign] digits [. digits], value the correctly rounded quotient.
// Exponents, hexadecimal floats and more than 15 significant digits are outside the model: the path ends in
// vp_unmodelled(), which the executor turns into an assumption recorded in the evidence.
void vp_unmodelled(const char *what) noexcept;
double strtod(const char *s, char **end) {
  static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
  const char *p = s;
  while (isspace(*p)) ++p;
  bool neg = false;
  if (*p == '-') { neg = true; ++p; }
  else if (*p == '+') ++p;
  long v = 0;
  int digits = 0, frac = 0;
  const char *q = p;
  for (; isdigit(*q); ++q) { if (digits >= 15) { vp_unmodelled("strtod: long mantissa"); } v = v * 10 + (*q - '0'); ++digits; }
  if (*q == '.' && (digits || isdigit(q[1]))) {
    ++q;
    for (; isdigit(*q); ++q) { if (digits >= 15) { vp_unmodelled("strtod: long mantissa"); } v = v * 10 + (*q - '0'); ++digits; ++frac; }
  }
  if (!digits) {
    if (((*p | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'f')) {
      p += 3;
      if ((p[0] | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'i' && (p[3] | 32) == 't' && (p[4] | 32) == 'y') p += 5;
      if (end) *end = const_cast<char *>(p);
      return neg ? -__builtin_inf() : __builtin_inf();
    }
    if (((*p | 32) == 'n' && (p[1] | 32) == 'a' && (p[2] | 32) == 'n')) {
      if (p[3] == '(') vp_unmodelled("strtod: nan payload");
      if (end) *end = const_cast<char *>(p + 3);
      return __builtin_nan("");
    }
    if (end) *end = const_cast<char *>(s);
    return 0e0;
  }
  if (digits == 1 && v == 0 && frac == 0 && (*q | 32) == 'x') vp_unmodelled("strtod: hexadecimal");
  if ((*q | 32) == 'e') {
    const char *x = q + 1;
    if (*x == '+' || *x == '-') ++x;
    if (isdigit(*x)) vp_unmodelled("strtod: exponent");
  }
  if (end) *end = const_cast<char *>(q);
  double d = static_cast<double>(v) / p10[frac];
  return neg ? -d : d;
}
double atof(const char *s) { return strtod(s, nullptr); }

char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
  char *e = d + strlen(d);
  size_t i = 0;
  for (; i < n && s[i]; ++i) e[i] = s[i];
  e[i] = 0;
  return d;
}
char *strrchr(const char *s, int c) {
  const char *r = nullptr;
  for (;; ++s) { if (*s == static_cast<char>(c)) r = s; if (!*s) return const_cast<char *>(r); }
}
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  for (;; ++h) { if (!strncmp(h, n, k)) return const_cast<char *>(h); if (!*h) return nullptr; }
}
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? const_cast<char *>(s) : nullptr; }
int strncasecmp(const char *a, const char *b, size_t n) {
  for (; n; --n, ++a, ++b) {
    int x = tolower(static_cast<unsigned char>(*a)), y = tolower(static_cast<unsigned char>(*b));
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
  return 0;
}
int strcasecmp(const char *a, const char *b) {
  for (;; ++a, ++b) {
    int x = tolower(static_cast<unsigned char>(*a)), y = tolower(static_cast<unsigned char>(*b));
    if (x != y) return x < y ? -1 : 1;
    if (!x) return 0;
  }
}
char *stpcpy(char *d, const char *s) { while ((*d = *s)) { ++d; ++s; } return d; }
struct div_t { int quot, rem; };
struct ldiv_t { long quot, rem; };
struct lldiv_t { long long quot, rem; };
div_t div(int a, int b) { return {a / b, a % b}; }
ldiv_t ldiv(long a, long b) { return {a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) { return {a / b, a % b}; }
float strtof(const char *s, char **end) { vp_unmodelled("strtof"); return static_cast<float>(strtod(s, end)); }

// printf's directives for integers, characters, strings and fixed-notation doubles; a: eight bytes per argument
long vp_scaled(double d, long p) noexcept;
int vp_snprintf(char *s, size_t n, const char *f, const char *a) noexcept {
  size_t k = 0;
  auto out = [&](char c) { if (k + 1 < n) s[k] = c; ++k; };
  auto next = [&] { long v = *reinterpret_cast<const long *>(a); a += 8; return v; };
  for (; *f; ++f) {
    if (*f != '%') { out(*f); continue; }
    ++f;
    if (*f == '%') { out('%'); continue; }
    bool left = false, zero = false, plus = false, space = false;
    for (;; ++f) {
      if (*f == '-') left = true;
      else if (*f == '0') zero = true;
      else if (*f == '+') plus = true;
      else if (*f == ' ') space = true;
      else if (*f == '#') vp_unmodelled("printf: #");
      else break;
    }
    int width = 0, prec = -1, size = 4;
    if (*f == '*') { width = static_cast<int>(next()); ++f; if (width < 0) { left = true; width = -width; } }
    else for (; isdigit(*f); ++f) width = width * 10 + (*f - '0');
    if (*f == '.') {
      ++f;
      prec = 0;
      if (*f == '*') { prec = static_cast<int>(next()); ++f; }
      else for (; isdigit(*f); ++f) prec = prec * 10 + (*f - '0');
    }
    for (;; ++f) {
      if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') size = 8;
      else if (*f == 'h') size /= 2;
      else break;
    }
    char d[48], sign = 0;
    int m = 0;                      // digits, backwards
    switch (*f) {
    case 'd': case 'i': case 'u': {
      long v = next();
      bool u = *f == 'u';
      if (size == 4) v = u ? static_cast<long>(static_cast<unsigned>(v)) : static_cast<int>(v);
      else if (size == 2) v = u ? static_cast<long>(static_cast<unsigned short>(v)) : static_cast<short>(v);
      else if (size == 1) v = u ? static_cast<long>(static_cast<unsigned char>(v)) : static_cast<signed char>(v);
      else if (u && v < 0) vp_unmodelled("printf: huge unsigned");
      unsigned long x = v < 0 ? 0UL - static_cast<unsigned long>(v) : static_cast<unsigned long>(v);
      sign = u ? 0 : v < 0 ? '-' : plus ? '+' : space ? ' ' : 0;
      if (prec >= 0) zero = false;
      if (prec != 0 || x) do { d[m++] = static_cast<char>('0' + x % 10); x /= 10; } while (x);
      while (m < prec) d[m++] = '0';
      break;
    }
    case 'f': case 'F': {
      double v = *reinterpret_cast<const double *>(a);
      a += 8;
      if (prec < 0) prec = 6;
      if (prec > 15 || !(v > -1e6 && v < 1e6)) vp_unmodelled("printf: precision over 15, or a value over 1e6");
      long q = 1;
      for (int i = 0; i < prec; ++i) q *= 10;
      long x = vp_scaled(v, q);
      if (x < 0) x = -x;
      sign = v < 0 ? '-' : plus ? '+' : space ? ' ' : 0;
      for (int i = 0; i < prec; ++i) { d[m++] = static_cast<char>('0' + x % 10); x /= 10; }
      if (prec) d[m++] = '.';
      do { d[m++] = static_cast<char>('0' + x % 10); x /= 10; } while (x);
      break;
    }
    case 'c': d[m++] = static_cast<char>(next()); zero = false; break;
    case 's': {
      const char *t = *reinterpret_cast<const char *const *>(a);
      a += 8;
      int l = 0;
      while ((prec < 0 || l < prec) && t[l]) ++l;
      if (!left) for (int i = l; i < width; ++i) out(' ');
      for (int i = 0; i < l; ++i) out(t[i]);
      if (left) for (int i = l; i < width; ++i) out(' ');
      continue;
    }
    default: vp_unmodelled("printf: directive");
    }
    int pad = width - m - (sign ? 1 : 0);
    if (!left && !zero) for (int i = 0; i < pad; ++i) out(' ');
    if (sign) out(sign);
    if (!left && zero) for (int i = 0; i < pad; ++i) out('0');
    for (int i = m; i > 0; --i) out(d[i - 1]);
    if (left) for (int i = 0; i < pad; ++i) out(' ');
  }
  if (n) s[k < n ? k : n - 1] = 0;
  return static_cast<int>(k);
}
int vp_sprintf(char *s, const char *f, const char *a) noexcept { return vp_snprintf(s, 1UL << 30, f, a); }
int vp_snprintf_chk(char *s, size_t n, int, size_t, const char *f, const char *a) noexcept { return vp_snprintf(s, n, f, a); }
int vp_sprintf_chk(char *s, int, size_t, const char *f, const char *a) noexcept { return vp_snprintf(s, 1UL << 30, f, a); }
}

// the parts of std::map and std::set that live in libstdc++.so; the tree is left unbalanced (every node is black, only
// the header is red), which no caller can see
struct VpNode { int red_is_0; VpNode *up, *left, *right; };
extern "C" {
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, VpNode *x, VpNode *p, VpNode *h) {
  x->red_is_0 = 1;
  x->up = p;
  x->left = x->right = nullptr;
  if (left) {
    p->left = x;
    if (p == h) h->up = h->right = x;
    else if (p == h->left) h->left = x;
  } else {
    p->right = x;
    if (p == h->right) h->right = x;
  }
}
VpNode *_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(VpNode *x) {
  if (x->right) {
    x = x->right;
    while (x->left) x = x->left;
    return x;
  }
  VpNode *y = x->up;
  while (x == y->right) { x = y; y = y->up; }
  return x->right != y ? y : x;
}
VpNode *_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(VpNode *x) {
  if (x->red_is_0 == 0 && x->up->up == x) return x->right;
  if (x->left) {
    x = x->left;
    while (x->right) x = x->right;
    return x;
  }
  VpNode *y = x->up;
  while (x == y->left) { x = y; y = y->up; }
  return y;
}
const VpNode *_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const VpNode *x) {
  return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(const_cast<VpNode *>(x));
}
const VpNode *_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const VpNode *x) {
  return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(const_cast<VpNode *>(x));
}
}
