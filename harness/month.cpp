#include "vp.hpp"
#include <climits>
#include <cstring>
#include <stdexcept>
#include "dtfund.hpp"
using namespace ngpt;
static const char *const REF_LONG[12] = {"january", "february", "march", "april", "may", "june",
  "july", "august", "september", "october", "november", "december"};
static inline char lower(char c) { return c >= 'A' && c <= 'Z' ? static_cast<char>(c + 32) : c; }
// s[0..n) against the first m letters of month k's English name
static bool same(const char *s, int n, int k, int m) {
  if (n != m) return false;
  bool e = true;
  for (int i = 0; i < m; ++i) e &= lower(s[i]) == REF_LONG[k][i];
  return e;
}
static int name_len(int k) { int n = 0; while (REF_LONG[k][n]) ++n; return n; }
// expected month, 0: no such name
static int ref_month(const char *s, int n) {
  int r = 0;
  for (int k = 0; k < 12; ++k) {
    bool e = same(s, n, k, 3) | same(s, n, k, name_len(k));
    r = e ? k + 1 : r;
  }
  return r;
}
// ---------------------------------------------------------------- C18 month names
// every byte string up to 11 characters, in a buffer of exactly the string's size
static void any_string(int n) {
  char *s = new char[n + 1];
  for (int i = 0; i < n; ++i) {
    s[i] = static_cast<char>(vp_long("ch", -128, 127));
    vp_assume(s[i] != 0);
  }
  s[n] = 0;
  int want = ref_month(s, n);
  int got;
  try {
    got = month{s}.as_underlying_type();
  } catch (const std::invalid_argument &) {
    got = 0;
  } catch (...) {
    got = -1;
  }
  vp_watch("month", got);
  vp_assert(got == want, "month(const char*): the month whose 3-letter or full English name it is, in any case, or std::invalid_argument");
  if (want) vp_reach("a month"); else vp_reach("no month");
  delete[] s;
}
VP_ENTRY c18_string() { any_string((int)vp_case("len", 0, 11)); }
VP_ENTRY c18_string_thorough() { any_string((int)vp_case("len", 12, 24)); }
// every name, in every combination of upper and lower case
VP_ENTRY c18_cases() {
  int k = (int)vp_case("month", 0, 11);
  int full = (int)vp_case("full", 0, 1);
  int n = full ? name_len(k) : 3;
  char *s = new char[n + 1];
  for (int i = 0; i < n; ++i) s[i] = static_cast<char>(REF_LONG[k][i] - 32 * vp_int("upper", 0, 1));
  s[n] = 0;
  int got;
  try {
    got = month{s}.as_underlying_type();
  } catch (...) {
    got = 0;
  }
  vp_watch("month", got);
  vp_assert(got == k + 1, "a month name in any mix of upper and lower case is recognised");
  vp_reach("name");
  delete[] s;
}
VP_ENTRY c18_names() {
  int m = (int)vp_case("month", 1, 12);
  month x{m};
  const char *a = x.short_name(), *b = x.long_name();
  bool e = true;
  int n = name_len(m - 1);
  for (int i = 0; i < 3; ++i) e &= lower(a[i]) == REF_LONG[m - 1][i];
  e = e && a[3] == 0 && a[0] >= 'A' && a[0] <= 'Z' && a[1] >= 'a' && a[2] >= 'a';
  vp_assert(e, "short_name() is the 3-letter English abbreviation");
  e = true;
  for (int i = 0; i < n; ++i) e = e && lower(b[i]) == REF_LONG[m - 1][i];
  e = e && b[n] == 0 && b[0] >= 'A' && b[0] <= 'Z';
  vp_assert(e, "long_name() is the English month name");
  int r, q;
  try {
    r = month{a}.as_underlying_type();
    q = month{b}.as_underlying_type();
  } catch (...) {
    r = q = -1;
  }
  vp_watch("back", r);
  vp_assert(r == m && q == m, "month(month.short_name()) and month(month.long_name()) give the month back");
  vp_reach("names");
}
