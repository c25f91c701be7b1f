#include "vp.hpp"
#include "ref.hpp"
#include <cerrno>
#include <climits>
#include <cstring>
#include <stdexcept>
#include <string>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
using namespace ngpt;
static const char *const MON[12] = {"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"};

// A string under construction, in a heap buffer of exactly its size.
struct Text {
  char *s, *p;
  explicit Text(int n) : s(new char[n + 1]), p(s) { s[n] = 0; }
  ~Text() { delete[] s; }
  void put(char c) { *p++ = c; }
  // n symbolic decimal digits
  long num(int n, long v = 0) {
    for (int i = 0; i < n; ++i) {
      int d = vp_int("digit", 0, 9);
      put(static_cast<char>('0' + d));
      v = v * 10 + d;
    }
    return v;
  }
  // v in n digits
  void lit(long v, int n) {
    long q = 1;
    for (int i = 1; i < n; ++i) q *= 10;
    for (; q; q /= 10) put(static_cast<char>('0' + v / q % 10));
  }
  // one delimiter: anything but a digit or the end of the string
  void del() {
    long c = vp_long("delim", -128, 127);
    vp_assume(c != 0 && !(c >= '0' && c <= '9'));
    put(static_cast<char>(c));
  }
  // what may follow a number without becoming part of it
  void tail(bool real) {
    long c = vp_long("tail", -128, 127);
    vp_assume(c != 0 && !(c >= '0' && c <= '9'));
    if (real) vp_assume(c != '.' && c != 'e' && c != 'E' && c != 'x' && c != 'X');
    put(static_cast<char>(c));
    long e = vp_long("tail", -128, 127);
    vp_assume(e != 0);
    put(static_cast<char>(e));
  }
};
// digits of the fields: year, month, day, hours, minutes, seconds, day of year; leading blanks
struct Shape { int y, m, d, h, mi, s, doy, lead; };
static const Shape SHAPES[5] = {
  {4, 2, 2, 2, 2, 2, 3, 0}, {4, 1, 1, 1, 1, 1, 1, 0}, {3, 1, 2, 2, 1, 2, 2, 0}, {5, 3, 3, 3, 3, 3, 4, 0}, {4, 2, 1, 1, 2, 1, 3, 2}};
static Shape shape(int &k) { return SHAPES[k = (int)vp_case("shape", 0, 4)]; }
static const int YMAX = 99999;

template <class S> struct res;
template <> struct res<seconds> { static constexpr long f = 1; };
template <> struct res<milliseconds> { static constexpr long f = 1000; };
template <> struct res<microseconds> { static constexpr long f = 1000000; };

enum Kind { YMD, YDOY, YMD_HMS, YOD_HMS, YDOY_HMS };
template <class S> static datetime<S> parse(int kind, const char *s, char **stop) {
  switch (kind) {
    case YMD: return strptime_ymd<S>(s, stop);
    case YDOY: return strptime_ydoy<S>(s, stop);
    case YMD_HMS: return strptime_ymd_hms<S>(s, stop);
    case YOD_HMS: return strptime_yod_hms<S>(s, stop);
    default: return strptime_ydoy_hms<S>(s, stop);
  }
}
// 0: parsed (mjd, units), 1: std::invalid_argument, 2: std::out_of_range, 3: something else
template <class S> static int run(int kind, const char *s, char **stop, long &mjd, long &units) {
  try {
    datetime<S> t = parse<S>(kind, s, stop);
    mjd = t.mjd().as_underlying_type();
    units = t.sec().as_underlying_type();
    return 0;
  } catch (const std::invalid_argument &) {
    return 1;
  } catch (const std::out_of_range &) {
    return 2;
  } catch (...) {
    return 3;
  }
}
static int run_res(int r, int kind, const char *s, char **stop, long &mjd, long &units) {
  return r == 0 ? run<seconds>(kind, s, stop, mjd, units)
       : r == 1 ? run<milliseconds>(kind, s, stop, mjd, units) : run<microseconds>(kind, s, stop, mjd, units);
}
static const long F[3] = {1, 1000, 1000000};

// ---------------------------------------------------------------- C19 well-formed strings
template <int KIND> static void well_formed() {
  int k;
  Shape h = shape(k);
  int tl = (int)vp_case("tail", 0, 1), r = (int)vp_case("res", 0, 2);
  const bool time = KIND >= YMD_HMS, doy = KIND == YDOY || KIND == YDOY_HMS, name = KIND == YOD_HMS;
  int n = h.lead + h.y + 1 + (doy ? h.doy : name ? 3 + 1 + h.d : h.m + 1 + h.d) + (time ? 3 + h.h + h.mi + h.s : 0) + 2 * tl;
  Text t(n);
  for (int i = 0; i < h.lead; ++i) t.put(i ? '\t' : ' ');
  long y = t.num(h.y), m = 0, d = 0, H = 0, M = 0, s = 0;
  int over = 0;
  t.del();
  vp_assume(y <= YMAX);
  if (doy) {
    d = t.num(h.doy);
    vp_assume(d >= 1 && d <= (ref_leap(y) ? 366 : 365));
  } else {
    m = vp_case("month", 1, !name && h.m == 1 ? 9 : 12);
    if (name) {
      for (int i = 0; i < 3; ++i) t.put(static_cast<char>(MON[m - 1][i] - 32 * vp_int("upper", 0, 1)));
    } else {
      t.lit(m, h.m);
    }
    t.del();
    d = t.num(h.d);
    vp_assume(ref_valid(y, m, d));
  }
  if (time) {
    t.del(); H = t.num(h.h);
    t.del(); M = t.num(h.mi);
    t.del(); s = t.num(h.s);
    over = !tl && (vp_tier() || k == (r == 0 ? 3 : 0)) && vp_case("clock", 0, 1);      // 0: a time of day, 1: more than that, carried into the day
    if (over) vp_assume(H > 23 || M > 59 || s > 59); else vp_assume(H <= 23 && M <= 59 && s <= 59);
  }
  char *last = t.p - 1, *stop = nullptr;
  if (tl) t.tail(time);
  long mjd = 0, units = 0;
  int ws = (int)vp_int("stop", 0, 1);
  errno = vp_int("errno", 0, 133);
  int rc = run_res(r, KIND, t.s, ws ? &stop : nullptr, mjd, units);
  vp_watch("rc", rc);
  vp_assert(rc == 0, "a well-formed string with a valid date is accepted, whatever errno was before");
  if (rc != 0) return;
  vp_watch("mjd", mjd);
  vp_watch("units", units);
  const long day = doy ? ref_jan1(y) + d - 1 : ref_mjd(y, (int)m, (int)d), sec = (H * 60 + M) * 60 + s;
  vp_assert(mjd == day + (over ? sec / 86400 : 0), "the date is the one written");
  vp_assert(units == (over ? sec % 86400 : sec) * F[r], "the time of day is the one written");
  vp_assert(ws == 0 || stop == last, "stop points to the last character interpreted");
  vp_reach("parsed");
}
VP_ENTRY c19_ymd() { well_formed<YMD>(); }
VP_ENTRY c19_ydoy() { well_formed<YDOY>(); }
VP_ENTRY c19_ymd_hms() { well_formed<YMD_HMS>(); }
VP_ENTRY c19_yod_hms() { well_formed<YOD_HMS>(); }
VP_ENTRY c19_ydoy_hms() { well_formed<YDOY_HMS>(); }
// decimal seconds: as many decimals as one likes, the value is that of the constructor from a double
// (which C17 decides)
template <int KIND, class S> static void decimals() {
  int ns = (int)vp_case("whole", 1, 2), nf = (int)vp_case("decimals", 0, vp_tier() ? 12 : 6);
  const bool doy = KIND == YDOY_HMS, name = KIND == YOD_HMS;
  const char *head = doy ? "2016-060 " : name ? "2016-Feb-29 " : "2016-02-29 ";
  int hl = (int)std::strlen(head);
  Text t(hl + 6 + ns + 1 + nf);
  for (int i = 0; i < hl; ++i) t.put(head[i]);
  long H = t.num(2); t.put(':');
  long M = t.num(2); t.put(':');
  vp_assume(H <= 23 && M <= 59);
  long v = t.num(ns);
  vp_assume(v <= 59);
  t.put('.');
  long p = 1;
  for (int i = 0; i < nf; ++i) p *= 10;
  v = t.num(nf, v);
  char *last = t.p - 1, *stop = nullptr;
  long mjd = 0, units = 0;
  int rc = run<S>(KIND, t.s, &stop, mjd, units);
  vp_watch("rc", rc);
  vp_assert(rc == 0, "decimal seconds are accepted");
  if (rc != 0) return;
  vp_watch("units", units);
  datetime<S> e{year{2016}, month{2}, day_of_month{29}, hours{(int)H}, minutes{(int)M}, (double)v / (double)p};
  vp_assert(e.mjd().as_underlying_type() == mjd, "the date is the one written");
  vp_assert(units == e.sec().as_underlying_type(), "decimal seconds are the double nearest to what is written");
  vp_assert(stop == last, "stop points to the last character interpreted");
  vp_reach("parsed");
}
VP_ENTRY c19_decimals_ymd_s() { decimals<YMD_HMS, seconds>(); }
VP_ENTRY c19_decimals_ymd_ms() { decimals<YMD_HMS, milliseconds>(); }
VP_ENTRY c19_decimals_ymd_us() { decimals<YMD_HMS, microseconds>(); }
VP_ENTRY c19_decimals_yod_s() { decimals<YOD_HMS, seconds>(); }
VP_ENTRY c19_decimals_yod_ms() { decimals<YOD_HMS, milliseconds>(); }
VP_ENTRY c19_decimals_yod_us() { decimals<YOD_HMS, microseconds>(); }
VP_ENTRY c19_decimals_ydoy_s() { decimals<YDOY_HMS, seconds>(); }
VP_ENTRY c19_decimals_ydoy_ms() { decimals<YDOY_HMS, milliseconds>(); }
VP_ENTRY c19_decimals_ydoy_us() { decimals<YDOY_HMS, microseconds>(); }

// ---------------------------------------------------------------- C20 anything else
// What the bytes s[0..n) (ended by a NUL at s[n] or before) mean.  Numbers may be preceded by blanks and a sign, which
// is ignored; between two numbers there is exactly one byte.
struct Meaning { bool ok; bool odd; long v[6]; };
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool digit(char c) { return c >= '0' && c <= '9'; }
// i: position, advanced over the number; -1 when there is none
static long number(const char *s, int &i, bool &neg) {
  while (blank(s[i])) ++i;
  neg = s[i] == '-';
  if (s[i] == '-' || s[i] == '+') ++i;
  if (!digit(s[i])) return -1;
  long v = 0;
  while (digit(s[i])) v = v * 10 + (s[i++] - '0');
  return v;
}
static int month_at(const char *s) {
  int m = 0;
  for (int k = 0; k < 12; ++k) {
    bool e = true;
    for (int j = 0; j < 3; ++j) e = e && s[j] && (s[j] | 32) == MON[k][j] && (s[j] & 64);
    if (e) m = k + 1;
  }
  return m;
}
static bool named(const char *s) { return s[-1] && month_at(s) != 0; }
static Meaning meaning(int kind, const char *s, int &last) {
  Meaning r;
  r.ok = false; r.odd = false;
  int i = 0, f = 0;
  const int nf = kind == YMD ? 3 : kind == YDOY ? 2 : kind == YDOY_HMS ? 5 : 6;
  for (; f < nf; ++f) {
    if (f) {
      if (!s[i]) return r;
      ++i;
    }
    if (kind == YOD_HMS && f == 1) {
      int m = month_at(s + i);
      if (!m) {
        // whether a second delimiter may stand before the name is left open
        if (s[i] && !((s[i] | 32) >= 'a' && (s[i] | 32) <= 'z')) r.odd = named(s + i + 1);
        return r;
      }
      r.v[1] = m;
      i += 3;
      continue;
    }
    bool neg;
    const bool dec = f == nf - 1 && kind >= YMD_HMS;
    long v = number(s, i, neg);
    if (dec && v < 0 && s[i] == '.' && digit(s[i + 1])) v = 0;      // ".5"
    if (v < 0 || v > INT_MAX) return r;
    r.v[f] = v;
    if (dec) {
      // decimals are cut (seconds resolution); exponents, hexadecimal and negative seconds are left out
      if (neg) r.odd = true;
      if (s[i] == '.') { ++i; while (digit(s[i])) ++i; }
      if ((s[i] | 32) == 'e' || (s[i] | 32) == 'x') r.odd = true;
    }
  }
  last = i - 1;
  r.ok = true;
  return r;
}
template <int KIND> static void judge(const char *s) {
  char *stop = nullptr;
  long mjd = 0, units = 0;
  errno = 0;
  int rc = run<seconds>(KIND, s, &stop, mjd, units);
  vp_watch("rc", rc);
  int last = 0;
  Meaning w = meaning(KIND, s, last);
  if (w.odd) return;
  vp_assert(rc == 0 || rc == 1 || rc == 2, "only std::invalid_argument and std::out_of_range are thrown");
  if (!w.ok) {
    vp_assert(rc == 1, "a string with a missing or unreadable field is rejected with std::invalid_argument");
    vp_reach("rejected");
    return;
  }
  const bool doy = KIND == YDOY || KIND == YDOY_HMS;
  // a day of year is not validated by the library (C04 covers the days of the year)
  bool valid = doy ? w.v[1] >= 1 && w.v[1] <= (ref_leap(w.v[0]) ? 366 : 365) : ref_valid(w.v[0], w.v[1], w.v[2]);
  if (!valid) {
    vp_assert(doy || rc == 1 || rc == 2, "an impossible date is rejected");
    return;
  }
  vp_assert(rc == 0, "a readable string is accepted");
  if (rc != 0) return;
  vp_watch("mjd", mjd);
  long day = doy ? ref_jan1(w.v[0]) + w.v[1] - 1 : ref_mjd(w.v[0], (int)w.v[1], (int)w.v[2]);
  long sec = 0;
  if (KIND >= YMD_HMS) { const int o = doy ? 2 : 3; sec = (w.v[o] * 60 + w.v[o + 1]) * 60 + w.v[o + 2]; }
  vp_assert(mjd == day + sec / 86400 && units == sec % 86400, "the instant is the one written");
  vp_assert(stop == s + last, "stop points to the last character interpreted");
  vp_reach("accepted");
}
// the well-formed text of shape 0 in t
template <int KIND> static int length() {
  const bool time = KIND >= YMD_HMS, doy = KIND == YDOY || KIND == YDOY_HMS, name = KIND == YOD_HMS;
  return 4 + 1 + (doy ? 3 : name ? 6 : 5) + (time ? 9 : 0);
}
template <int KIND> static void fill(char *b, int m) {
  const bool time = KIND >= YMD_HMS, doy = KIND == YDOY || KIND == YDOY_HMS, name = KIND == YOD_HMS;
  Text t(length<KIND>());
  t.num(4); t.put('-');
  if (doy) t.num(3);
  else {
    if (name) { for (int i = 0; i < 3; ++i) t.put(static_cast<char>(MON[m - 1][i] - 32 * (i == 0))); } else t.lit(m, 2);
    t.put('-'); t.num(2);
  }
  if (time) { t.put(' '); t.num(2); t.put(':'); t.num(2); t.put(':'); t.num(2); }
  for (int i = 0; i < length<KIND>(); ++i) b[i] = t.s[i];
}
// the text cut short anywhere: the buffer ends there
template <int KIND> static void truncated() {
  int n = (int)vp_case("cut", 0, length<KIND>() - 1);
  int m = vp_case("feb", 0, 1) ? 2 : 11;
  char full[40];
  fill<KIND>(full, m);
  char *s = new char[n + 1];
  for (int i = 0; i < n; ++i) s[i] = full[i];
  s[n] = 0;
  judge<KIND>(s);
  delete[] s;
}
VP_ENTRY c20_truncated_ymd() { truncated<YMD>(); }
VP_ENTRY c20_truncated_ydoy() { truncated<YDOY>(); }
VP_ENTRY c20_truncated_ymd_hms() { truncated<YMD_HMS>(); }
VP_ENTRY c20_truncated_yod_hms() { truncated<YOD_HMS>(); }
VP_ENTRY c20_truncated_ydoy_hms() { truncated<YDOY_HMS>(); }
// any byte of class c
static char byte_of(int c) {
  long b = vp_long("byte", -128, 127);
  const bool dig = b >= '0' && b <= '9', bl = b == ' ' || (b >= 9 && b <= 13), sg = b == '+' || b == '-';
  const bool al = (b >= 'a' && b <= 'z') || (b >= 'A' && b <= 'Z');
  switch (c) {
    case 0: vp_assume(dig); break;
    case 1: vp_assume(bl); break;
    case 2: vp_assume(sg); break;
    case 3: vp_assume(al && (b | 32) != 'e' && (b | 32) != 'x'); break;
    case 4: vp_assume(!dig && !bl && !sg && !al && b != 0 && b != '.'); break;
    case 5: vp_assume(b == '.'); break;
    case 6: vp_assume(b == 0); break;
    default: vp_assume((b | 32) == 'e' || (b | 32) == 'x'); break;
  }
  return static_cast<char>(b);
}
// one byte of the text replaced by any byte
template <int KIND> static void edited() {
  int n = length<KIND>();
  int pos = (int)vp_case("pos", 0, n - 1);
  int m = vp_case("feb", 0, 1) ? 2 : 11;
  char full[40];
  fill<KIND>(full, m);
  char *s = new char[n + 1];
  for (int i = 0; i < n; ++i) s[i] = full[i];
  s[n] = 0;
  s[pos] = byte_of((int)vp_case("class", 0, 7));
  judge<KIND>(s);
  delete[] s;
}
VP_ENTRY c20_edited_ymd() { edited<YMD>(); }
VP_ENTRY c20_edited_ydoy() { edited<YDOY>(); }
VP_ENTRY c20_edited_ymd_hms() { edited<YMD_HMS>(); }
VP_ENTRY c20_edited_yod_hms() { edited<YOD_HMS>(); }
VP_ENTRY c20_edited_ydoy_hms() { edited<YDOY_HMS>(); }
// every short byte string
template <int KIND> static void any() {
  int n = (int)vp_case("len", 0, vp_tier() ? 6 : 4);
  char *s = new char[n + 1];
  for (int i = 0; i < n; ++i) s[i] = byte_of((int)vp_case("class", 0, 4));
  s[n] = 0;
  judge<KIND>(s);
  delete[] s;
}
VP_ENTRY c20_any_ymd() { any<YMD>(); }
VP_ENTRY c20_any_ydoy() { any<YDOY>(); }
VP_ENTRY c20_any_ymd_hms() { any<YMD_HMS>(); }
VP_ENTRY c20_any_yod_hms() { any<YOD_HMS>(); }
VP_ENTRY c20_any_ydoy_hms() { any<YDOY_HMS>(); }
// a number that does not fit
template <int KIND> static void big() {
  const bool time = KIND >= YMD_HMS, doy = KIND == YDOY || KIND == YDOY_HMS, name = KIND == YOD_HMS;
  const int nint = (doy ? 2 : 3) + (time ? 2 : 0);
  int which = (int)vp_case("field", 0, nint - 1);
  vp_assume(!(name && which == 1));
  int len = (int)vp_case("len", 10, 20);
  Text t(length<KIND>() + 24);
  char *end = t.s + length<KIND>() + 24;
  auto field = [&](int k, int n) {
    if (k != which) { t.lit(1, n); return; }
    long v = 0;
    bool over = false;
    if (vp_int("minus", 0, 1)) t.put('-'); else t.put('0');
    for (int i = 0; i < len; ++i) {
      int d = vp_int("digit", i ? 0 : 1, 9);
      t.put(static_cast<char>('0' + d));
      if (i < 11) v = v * 10 + d;
    }
    vp_assume(v > INT_MAX);
  };
  int k = 0;
  field(k++, 4); t.put('-');
  if (doy) field(k++, 3);
  else {
    if (name) { t.put('J'); t.put('u'); t.put('l'); ++k; } else field(k++, 2);
    t.put('-'); field(k++, 2);
  }
  if (time) { t.put(' '); field(k++, 2); t.put(':'); field(k++, 2); t.put(':'); t.lit(1, 2); }
  while (t.p < end) t.put(' ');
  long mjd = 0, units = 0;
  char *stop = nullptr;
  int rc = run<seconds>(KIND, t.s, &stop, mjd, units);
  vp_watch("rc", rc);
  vp_assert(rc == 1, "a number that does not fit its field is rejected with std::invalid_argument");
  vp_reach("rejected");
}
VP_ENTRY c20_big_ymd() { big<YMD>(); }
VP_ENTRY c20_big_ydoy() { big<YDOY>(); }
VP_ENTRY c20_big_ymd_hms() { big<YMD_HMS>(); }
VP_ENTRY c20_big_yod_hms() { big<YOD_HMS>(); }
VP_ENTRY c20_big_ydoy_hms() { big<YDOY_HMS>(); }
// seconds that are no number, or no finite one
template <int KIND> static void seconds_field() {
  static const char *const W[8] = {"nan", "inf", "-inf", "infinity", "", "x", ".", "-"};
  const bool doy = KIND == YDOY_HMS, name = KIND == YOD_HMS;
  const char *head = doy ? "2016-060 01:02:" : name ? "2016-Feb-29 01:02:" : "2016-02-29 01:02:";
  const char *w = W[vp_case("what", 0, 7)];
  int r = (int)vp_case("res", 0, 2);
  int a = (int)std::strlen(head), b = (int)std::strlen(w);
  Text t(a + b);
  for (int i = 0; i < a; ++i) t.put(head[i]);
  for (int i = 0; i < b; ++i) t.put(w[i] >= 'a' && w[i] <= 'z' ? static_cast<char>(w[i] - 32 * vp_int("upper", 0, 1)) : w[i]);
  long mjd = 0, units = 0;
  char *stop = nullptr;
  int rc = run_res(r, KIND, t.s, &stop, mjd, units);
  vp_watch("rc", rc);
  vp_assert(rc == 1, "seconds that are missing or not finite are rejected with std::invalid_argument");
  vp_reach("rejected");
}
VP_ENTRY c20_seconds_ymd() { seconds_field<YMD_HMS>(); }
VP_ENTRY c20_seconds_yod() { seconds_field<YOD_HMS>(); }
VP_ENTRY c20_seconds_ydoy() { seconds_field<YDOY_HMS>(); }
// seconds far too large for the type
template <int KIND> static void seconds_huge() {
  const bool doy = KIND == YDOY_HMS, name = KIND == YOD_HMS;
  const char *head = doy ? "2016-060 01:02:" : name ? "2016-Feb-29 01:02:" : "2016-02-29 01:02:";
  int a = (int)std::strlen(head), n = (int)vp_case("len", 13, 15);
  Text t(a + n);
  for (int i = 0; i < a; ++i) t.put(head[i]);
  for (int i = 0; i < n; ++i) t.put(static_cast<char>('0' + vp_int("digit", i ? 0 : 1, 9)));
  long mjd = 0, units = 0;
  char *stop = nullptr;
  int rc = run<microseconds>(KIND, t.s, &stop, mjd, units);
  vp_watch("rc", rc);
  vp_assert(n < 14 ? rc == 0 || rc == 1 : rc == 1, "more seconds than the type holds are rejected with std::invalid_argument");
  vp_reach("huge");
}
VP_ENTRY c20_huge_ymd() { seconds_huge<YMD_HMS>(); }
VP_ENTRY c20_huge_yod() { seconds_huge<YOD_HMS>(); }
VP_ENTRY c20_huge_ydoy() { seconds_huge<YDOY_HMS>(); }
