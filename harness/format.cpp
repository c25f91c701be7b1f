#include "vp.hpp"
#include "ref.hpp"
#include <string>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_write.hpp"
using namespace ngpt;

template <class S> struct res;
template <> struct res<seconds> { static constexpr long f = 1; };
template <> struct res<milliseconds> { static constexpr long f = 1000; };
template <> struct res<microseconds> { static constexpr long f = 1000000; };
static long p10(int n) { long q = 1; while (n-- > 0) q *= 10; return q; }

// A text under inspection: every access is within its length.
struct Reader {
  const char *s;
  long n, i;
  bool ok;
  explicit Reader(const std::string &t) : s(t.data()), n((long)t.size()), i(0), ok(true) {}
  // exactly k digits, whose value is returned
  long number(int k) {
    if (i + k > n) { ok = false; return 0; }
    long v = 0;
    for (int j = 0; j < k; ++j) {
      char c = s[i + j];
      ok = ok & (c >= '0') & (c <= '9');
      v = v * 10 + (c - '0');
    }
    i += k;
    return v;
  }
  // exactly the decimal number v in k digits
  void digits(long v, int k) { ok = ok & (number(k) == v); }
  // how many digits follow (decided by queries on the way, see EAGER in engine/checks.py)
  int vp_run() const {
    long j = i;
    while (j < n && s[j] >= '0' && s[j] <= '9') ++j;
    return (int)(j - i);
  }
  // the decimal number v, with or without leading zeros
  void any(long v) {
    int k = vp_run();
    if (k < 1 || k > 12) { ok = false; return; }
    digits(v, k);
  }
  void put(char c) {
    if (i >= n) { ok = false; return; }
    ok = ok & (s[i] == c);
    ++i;
  }
};
// a value whose decimal representation has k digits
static void has_digits(long v, int k) { vp_assume(v >= (k == 1 ? 0 : p10(k - 1)) && v < p10(k)); }
static int one_or_two(const char *what) { return (int)vp_case(what, 1, 2); }

// ---------------------------------------------------------------- C21 text of the date and the whole seconds
template <class S> static void whole(int yd) {
  const int md = one_or_two("month_digits"), dd = one_or_two("day_digits"), hd = one_or_two("hour_digits"), nd = one_or_two("minute_digits"), sd = one_or_two("second_digits");
  long mjd = vp_long("mjd", -700000, 36000000), u = vp_long("units", 0, S::max_in_day - 1);
  datetime<S> t{modified_julian_day{mjd}, S{u}};
  auto ymd = t.as_ymd();
  long y = ymd.__year.as_underlying_type(), m = ymd.__month.as_underlying_type(), d = ymd.__dom.as_underlying_type();
  long w = u / res<S>::f, h = w / 3600, n = w / 60 % 60, s = w % 60;
  has_digits(y, yd);
  has_digits(m, md);
  has_digits(d, dd);
  has_digits(h, hd);
  has_digits(n, nd);
  has_digits(s, sd);
  char del = static_cast<char>(vp_long("delimiter", -128, 127));
  std::string x = strftime_ymd_hms(t, del);
  vp_watch("size", (long)x.size());
  Reader r(x);
  r.digits(y, yd < 4 ? 4 : yd); r.put(del); r.digits(m, 2); r.put(del); r.digits(d, 2); r.put(' ');
  r.digits(h, 2); r.put(':'); r.digits(n, 2); r.put(':'); r.digits(s, 2);
  vp_assert(r.ok && r.i == r.n, "strftime_ymd_hms writes the date and time of day, YYYY-MM-DD HH:MM:SS");
  vp_reach("whole");
}
VP_ENTRY c21_whole_s() { whole<seconds>(4); }
VP_ENTRY c21_whole_ms() { whole<milliseconds>(4); }
VP_ENTRY c21_whole_us() { whole<microseconds>(4); }
VP_ENTRY c21_whole_years() { whole<seconds>((int)vp_case("year_digits", 1, 5)); }
// ---------------------------------------------------------------- C21 decimal seconds
// the other two writers, for instants on a whole second
static std::string write(int stringify, const datetime<seconds> &t, char del) { return stringify ? t.stringify() : strftime_ymd_hmfs(t, del); }
static void date_part(Reader &r, int stringify, char del, long y, int yd, long m, int md, long d, int dd) {
  if (stringify) del = '/';
  if (stringify) {
    r.any(y); r.put(del); r.any(m); r.put(del); r.any(d); r.put(' ');
  } else {
    r.digits(y, yd < 4 ? 4 : yd); r.put(del); r.digits(m, 2); r.put(del); r.digits(d, 2); r.put(' ');
  }
}
static void dates(int stringify) {
  const int yd = (int)vp_case("year_digits", vp_tier() ? 1 : 4, 5), md = one_or_two("month_digits"), dd = one_or_two("day_digits");
  long mjd = vp_long("mjd", -700000, 36000000);
  datetime<seconds> t{modified_julian_day{mjd}, seconds{0}};
  auto ymd = t.as_ymd();
  long y = ymd.__year.as_underlying_type(), m = ymd.__month.as_underlying_type(), d = ymd.__dom.as_underlying_type();
  has_digits(y, yd);
  has_digits(m, md);
  has_digits(d, dd);
  char del = static_cast<char>(vp_long("delimiter", -128, 127));
  std::string x = write(stringify, t, del);
  vp_watch("size", (long)x.size());
  Reader r(x);
  date_part(r, stringify, del, y, yd, m, md, d, dd);
  vp_assert(r.ok && r.i < r.n, "the text begins with the date");
  vp_reach("date");
}
VP_ENTRY c21_date_hmfs() { dates(0); }
VP_ENTRY c21_date_stringify() { dates(1); }
// every unit of a fixed day
template <class S> static void fraction(int stringify) {
  const int hd = one_or_two("hour_digits"), nd = one_or_two("minute_digits"), sd = one_or_two("second_digits");
  long u = vp_long("units", 0, S::max_in_day - 1);
  long w = u / res<S>::f, h = w / 3600, n = w / 60 % 60, s = w % 60, f = u % res<S>::f;
  has_digits(h, hd);
  has_digits(n, nd);
  has_digits(s, sd);
  datetime<S> t{modified_julian_day{57386}, S{u}};
  std::string x = stringify ? t.stringify() : strftime_ymd_hmfs(t);
  vp_watch("size", (long)x.size());
  Reader r(x);
  date_part(r, stringify, '-', 2015, 4, 12, 2, 30, 2);
  if (stringify) {
    r.any(h); r.put(':'); r.any(n); r.put(':');
  } else {
    r.digits(h, 2); r.put(':'); r.digits(n, 2); r.put(':');
  }
  vp_assert(r.ok && r.i < r.n, "the hours and minutes are written");
  // the seconds, with any number of decimals that holds a unit of the resolution
  const int id = r.vp_run();
  const long i = r.number(id);
  int dec = 0;
  if (r.i < r.n) {
    r.put('.');
    dec = r.vp_run();
  }
  vp_assert(r.ok && id > 0 && id <= 9 && dec <= 9 && p10(dec) >= res<S>::f, "the seconds are written with every decimal of the resolution");
  if (id > 9 || dec > 9) return;
  const long v = i * p10(dec) + r.number(dec);
  vp_assert(r.ok && v == s * p10(dec) + f * (p10(dec) / res<S>::f) && r.i == r.n, "the seconds are written with every decimal of the resolution");
  vp_reach("fraction");
}
VP_ENTRY c21_hmfs_s() { fraction<seconds>(0); }
VP_ENTRY c21_hmfs_ms() { fraction<milliseconds>(0); }
VP_ENTRY c21_hmfs_us() { fraction<microseconds>(0); }
VP_ENTRY c21_stringify_s() { fraction<seconds>(1); }
VP_ENTRY c21_stringify_ms() { fraction<milliseconds>(1); }
VP_ENTRY c21_stringify_us() { fraction<microseconds>(1); }
