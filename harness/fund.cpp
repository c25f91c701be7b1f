#include "vp.hpp"
#include "ref.hpp"
#include <climits>
#include <tuple>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;
typedef seconds S0;
typedef milliseconds S1;
typedef microseconds S2;
static const long L62 = 4000000000000000000L;
template <class S> struct res;
template <> struct res<seconds> { static const long f = 1, day = 86400L; };
template <> struct res<milliseconds> { static const long f = 1000, day = 86400000L; };
template <> struct res<microseconds> { static const long f = 1000000, day = 86400000000L; };

// ---------------------------------------------------------------- C11 the fundamental types behave as their integers
template <class X> static void c11_type(long lo, long hi) {
  typedef typename X::underlying_type U;
  long a = vp_long("a", lo, hi), b = vp_long("b", lo, hi);
  X x{(U)a}, y{(U)b};
  vp_assert(x.as_underlying_type() == a && y.as_underlying_type() == b, "construction keeps the value");
  vp_assert((x == y) == (a == b), "==");
  vp_assert((x != y) == (a != b), "!=");
  vp_assert((x < y) == (a < b), "<");
  vp_assert((x <= y) == (a <= b), "<=");
  vp_assert((x > y) == (a > b), ">");
  vp_assert((x >= y) == (a >= b), ">=");
  vp_watch("lt", x < y);
  vp_reach("compared");
  long mn = sizeof(U) == 4 ? INT_MIN : LONG_MIN, mx = sizeof(U) == 4 ? INT_MAX : LONG_MAX;
  // sums and differences that fit
  if (!(b >= 0 ? a > mx - b : a < mn - b)) {
    X t = x;
    X &r = (t += y);
    vp_assert(t.as_underlying_type() == a + b, "+= adds");
    vp_assert(&r == &t, "+= returns its object");
    X u = x;
    u += (U)b;
    vp_assert(u.as_underlying_type() == a + b, "+= adds an integer");
    vp_watch("sum", t.as_underlying_type());
    vp_reach("added");
  }
  if (!(b >= 0 ? a < mn + b : a > mx + b)) {
    X t = x;
    X &r = (t -= y);
    vp_assert(t.as_underlying_type() == a - b, "-= subtracts");
    vp_assert(&r == &t, "-= returns its object");
    X u = x;
    u -= (U)b;
    vp_assert(u.as_underlying_type() == a - b, "-= subtracts an integer");
    vp_reach("subtracted");
  }
  if (a < mx) {
    X t = x, u = x;
    X p = ++t, q = u++;
    vp_assert(t.as_underlying_type() == a + 1 && p.as_underlying_type() == a + 1, "pre-increment");
    vp_assert(u.as_underlying_type() == a + 1 && q.as_underlying_type() == a, "post-increment");
    vp_reach("incremented");
  }
  if (a > mn) {
    X t = x, u = x;
    X p = --t, q = u--;
    vp_assert(t.as_underlying_type() == a - 1 && p.as_underlying_type() == a - 1, "pre-decrement");
    vp_assert(u.as_underlying_type() == a - 1 && q.as_underlying_type() == a, "post-decrement");
    vp_reach("decremented");
  }
  vp_assert(y.as_underlying_type() == b, "the right operand is unchanged");
}
VP_ENTRY c11_year() { c11_type<year>(INT_MIN, INT_MAX); }
VP_ENTRY c11_month() { c11_type<month>(INT_MIN, INT_MAX); }
VP_ENTRY c11_dom() { c11_type<day_of_month>(INT_MIN, INT_MAX); }
VP_ENTRY c11_doy() { c11_type<day_of_year>(INT_MIN, INT_MAX); }
VP_ENTRY c11_hours() { c11_type<hours>(INT_MIN, INT_MAX); }
VP_ENTRY c11_minutes() { c11_type<minutes>(INT_MIN, INT_MAX); }
VP_ENTRY c11_week() { c11_type<gps_week>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_mjd() { c11_type<mjd_t>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_sec() { c11_type<seconds>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_msec() { c11_type<milliseconds>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_usec() { c11_type<microseconds>(LONG_MIN, LONG_MAX); }
template <class X> static void c11_assign(long lo, long hi) {
  long a = vp_long("a", lo, hi), b = vp_long("b", lo, hi);
  X x{(typename X::underlying_type)a};
  X &r = (x = (typename X::underlying_type)b);
  vp_assert(x.as_underlying_type() == b && &r == &x, "assignment from an integer");
  vp_watch("v", x.as_underlying_type());
  vp_reach("assigned");
}
VP_ENTRY c11_assign_year() { c11_assign<year>(INT_MIN, INT_MAX); }
VP_ENTRY c11_assign_dom() { c11_assign<day_of_month>(INT_MIN, INT_MAX); }
VP_ENTRY c11_assign_doy() { c11_assign<day_of_year>(INT_MIN, INT_MAX); }
VP_ENTRY c11_assign_hours() { c11_assign<hours>(INT_MIN, INT_MAX); }
VP_ENTRY c11_assign_minutes() { c11_assign<minutes>(INT_MIN, INT_MAX); }
VP_ENTRY c11_assign_week() { c11_assign<gps_week>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_assign_mjd() { c11_assign<mjd_t>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_assign_sec() { c11_assign<seconds>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_assign_msec() { c11_assign<milliseconds>(LONG_MIN, LONG_MAX); }
VP_ENTRY c11_assign_usec() { c11_assign<microseconds>(LONG_MIN, LONG_MAX); }
template <class X> static void c11_plusminus() {
  long a = vp_long("a", -L62, L62), b = vp_long("b", -L62, L62);
  const X x{a}, y{b};
  vp_watch("sum", (x + y).as_underlying_type());
  vp_assert((x + y).as_underlying_type() == a + b, "binary + adds");
  vp_assert((x - y).as_underlying_type() == a - b, "binary - subtracts");
  vp_reach("combined");
}
VP_ENTRY c11_pm_mjd() { c11_plusminus<mjd_t>(); }
VP_ENTRY c11_pm_sec() { c11_plusminus<seconds>(); }
VP_ENTRY c11_pm_msec() { c11_plusminus<milliseconds>(); }
VP_ENTRY c11_pm_usec() { c11_plusminus<microseconds>(); }
VP_ENTRY c11_literals() {
  long a = vp_long("a", 0, INT_MAX), b = vp_long("b", 0, LONG_MAX);
  unsigned long long i = a, l = b;
  vp_assert(operator"" _Y(i).as_underlying_type() == a, "_Y");
  vp_assert(operator"" _M(i).as_underlying_type() == a, "_M");
  vp_assert(operator"" _D(i).as_underlying_type() == a, "_D");
  vp_assert(operator"" _h(i).as_underlying_type() == a, "_h");
  vp_assert(operator"" _m(i).as_underlying_type() == a, "_m");
  vp_assert(operator"" _sec(l).as_underlying_type() == b, "_sec");
  vp_assert(operator"" _millisec(l).as_underlying_type() == b, "_millisec");
  vp_assert(operator"" _microsec(l).as_underlying_type() == b, "_microsec");
  vp_watch("sec", operator"" _sec(l).as_underlying_type());
  vp_reach("literals");
}

// ---------------------------------------------------------------- C12 conversions between units
template <class A, class B> static void c12_cast() {
  long fa = res<A>::f, fb = res<B>::f;
  long up = fb > fa ? fb / fa : 1, down = fa > fb ? fa / fb : 1;
  long x = vp_long("x", LONG_MIN / up, LONG_MAX / up);
  long y = cast_to<A, B>(A{x}).as_underlying_type();
  vp_watch("y", y);
  vp_assert(y == x * up / down, "cast_to scales by the ratio of the units, dropping a fraction towards zero");
  if (up > 1) {
    vp_assert(cast_to<B, A>(B{y}).as_underlying_type() == x, "casting to a finer unit and back is the identity");
  }
  vp_reach("cast");
}
VP_ENTRY c12_cast_s_s() { c12_cast<S0, S0>(); }
VP_ENTRY c12_cast_s_ms() { c12_cast<S0, S1>(); }
VP_ENTRY c12_cast_s_us() { c12_cast<S0, S2>(); }
VP_ENTRY c12_cast_ms_s() { c12_cast<S1, S0>(); }
VP_ENTRY c12_cast_ms_ms() { c12_cast<S1, S1>(); }
VP_ENTRY c12_cast_ms_us() { c12_cast<S1, S2>(); }
VP_ENTRY c12_cast_us_s() { c12_cast<S2, S0>(); }
VP_ENTRY c12_cast_us_ms() { c12_cast<S2, S1>(); }
VP_ENTRY c12_cast_us_us() { c12_cast<S2, S2>(); }
VP_ENTRY c12_explicit() {
  long x = vp_long("x", LONG_MIN, LONG_MAX);
  vp_assert(static_cast<seconds>(milliseconds{x}).as_underlying_type() == x / 1000, "milliseconds to seconds");
  vp_assert(static_cast<seconds>(microseconds{x}).as_underlying_type() == x / 1000000, "microseconds to seconds");
  vp_assert(static_cast<milliseconds>(microseconds{x}).as_underlying_type() == x / 1000, "microseconds to milliseconds");
  vp_watch("ms", static_cast<milliseconds>(microseconds{x}).as_underlying_type());
  vp_reach("converted");
}
// to_hmsf and the constructors from hours, minutes and seconds are inverse
template <class S> static void c12_hmsf() {
  long f = res<S>::f;
  long x = vp_long("x", 0, f == 1000000 ? L62 : 3600L * f * INT_MAX);
  hours h; minutes m; seconds s; long fr;
  std::tie(h, m, s, fr) = S{x}.to_hmsf();
  long H = h.as_underlying_type(), M = m.as_underlying_type(), Z = s.as_underlying_type();
  vp_watch("h", H); vp_watch("m", M); vp_watch("s", Z); vp_watch("f", fr);
  vp_assert(H >= 0 && M >= 0 && M < 60 && Z >= 0 && Z < 60 && fr >= 0 && fr < f, "to_hmsf components are in range");
  vp_assert(((H * 60 + M) * 60 + Z) * f + fr == x, "to_hmsf components add up");
  vp_reach("split");
}
VP_ENTRY c12_hmsf_s() { c12_hmsf<S0>(); }
VP_ENTRY c12_hmsf_ms() { c12_hmsf<S1>(); }
VP_ENTRY c12_hmsf_us() { c12_hmsf<S2>(); }
template <class S> static void c12_back() {
  long f = res<S>::f;
  int H = vp_int("h", 0, 1000000), M = vp_int("m", 0, 59), Z = vp_int("s", 0, 59);
  long fr = vp_long("f", 0, f - 1);
  S x{hours{H}, minutes{M}, S{Z * f + fr}};
  vp_watch("x", x.as_underlying_type());
  vp_assert(x.as_underlying_type() == ((H * 60L + M) * 60L + Z) * f + fr, "hours, minutes and seconds add up");
  std::tuple<hours, minutes, seconds, long> t = x.to_hmsf();
  vp_assert(std::get<0>(t).as_underlying_type() == H && std::get<1>(t).as_underlying_type() == M &&
            std::get<2>(t).as_underlying_type() == Z && std::get<3>(t) == fr, "to_hmsf recovers the components");
  vp_reach("built");
}
VP_ENTRY c12_back_s() { c12_back<S0>(); }
VP_ENTRY c12_back_ms() { c12_back<S1>(); }
VP_ENTRY c12_back_us() { c12_back<S2>(); }
template <class S> static void c12_days() {
  long D = res<S>::day;
  long x = vp_long("x", 0, D >= 86400000000L ? LONG_MAX : D * INT_MAX);
  S s{x};
  vp_assert(s.to_days() == x / D, "to_days is the whole days");
  vp_assert(s.more_than_day() == (x > D), "more_than_day");
  int n = s.remove_days();
  vp_watch("days", n);
  vp_assert(n == x / D, "remove_days returns the whole days");
  vp_assert(s.as_underlying_type() == x % D, "remove_days keeps the rest");
  if (n) vp_reach("days"); else vp_reach("less than a day");
}
VP_ENTRY c12_days_s() { c12_days<S0>(); }
VP_ENTRY c12_days_ms() { c12_days<S1>(); }
VP_ENTRY c12_days_us() { c12_days<S2>(); }
VP_ENTRY c12_hours_minutes() {
  int x = vp_int("x", 0, INT_MAX);
  hours h{x};
  minutes m{x};
  int d = h.remove_days();
  hours k = m.remove_hours();
  vp_watch("d", d);
  vp_assert(d == x / 24 && h.as_underlying_type() == x % 24, "hours::remove_days");
  vp_assert(k.as_underlying_type() == x / 60 && m.as_underlying_type() == x % 60, "minutes::remove_hours");
  vp_reach("removed");
}
VP_ENTRY c12_factors() {
  vp_assert(seconds::max_in_day == 86400 && milliseconds::max_in_day == 86400000 && microseconds::max_in_day == 86400000000, "max_in_day");
  vp_assert(seconds::sec_factor<long>() == 1 && milliseconds::sec_factor<long>() == 1000 && microseconds::sec_factor<long>() == 1000000, "sec_factor<long>");
  vp_assert(seconds::sec_factor<double>() == 1. && milliseconds::sec_factor<double>() == 1000. && microseconds::sec_factor<double>() == 1000000., "sec_factor<double>");
  vp_reach("factors");
}
// datetimes cast between resolutions: same day, time of day cut to the resolution
template <class A, class B> static void c12_dt() {
  long fa = res<A>::f, fb = res<B>::f;
  long up = fb > fa ? fb / fa : 1, down = fa > fb ? fa / fb : 1;
  long j = vp_long("mjd", -1000000000000000L, 1000000000000000L), s = vp_long("sec", 0, res<A>::day - 1);
  datetime<A> t{mjd_t{j}, A{s}};
  datetime<B> u = t.template cast_to<B>();
  vp_watch("sec", u.sec_as_i());
  vp_assert(u.mjd().as_underlying_type() == j, "cast_to keeps the day");
  vp_assert(u.sec().as_underlying_type() == s * up / down, "cast_to keeps the time of day to its resolution");
  std::tuple<hours, minutes, seconds, long> a = t.as_hmsf(), b = t.sec().to_hmsf();
  vp_assert(std::get<0>(a) == std::get<0>(b) && std::get<1>(a) == std::get<1>(b) && std::get<2>(a) == std::get<2>(b) &&
            std::get<3>(a) == std::get<3>(b), "datetime::as_hmsf is that of its time of day");
  vp_reach("cast");
}
VP_ENTRY c12_dt_s_s() { c12_dt<S0, S0>(); }
VP_ENTRY c12_dt_s_ms() { c12_dt<S0, S1>(); }
VP_ENTRY c12_dt_s_us() { c12_dt<S0, S2>(); }
VP_ENTRY c12_dt_ms_s() { c12_dt<S1, S0>(); }
VP_ENTRY c12_dt_ms_us() { c12_dt<S1, S2>(); }
VP_ENTRY c12_dt_us_s() { c12_dt<S2, S0>(); }
VP_ENTRY c12_dt_us_ms() { c12_dt<S2, S1>(); }

// ---------------------------------------------------------------- C13 GPS week and seconds of week
template <class S> static void c13_from() {
  long D = res<S>::day;
  long w = vp_long("week", 0, 10000000), x = vp_long("sow", 0, 7 * D - 1);
  datetime<S> t{gps_week{w}, S{x}};
  vp_watch("mjd", t.mjd().as_underlying_type()); vp_watch("sec", t.sec_as_i());
  vp_assert(t.mjd().as_underlying_type() == 44244 + 7 * w + x / D, "week and seconds of week give the day");
  vp_assert(t.sec().as_underlying_type() == x % D, "week and seconds of week give the time of day");
  S sow;
  gps_week v = t.as_gps_wsow(sow);
  vp_watch("sow", sow.as_underlying_type());
  vp_assert(v.as_underlying_type() == w, "as_gps_wsow recovers the week");
  vp_assert(sow.as_underlying_type() == x, "as_gps_wsow recovers the seconds of week");
  long ls = -1;
  gps_week u = t.as_gps_wsow(ls);
  vp_watch("ls", ls);
  vp_assert(u.as_underlying_type() == w, "as_gps_wsow(long&) recovers the week");
  vp_assert(ls == x / res<S>::f, "as_gps_wsow(long&) recovers the whole seconds of week");
  int d = day_of_week(S{x});
  vp_assert(d == x / D && d >= 0 && d <= 6, "day_of_week counts days from Sunday");
  vp_reach("round trip");
}
VP_ENTRY c13_from_s() { c13_from<S0>(); }
VP_ENTRY c13_from_ms() { c13_from<S1>(); }
VP_ENTRY c13_from_us() { c13_from<S2>(); }
// seconds of week of any size: the instant is GPS epoch + weeks + seconds
template <class S> static void c13_any() {
  long D = res<S>::day;
  long w = vp_long("week", -1000000, 1000000000L), x = vp_long("sow", -L62, L62);
  datetime<S> t{gps_week{w}, S{x}};
  vp_watch("mjd", t.mjd().as_underlying_type());
  vp_assert(t.mjd().as_underlying_type() == 44244 + 7 * w + fdiv(x, D), "whole days of the seconds go to the day");
  vp_assert(t.sec().as_underlying_type() == fmod_(x, D), "the rest is the time of day");
  vp_reach("built");
}
VP_ENTRY c13_any_s() { c13_any<S0>(); }
VP_ENTRY c13_any_ms() { c13_any<S1>(); }
VP_ENTRY c13_any_us() { c13_any<S2>(); }
template <class S> static void c13_to() {
  long D = res<S>::day;
  long j = vp_long("mjd", 44244, 70044244), s = vp_long("sec", 0, D - 1);
  datetime<S> t{mjd_t{j}, S{s}};
  S sow;
  gps_week w = t.as_gps_wsow(sow);
  vp_watch("w", w.as_underlying_type()); vp_watch("sow", sow.as_underlying_type());
  vp_assert(w.as_underlying_type() == (j - 44244) / 7, "the week counts from 1980-01-06");
  vp_assert(sow.as_underlying_type() == (j - 44244) % 7 * D + s, "the seconds count from Sunday midnight");
  vp_assert(w.is_valid(), "the week is valid");
  datetime<S> u{w, sow};
  vp_assert(u == t, "building from week and seconds of week restores the datetime");
  vp_reach("round trip");
}
VP_ENTRY c13_to_s() { c13_to<S0>(); }
VP_ENTRY c13_to_ms() { c13_to<S1>(); }
VP_ENTRY c13_to_us() { c13_to<S2>(); }

// a datetime before the GPS epoch is restored as well
template <class S> static void c13_before() {
  long j = vp_long("mjd", -70000000, 44243), s = vp_long("sec", 0, res<S>::day - 1);
  datetime<S> t{mjd_t{j}, S{s}};
  S sow;
  gps_week w = t.as_gps_wsow(sow);
  datetime<S> u{w, sow};
  vp_watch("mjd", u.mjd().as_underlying_type());
  vp_assert(u == t, "building from week and seconds of week restores the datetime");
  vp_reach("round trip");
}
VP_ENTRY c13_before_s() { c13_before<S0>(); }
VP_ENTRY c13_before_ms() { c13_before<S1>(); }
VP_ENTRY c13_before_us() { c13_before<S2>(); }

// ---------------------------------------------------------------- C14 representable range
template <class S> static void c14_range() {
  long D = res<S>::day;
  long n = max_days_allowed<S>();
  vp_assert(n == LONG_MAX / D, "max_days_allowed is the most whole days that fit");
  long d = vp_long("days", -(LONG_MAX / D), LONG_MAX / D), b = vp_long("from", -1000000000000000L, 1000000000000000L);
  S x = mjd_sec_diff<S>(mjd_t{b + d}, mjd_t{b});
  vp_watch("x", x.as_underlying_type());
  vp_assert(x.as_underlying_type() == d * D, "mjd_sec_diff is exact for every difference of up to max_days_allowed days");
  vp_reach("difference");
}
VP_ENTRY c14_range_s() { c14_range<S0>(); }
VP_ENTRY c14_range_ms() { c14_range<S1>(); }
VP_ENTRY c14_range_us() { c14_range<S2>(); }
VP_ENTRY c14_mjd_limits() {
  long j = vp_long("mjd", LONG_MIN, LONG_MAX);
  vp_assert(mjd_t::max() >= mjd_t{j} && mjd_t::min() <= mjd_t{j}, "modified_julian_day::min and max bound every value");
  datetime<S1> t{mjd_t{j}, S1{0}};
  vp_watch("ge", datetime<S1>::max() >= t);
  vp_assert(datetime<S1>::min() <= t && t <= datetime<S1>::max(), "datetime::min and max bound every midnight");
  vp_assert(datetime<S0>::max().mjd() == mjd_t::max() && datetime<S2>::min().mjd() == mjd_t::min(), "datetime::min and max are on the extreme days");
  vp_assert(datetime<S0>::max().sec_as_i() == 0 && datetime<S2>::min().sec_as_i() == 0, "at midnight");
  vp_reach("bounded");
}
