#include "vp.hpp"
#include "ref.hpp"
#include <climits>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;
typedef seconds S0;
typedef milliseconds S1;
typedef microseconds S2;
static const long L62 = 4000000000000000000L;
static const long JMAX = 1000000000000000L;      // |MJD| bound

template <class S> struct res;
template <> struct res<seconds> { static const long f = 1, day = 86400L; };
template <> struct res<milliseconds> { static const long f = 1000, day = 86400000L; };
template <> struct res<microseconds> { static const long f = 1000000, day = 86400000000L; };

// the datetime t is day j0 plus n units of S, with the time of day in [0, one day)
template <class S> static void same_instant(const datetime<S> &t, long j0, long n) {
  long D = res<S>::day;
  vp_watch("mjd", t.mjd().as_underlying_type());
  vp_watch("sec", t.sec().as_underlying_type());
  vp_assert(t.sec().as_underlying_type() >= 0 && t.sec().as_underlying_type() < D, "time of day is within the day");
  vp_assert(t.mjd().as_underlying_type() == j0 + fdiv(n, D), "the day is right");
  vp_assert(t.sec().as_underlying_type() == fmod_(n, D), "the time of day is right");
  vp_assert(t.sec_as_i() == t.sec().as_underlying_type(), "sec_as_i is sec");
  if (n < 0) vp_reach("negative time"); else if (n >= D) vp_reach("more than a day"); else vp_reach("within the day");
}

// ---------------------------------------------------------------- C07 construction
template <class S> static void c07_mjd_sec() {
  long j = vp_long("mjd", -JMAX, JMAX), s = vp_long("sec", -L62, L62);
  datetime<S> t{mjd_t{j}, S{s}};
  same_instant<S>(t, j, s);
}
VP_ENTRY c07_mjd_sec_s() { c07_mjd_sec<S0>(); }
VP_ENTRY c07_mjd_sec_ms() { c07_mjd_sec<S1>(); }
VP_ENTRY c07_mjd_sec_us() { c07_mjd_sec<S2>(); }

template <class S> static long hms(int h, int m, long s) { return (h * 3600L + m * 60L) * res<S>::f + s; }
#define HMS int h = vp_int("h", -1000000, 1000000), mi = vp_int("min", -60000000, 60000000); \
            long s = vp_long("sec", -L62, L62);
#define DATE int y = vp_int("year", -4799, 1000000), m = vp_int("month", 1, 12), d = vp_int("day", 1, 31); \
             vp_assume(ref_valid(y, m, d)); \
             long j = cal2mjd(year{y}, month{m}, day_of_month{d}).as_underlying_type();
#define YDOY int y = vp_int("year", -4799, 1000000), k = vp_int("doy", 1, 366); \
             vp_assume(k <= 365 + ref_leap(y)); \
             long j = ydoy2mjd(year{y}, day_of_year{k}).as_underlying_type();
template <class S> static void c07_mjd_hms() {
  long j = vp_long("mjd", -JMAX, JMAX);
  HMS
  datetime<S> t{mjd_t{j}, hours{h}, minutes{mi}, S{s}};
  same_instant<S>(t, j, hms<S>(h, mi, s));
}
VP_ENTRY c07_mjd_hms_s() { c07_mjd_hms<S0>(); }
VP_ENTRY c07_mjd_hms_ms() { c07_mjd_hms<S1>(); }
VP_ENTRY c07_mjd_hms_us() { c07_mjd_hms<S2>(); }
template <class S> static void c07_ymd_hms() {
  DATE HMS
  datetime<S> t{year{y}, month{m}, day_of_month{d}, hours{h}, minutes{mi}, S{s}};
  same_instant<S>(t, j, hms<S>(h, mi, s));
}
VP_ENTRY c07_ymd_hms_s() { c07_ymd_hms<S0>(); }
VP_ENTRY c07_ymd_hms_ms() { c07_ymd_hms<S1>(); }
VP_ENTRY c07_ymd_hms_us() { c07_ymd_hms<S2>(); }
template <class S> static void c07_ymd_sec() {
  DATE
  long s = vp_long("sec", -L62, L62);
  datetime<S> t{year{y}, month{m}, day_of_month{d}, S{s}};
  same_instant<S>(t, j, s);
}
VP_ENTRY c07_ymd_sec_s() { c07_ymd_sec<S0>(); }
VP_ENTRY c07_ymd_sec_ms() { c07_ymd_sec<S1>(); }
VP_ENTRY c07_ymd_sec_us() { c07_ymd_sec<S2>(); }
template <class S> static void c07_ydoy_hms() {
  YDOY HMS
  datetime<S> t{year{y}, day_of_year{k}, hours{h}, minutes{mi}, S{s}};
  same_instant<S>(t, j, hms<S>(h, mi, s));
}
VP_ENTRY c07_ydoy_hms_s() { c07_ydoy_hms<S0>(); }
VP_ENTRY c07_ydoy_hms_ms() { c07_ydoy_hms<S1>(); }
VP_ENTRY c07_ydoy_hms_us() { c07_ydoy_hms<S2>(); }
template <class S> static void c07_ydoy_sec() {
  YDOY
  long s = vp_long("sec", -L62, L62);
  datetime<S> t{year{y}, day_of_year{k}, S{s}};
  same_instant<S>(t, j, s);
}
VP_ENTRY c07_ydoy_sec_s() { c07_ydoy_sec<S0>(); }
VP_ENTRY c07_ydoy_sec_ms() { c07_ydoy_sec<S1>(); }
VP_ENTRY c07_ydoy_sec_us() { c07_ydoy_sec<S2>(); }
// only a date, and a date with hours and minutes
template <class S> static void c07_defaults() {
  DATE
  int h = vp_int("h", -1000000, 1000000), mi = vp_int("min", -60000000, 60000000);
  int k = ref_mstart(y, m) + d;
  datetime<S> a{year{y}, month{m}, day_of_month{d}}, b{year{y}, day_of_year{k}}, c{mjd_t{j}, hours{0}};
  vp_assert(a.mjd().as_underlying_type() == j && a.sec().as_underlying_type() == 0, "a bare date is its midnight");
  vp_assert(c.mjd().as_underlying_type() == j && c.sec().as_underlying_type() == 0, "an MJD with hour 0 is its midnight");
  vp_assert(b.sec().as_underlying_type() == 0, "a bare day of year is its midnight");
  datetime<S> e{year{y}, month{m}, day_of_month{d}, hours{h}, minutes{mi}};
  same_instant<S>(e, j, hms<S>(h, mi, 0));
}
VP_ENTRY c07_defaults_s() { c07_defaults<S0>(); }
VP_ENTRY c07_defaults_us() { c07_defaults<S2>(); }
// a finer time of day given to a coarser datetime is cut to its resolution
template <class S, class T> static void c07_conv() {
  DATE HMS
  long r = res<T>::f / res<S>::f;
  int k = ref_mstart(y, m) + d;
  int kind = (int)vp_case("ctor", 0, 3);
  long n = kind & 1 ? hms<S>(h, mi, s / r) : s / r;
  switch (kind) {
    case 0: { datetime<S> t{year{y}, month{m}, day_of_month{d}, T{s}}; same_instant<S>(t, j, n); break; }
    case 1: { datetime<S> t{year{y}, month{m}, day_of_month{d}, hours{h}, minutes{mi}, T{s}}; same_instant<S>(t, j, n); break; }
    case 2: { long g = ydoy2mjd(year{y}, day_of_year{k}).as_underlying_type();
              datetime<S> t{year{y}, day_of_year{k}, T{s}}; same_instant<S>(t, g, n); break; }
    default: { long g = ydoy2mjd(year{y}, day_of_year{k}).as_underlying_type();
              datetime<S> t{year{y}, day_of_year{k}, hours{h}, minutes{mi}, T{s}}; same_instant<S>(t, g, n); break; }
  }
}
VP_ENTRY c07_conv_s_ms() { c07_conv<S0, S1>(); }
VP_ENTRY c07_conv_s_us() { c07_conv<S0, S2>(); }
VP_ENTRY c07_conv_ms_us() { c07_conv<S1, S2>(); }
// a GPS week and seconds of week
template <class S> static void c07_gps() {
  long w = vp_long("week", -1000000, 1000000000L), x = vp_long("sow", -L62, L62);
  datetime<S> t{gps_week{w}, S{x}};
  same_instant<S>(t, 44244 + 7 * w, x);
}
VP_ENTRY c07_gps_s() { c07_gps<S0>(); }
VP_ENTRY c07_gps_ms() { c07_gps<S1>(); }
VP_ENTRY c07_gps_us() { c07_gps<S2>(); }
// normalising again changes nothing
template <class S> static void c07_idem() {
  long j = vp_long("mjd", -JMAX, JMAX), s = vp_long("sec", -L62, L62);
  datetime<S> t{mjd_t{j}, S{s}}, u = t;
  u.normalize();
  vp_assert(u.mjd() == t.mjd() && u.sec() == t.sec(), "normalize is idempotent");
  vp_watch("sec", u.sec_as_i());
  vp_reach("normalised twice");
}
VP_ENTRY c07_idem_s() { c07_idem<S0>(); }
VP_ENTRY c07_idem_ms() { c07_idem<S1>(); }
VP_ENTRY c07_idem_us() { c07_idem<S2>(); }

// ---------------------------------------------------------------- C08 adding and removing seconds
#define DT(N, S) long N##j = vp_long(#N "_mjd", -JMAX, JMAX), N##s = vp_long(#N "_sec", 0, res<S>::day - 1); \
                 datetime<S> N{mjd_t{N##j}, S{N##s}};
template <class S> static void instant_is(const datetime<S> &t, long j0, long n) {
  long D = res<S>::day;
  vp_watch("mjd", t.mjd().as_underlying_type());
  vp_watch("sec", t.sec().as_underlying_type());
  vp_assert(t.sec().as_underlying_type() >= 0 && t.sec().as_underlying_type() < D, "time of day is within the day");
  vp_assert(t.mjd().as_underlying_type() == j0 + fdiv(n, D), "the day is right");
  vp_assert(t.sec().as_underlying_type() == fmod_(n, D), "the time of day is right");
}
// T as coarse as S or coarser: exact
template <class S, class T> static void c08_exact() {
  DT(t, S)
  long r = res<S>::f / res<T>::f;
  long x = vp_long("x", -L62 / r, L62 / r);
  datetime<S> a = t, b = t;
  a.add_seconds(T{x});
  b.remove_seconds(T{x});
  instant_is<S>(a, tj, ts + x * r);
  instant_is<S>(b, tj, ts - x * r);
  a.remove_seconds(T{x});
  b.add_seconds(T{x});
  vp_assert(a == t, "removing what was added restores the datetime");
  vp_assert(b == t, "adding what was removed restores the datetime");
  if (x < 0) vp_reach("negative"); else if (ts + x * r >= res<S>::day) vp_reach("past midnight"); else vp_reach("same day");
}
VP_ENTRY c08_s_s() { c08_exact<S0, S0>(); }
VP_ENTRY c08_ms_s() { c08_exact<S1, S0>(); }
VP_ENTRY c08_ms_ms() { c08_exact<S1, S1>(); }
VP_ENTRY c08_us_s() { c08_exact<S2, S0>(); }
VP_ENTRY c08_us_ms() { c08_exact<S2, S1>(); }
VP_ENTRY c08_us_us() { c08_exact<S2, S2>(); }
// T finer than S: off by less than one unit of S, exact for whole units
template <class S, class T> static void c08_coarse() {
  DT(t, S)
  long r = res<T>::f / res<S>::f, D = res<S>::day;
  long x = vp_long("x", -L62, L62);
  int sub = (int)vp_case("remove", 0, 1);
  datetime<S> a = t;
  if (sub) a.remove_seconds(T{x}); else a.add_seconds(T{x});
  long n = ts * r + (sub ? -x : x);      // the exact time of day in units of T
  long aj = a.mjd().as_underlying_type(), as = a.sec().as_underlying_type();
  vp_watch("mjd", aj); vp_watch("sec", as);
  vp_assert(as >= 0 && as < D, "time of day is within the day");
  long e = (aj - tj - fdiv(n, D * r)) ;  // difference in days, at most one off
  vp_assert(e >= -1 && e <= 1, "the day is right up to rounding");
  vp_assume(e >= -1 && e <= 1);
  long err = (e * D + as) * r - fmod_(n, D * r);
  vp_assert(err > -r && err < r, "less than one unit of the coarser resolution is lost");
  if (n % r == 0) { vp_assert(err == 0, "whole units are exact"); vp_reach("whole units"); }
  else vp_reach("fraction lost");
}
VP_ENTRY c08_s_ms() { c08_coarse<S0, S1>(); }
VP_ENTRY c08_s_us() { c08_coarse<S0, S2>(); }
VP_ENTRY c08_ms_us() { c08_coarse<S1, S2>(); }
// add(days, secs)
template <class S, class T> static void c08_add() {
  DT(t, S)
  long r = res<T>::f / res<S>::f;
  long dd = vp_long("days", -JMAX, JMAX), x = vp_long("x", -L62, L62);
  datetime<S> a = t.add(mjd_t{dd}, T{x});
  instant_is<S>(a, tj + dd, ts + x / r);
  vp_assert(t.mjd().as_underlying_type() == tj && t.sec().as_underlying_type() == ts, "add leaves its object unchanged");
  vp_reach("added");
}
VP_ENTRY c08_add_s_s() { c08_add<S0, S0>(); }
VP_ENTRY c08_add_ms_ms() { c08_add<S1, S1>(); }
VP_ENTRY c08_add_us_us() { c08_add<S2, S2>(); }
VP_ENTRY c08_add_s_us() { c08_add<S0, S2>(); }
VP_ENTRY c08_add_ms_us() { c08_add<S1, S2>(); }

// += an interval
template <class S> static void c08_plus() {
  DT(t, S)
  long dd = vp_long("days", -JMAX, JMAX), x = vp_long("x", 0, res<S>::day - 1);
  datetime<S> a = t;
  a += datetime_interval<S>{mjd_t{dd}, S{x}};
  instant_is<S>(a, tj + dd, ts + x);
  if (ts + x >= res<S>::day) vp_reach("past midnight"); else vp_reach("same day");
}
VP_ENTRY c08_plus_s() { c08_plus<S0>(); }
VP_ENTRY c08_plus_ms() { c08_plus<S1>(); }
VP_ENTRY c08_plus_us() { c08_plus<S2>(); }

// ---------------------------------------------------------------- C09 differences
#define DTN(N, S, DAYS) long N##j = vp_long(#N "_mjd", -DAYS, DAYS), N##s = vp_long(#N "_sec", 0, res<S>::day - 1); \
                 datetime<S> N{mjd_t{N##j}, S{N##s}};
// |difference| stays below 2^62 units of S
template <class S> struct span { static const long days = L62 / (2 * res<S>::day) - 2; };
template <class S> static void c09_sec() {
  DTN(a, S, span<S>::days) DTN(b, S, span<S>::days)
  long n = (aj - bj) * res<S>::day + (as - bs);
  vp_watch("diff", a.delta_sec(b).as_underlying_type());
  vp_assert(a.delta_sec(b).as_underlying_type() == n, "delta_sec is the exact difference");
  vp_assert(delta_sec(a, b).as_underlying_type() == n, "the free delta_sec is the exact difference");
  vp_assert(b.delta_sec(a).as_underlying_type() == -n, "delta_sec is antisymmetric");
  datetime<S> c = b;
  c.add_seconds(a.delta_sec(b));
  vp_assert(c == a, "adding the difference gives the first datetime");
  if (n < 0) vp_reach("earlier"); else vp_reach("not earlier");
}
VP_ENTRY c09_sec_s() { c09_sec<S0>(); }
VP_ENTRY c09_sec_ms() { c09_sec<S1>(); }
VP_ENTRY c09_sec_us() { c09_sec<S2>(); }
template <class A, class B, class F> static void c09_cross() {
  DTN(a, A, span<F>::days) DTN(b, B, span<F>::days)
  long n = (aj - bj) * res<F>::day + (as * (res<F>::f / res<A>::f) - bs * (res<F>::f / res<B>::f));
  F d = delta_sec(a, b), e = delta_sec(b, a);
  vp_watch("diff", d.as_underlying_type());
  vp_assert(d.as_underlying_type() == n, "delta_sec between resolutions is exact in the finer one");
  vp_assert(e.as_underlying_type() == -n, "delta_sec between resolutions is antisymmetric");
  vp_reach("difference");
}
VP_ENTRY c09_cross_s_ms() { c09_cross<S0, S1, S1>(); }
VP_ENTRY c09_cross_s_us() { c09_cross<S0, S2, S2>(); }
VP_ENTRY c09_cross_ms_us() { c09_cross<S1, S2, S2>(); }
template <class S> static void c09_date() {
  DT(a, S) DT(b, S)
  datetime_interval<S> i = a.delta_date(b), g = delta_date(a, b);
  long n = as - bs, D = res<S>::day;
  vp_watch("days", i.days().as_underlying_type());
  vp_watch("sec", i.sec().as_underlying_type());
  vp_assert(i.days().as_underlying_type() == aj - bj - (n < 0), "delta_date has the days of the difference");
  vp_assert(i.sec().as_underlying_type() == (n < 0 ? n + D : n), "delta_date has the seconds of the difference, within a day");
  vp_assert(g == i, "the free delta_date agrees");
  datetime<S> c = b;
  c += i;
  vp_assert(c == a, "adding the interval gives the first datetime");
  if (n < 0) vp_reach("borrow"); else vp_reach("no borrow");
}
VP_ENTRY c09_date_s() { c09_date<S0>(); }
VP_ENTRY c09_date_ms() { c09_date<S1>(); }
VP_ENTRY c09_date_us() { c09_date<S2>(); }
template <class S> static void c09_interval() {
  long dd = vp_long("days", -JMAX, JMAX), x = vp_long("x", -L62, L62), D = res<S>::day;
  datetime_interval<S> i{mjd_t{dd}, S{x}};
  vp_watch("days", i.days().as_underlying_type());
  vp_assert(i.days().as_underlying_type() == dd + fdiv(x, D), "an interval keeps whole days in its days");
  vp_assert(i.sec().as_underlying_type() == fmod_(x, D), "the seconds of an interval are within a day");
  DT(t, S)
  datetime<S> u = t;
  u += i;
  instant_is<S>(u, tj + i.days().as_underlying_type(), ts + i.sec().as_underlying_type());
  datetime_interval<S> z{};
  vp_assert(z.days().as_underlying_type() == 0 && z.sec().as_underlying_type() == 0, "the default interval is empty");
  vp_reach("interval");
}
VP_ENTRY c09_interval_s() { c09_interval<S0>(); }
VP_ENTRY c09_interval_ms() { c09_interval<S1>(); }
VP_ENTRY c09_interval_us() { c09_interval<S2>(); }

// ---------------------------------------------------------------- C10 ordering
template <class X> static void order(const X &a, const X &b, long aj, long as, long bj, long bs) {
  bool lt = aj < bj || (aj == bj && as < bs), eq = aj == bj && as == bs;
  vp_watch("lt", a < b);
  vp_assert((a < b) == lt, "< is the order of instants");
  vp_assert((a <= b) == (lt || eq), "<= is the order of instants");
  vp_assert((a > b) == !(lt || eq), "> is the order of instants");
  vp_assert((a >= b) == !lt, ">= is the order of instants");
  vp_assert((a == b) == eq, "== is equality of instants");
  vp_assert((a != b) == !eq, "!= is inequality of instants");
  if (lt) vp_reach("before"); else if (eq) vp_reach("equal"); else vp_reach("after");
}
template <class S> static void c10_dt() {
  DT(a, S) DT(b, S)
  order(a, b, aj, as, bj, bs);
}
VP_ENTRY c10_dt_s() { c10_dt<S0>(); }
VP_ENTRY c10_dt_ms() { c10_dt<S1>(); }
VP_ENTRY c10_dt_us() { c10_dt<S2>(); }
template <class S> static void c10_int() {
  long aj = vp_long("a_days", -JMAX, JMAX), as = vp_long("a_sec", 0, res<S>::day - 1);
  long bj = vp_long("b_days", -JMAX, JMAX), bs = vp_long("b_sec", 0, res<S>::day - 1);
  datetime_interval<S> a{mjd_t{aj}, S{as}}, b{mjd_t{bj}, S{bs}};
  order(a, b, aj, as, bj, bs);
}
VP_ENTRY c10_int_s() { c10_int<S0>(); }
VP_ENTRY c10_int_ms() { c10_int<S1>(); }
VP_ENTRY c10_int_us() { c10_int<S2>(); }
// consistent with the difference
template <class S> static void c10_diff() {
  DTN(a, S, span<S>::days) DTN(b, S, span<S>::days)
  long n = a.delta_sec(b).as_underlying_type();
  vp_watch("n", n);
  vp_assert((a < b) == (n < 0), "a datetime is earlier exactly when the difference is negative");
  vp_assert((a == b) == (n == 0), "datetimes are equal exactly when the difference is zero");
  if (n < 0) vp_reach("before"); else vp_reach("not before");
}
VP_ENTRY c10_diff_s() { c10_diff<S0>(); }
VP_ENTRY c10_diff_ms() { c10_diff<S1>(); }
VP_ENTRY c10_diff_us() { c10_diff<S2>(); }
