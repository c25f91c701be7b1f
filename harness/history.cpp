// C23: the result of a call depends on its arguments alone.
#include "vp.hpp"
#include "ref.hpp"
#include <climits>
#include <cstring>
#include <stdexcept>
#include <string>
#include <tuple>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_read.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;
static long N(mjd_t x) { return x.as_underlying_type(); }
static void put(long *&o, ymd_date q) { *o++ = q.__year.as_underlying_type(); *o++ = q.__month.as_underlying_type(); *o++ = q.__dom.as_underlying_type(); }
static void put(long *&o, ydoy_date q) { *o++ = q.__year.as_underlying_type(); *o++ = q.__doy.as_underlying_type(); }
template <class S> static void put(long *&o, const datetime<S> &t) { *o++ = N(t.mjd()); *o++ = t.sec().as_underlying_type(); }

// f(a) as the first call of a process, and f(a) after a, b and c: the same
static void same(void (*f)(const long *, long *), const long *a, void (*g)(const long *, long *), const long *b, const long *c) {
  long x[VP_ARGS] = {0}, y[VP_ARGS] = {0}, z[VP_ARGS] = {0};
  vp_fresh(f, a, x);
  f(b, z);
  g(c, z);
  f(a, y);
  bool eq = true;
  for (int i = 0; i < VP_ARGS; ++i) eq = eq & (x[i] == y[i]);
  vp_watch("first", y[0]);
  vp_watch("second", y[1]);
  vp_assert(eq, "the same arguments give the same result, whatever was called before");
  vp_reach("repeated");
}

// ---------------------------------------------------------------- the calendar
template <int WHAT> static void calendar(const long *a, long *o) {
  const year y{(int)a[0]};
  const month m{(int)a[1]};
  const day_of_month d{(int)a[2]};
  const day_of_year k{(int)a[3]};
  const mjd_t j{a[4]};
  try {
    switch (WHAT) {
      case 0: *o = N(cal2mjd(y, m, d)); break;
      case 1: *o = N(ydoy2mjd(y, k)); break;
      case 2: put(o, j.to_ymd()); break;
      case 3: put(o, j.to_ydoy()); break;
      case 4: put(o, ymd_date{y, m, d}.to_ydoy()); break;
      case 5: put(o, ydoy_date{y, k}.to_ymd()); break;
      case 6: *o = dat(y, m); break;
      case 7: *o = dat(j); break;
      case 8:
        *o++ = y.is_leap(); *o++ = d.is_valid(y, m); *o++ = k.is_valid(y); *o++ = m.is_valid();
        *o++ = ymd_date{y, m, d}.is_valid(); *o++ = ydoy_date{y, k}.is_valid();
        break;
      case 9: put(o, datetime<milliseconds>{y, m, d, hours{(int)a[5]}, minutes{(int)a[6]}, milliseconds{a[7]}}); break;
      case 10: put(o, datetime<microseconds>{y, k, microseconds{a[7]}}); break;
      default: *o++ = dat(datetime<seconds>{j, seconds{a[7]}}); put(o, datetime<seconds>{j, seconds{a[7]}}.as_ymd()); break;
    }
  } catch (const std::out_of_range &) {
    o[30] = 1;
  }
}
static void any_date(long *a, int f) {
  a[0] = vp_long("year", f == 6 ? 1972 : 1600, 2400);       // leap seconds begin in 1972
  a[1] = vp_long("month", 1, 12);
  a[2] = vp_long("day", 1, 31);
  a[3] = vp_long("doy", 1, 366);
  vp_assume(a[3] <= 365 || ref_leap(a[0]));
  a[4] = vp_long("mjd", f == 7 || f == 11 ? 41317 + 20000 : -20000, 300000);
  a[5] = vp_long("hours", 0, 100);
  a[6] = vp_long("minutes", 0, 1000);
  a[7] = vp_long("units", -1000000000L, 1000000000L);
}
typedef void (*fun)(const long *, long *);
static const fun CAL[] = {calendar<0>, calendar<1>, calendar<2>, calendar<3>, calendar<4>, calendar<5>, calendar<6>, calendar<7>, calendar<8>, calendar<9>, calendar<10>, calendar<11>};
VP_ENTRY c23_calendar() {
  int f = (int)vp_case("call", 0, 11), g = (int)vp_case("between", 0, 11);
  long a[VP_ARGS] = {0}, b[VP_ARGS] = {0}, c[VP_ARGS] = {0};
  any_date(a, f); any_date(b, f); any_date(c, g);
  same(CAL[f], a, CAL[g], b, c);
}

// ---------------------------------------------------------------- arithmetic and views
template <class S, int WHAT> static void arith(const long *a, long *o) {
  const datetime<S> t{mjd_t{a[0]}, S{a[1]}}, u{mjd_t{a[2]}, S{a[3]}};
  const datetime_interval<S> p{mjd_t{a[4]}, S{a[5]}}, q{mjd_t{a[2]}, S{a[3]}};
  switch (WHAT) {
    case 0: { datetime<S> x = t; x.add_seconds(S{a[5]}); put(o, x); x.remove_seconds(milliseconds{a[3]}); put(o, x); x += p; put(o, x); put(o, t.add(mjd_t{a[4]}, S{a[5]})); break; }
    case 1: *o++ = t.delta_sec(u).as_underlying_type(); *o++ = N(t.delta_date(u).days()); *o++ = t.delta_date(u).sec().as_underlying_type(); break;
    case 2: *o++ = (t < u) + 2 * (t == u) + 4 * (t >= u) + 8 * (t > u) + 16 * (t <= u) + 32 * (t != u); *o++ = (p < q) + 2 * (p == q) + 4 * (p >= q) + 8 * (p > q) + 16 * (p <= q) + 32 * (p != q); break;
    case 3: put(o, t.template cast_to<seconds>()); put(o, t.template cast_to<milliseconds>()); put(o, t.template cast_to<microseconds>()); break;
    case 4: { S sow{0}; *o++ = t.as_gps_wsow(sow).as_underlying_type(); *o++ = sow.as_underlying_type(); long s = 0; *o++ = t.as_gps_wsow(s).as_underlying_type(); *o++ = s; put(o, datetime<S>{gps_week{a[2]}, S{a[3]}}); *o++ = day_of_week(sow); break; }
    case 5: { auto h = S{a[1]}.to_hmsf(); *o++ = std::get<0>(h).as_underlying_type(); *o++ = std::get<1>(h).as_underlying_type(); *o++ = std::get<2>(h).as_underlying_type(); *o++ = std::get<3>(h);
      S x{a[3]}; *o++ = x.to_days(); *o++ = x.remove_days(); *o++ = x.as_underlying_type(); break; }
    case 6: *o++ = (long)(t.as_mjd() * 1024); *o++ = (long)(S{a[1]}.fractional_days() * 1e6); *o++ = (long)(S{a[1]}.to_fractional_seconds() * 1024); *o++ = (long)(mjd_t{a[0]}.to_julian_day() * 2); break;
    default: { datetime_interval<S> r = p / (int)a[6]; *o++ = N(r.days()); *o++ = r.sec().as_underlying_type(); break; }
  }
}
static void any_time(long *a) {
  a[0] = vp_long("day", -1000000, 1000000);
  a[1] = vp_long("time", 0, 86399999);
  a[2] = vp_long("day2", -1000000, 1000000);
  a[3] = vp_long("time2", -100000000000L, 100000000000L);
  a[4] = vp_long("days", -1000000, 1000000);
  a[5] = vp_long("amount", -100000000000L, 100000000000L);
  a[6] = 7;
}
template <class S> static void c23_arith() {
  static const fun F[] = {arith<S, 0>, arith<S, 1>, arith<S, 2>, arith<S, 3>, arith<S, 4>, arith<S, 5>, arith<S, 6>, arith<S, 7>};
  int f = (int)vp_case("call", 0, 7), g = (int)vp_case("between", 0, 7);
  long a[VP_ARGS] = {0}, b[VP_ARGS] = {0}, c[VP_ARGS] = {0};
  any_time(a); any_time(b); any_time(c);
  same(F[f], a, F[g], b, c);
}
VP_ENTRY c23_arith_s() { c23_arith<seconds>(); }
VP_ENTRY c23_arith_ms() { c23_arith<milliseconds>(); }
VP_ENTRY c23_arith_us() { c23_arith<microseconds>(); }

// ---------------------------------------------------------------- reading
template <int WHAT> static void reading(const long *a, long *o) {
  char s[VP_ARGS];
  for (int i = 0; i < VP_ARGS; ++i) s[i] = (char)a[i];
  try {
    char *stop = nullptr;
    switch (WHAT) {
      case 0: put(o, strptime_ymd<seconds>(s, &stop)); break;
      case 1: put(o, strptime_ydoy<milliseconds>(s, &stop)); break;
      case 2: put(o, strptime_ymd_hms<microseconds>(s, &stop)); break;
      case 3: put(o, strptime_yod_hms<milliseconds>(s, &stop)); break;
      case 4: put(o, strptime_ydoy_hms<seconds>(s, &stop)); break;
      default: *o++ = month{s}.as_underlying_type(); s[0] = month{s}.short_name()[0]; *o++ = s[0]; *o++ = month{s}.long_name()[2]; break;
    }
    *o++ = stop ? stop - s : -1;
  } catch (const std::invalid_argument &) {
    o[30] = 1;
  } catch (const std::out_of_range &) {
    o[30] = 2;
  }
}
static void any_text(long *a, int kind) {
  static const char *const T[6] = {"####-11-##", "####-###", "####-02-## ##:##:##", "####-Mar-## ##:##:##", "####-### ##:##:##", "#eb"};
  static const char *const M[4] = {"Feb", "feb", "xeb", "Fe"};
  const char *t = kind == 5 ? M[vp_case("name", 0, 3)] : T[kind];
  if (kind == 3 && vp_case("cut", 0, 1)) t = "####-Ma-## ##:##:##";
  for (; *t; ++t) *a++ = *t == '#' ? '0' + vp_long("digit", 0, 9) : *t;
}
VP_ENTRY c23_reading() {
  static const fun F[] = {reading<0>, reading<1>, reading<2>, reading<3>, reading<4>, reading<5>};
  int f = (int)vp_case("call", 0, 5), g = (int)vp_case("between", 0, 5);
  long a[VP_ARGS] = {0}, b[VP_ARGS] = {0}, c[VP_ARGS] = {0};
  any_text(a, f); any_text(b, f); any_text(c, g);
  same(F[f], a, F[g], b, c);
}
