#include "vp.hpp"
#include "ref.hpp"
#include <climits>
#include <cmath>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;
typedef seconds S0;
typedef milliseconds S1;
typedef microseconds S2;
template <class S> struct res;
template <> struct res<seconds> { static const long f = 1, day = 86400L; };
template <> struct res<milliseconds> { static const long f = 1000, day = 86400000L; };
template <> struct res<microseconds> { static const long f = 1000000, day = 86400000000L; };
static double mag(double x) { return x < 0 ? -x : x; }

// ---------------------------------------------------------------- C15 floating-point views
template <class S> static void c15_fraction() {
  long D = res<S>::day;
  long m = vp_binades("m", 0, D - 1, D);
  double x = S{m}.fractional_days();
  double back = x * (double)D;
  vp_assert(x >= 0. && x < 1., "the fraction of a time of day is in [0,1)");
  vp_assert(mag(back - (double)m) <= 1e-4, "the fraction scaled back is the time of day");
  vp_watch("back", (long)(back + 0.5));
  vp_reach("fraction");
}
VP_ENTRY c15_fraction_s() { c15_fraction<S0>(); }
VP_ENTRY c15_fraction_ms() { c15_fraction<S1>(); }
VP_ENTRY c15_fraction_us() { c15_fraction<S2>(); }
template <class S> static void c15_fsec() {
  long D = res<S>::day;
  long m = vp_binades("m", 0, D - 1, res<S>::f);
  double x = S{m}.to_fractional_seconds();
  double back = x * (double)res<S>::f;
  vp_assert(mag(back - (double)m) <= 1e-4, "fractional seconds scaled back are the units");
  vp_watch("back", (long)(back + 0.5));
  vp_reach("seconds");
}
VP_ENTRY c15_fsec_s() { c15_fsec<S0>(); }
VP_ENTRY c15_fsec_ms() { c15_fsec<S1>(); }
VP_ENTRY c15_fsec_us() { c15_fsec<S2>(); }
// any amount, negative ones too, to the precision of a double
template <class S> static void c15_far() {
  long D = res<S>::day;
  const long M = 1000000000000000L;
  long m = vp_binades("m", 1, M, res<S>::f);
  if (vp_case("neg", 0, 1)) m = -m;
  double x = S{m}.fractional_days() * (double)D, y = S{m}.to_fractional_seconds() * (double)res<S>::f;
  double tol = (double)(m < 0 ? -m : m) * 0x1p-50;
  vp_assert(mag(x - (double)m) <= tol, "the fraction of a day scaled back is the time");
  vp_assert(mag(y - (double)m) <= tol, "fractional seconds scaled back are the units");
  vp_watch("x", (long)x / 1024);
  vp_reach("far");
}
VP_ENTRY c15_far_s() { c15_far<S0>(); }
VP_ENTRY c15_far_ms() { c15_far<S1>(); }
VP_ENTRY c15_far_us() { c15_far<S2>(); }
VP_ENTRY c15_resolve() {
  long m = vp_long("m", -1000000000000000L, 1000000000000000L);
  double fr = -1;
  seconds s = S1{m}.resolve_sec(fr);
  vp_watch("s", s.as_underlying_type());
  vp_assert(s.as_underlying_type() == m / 1000, "resolve_sec returns the whole seconds");
  vp_assert(mag(fr * 1000. - (double)(m % 1000)) <= 1e-9, "resolve_sec leaves the fraction of a second");
  vp_reach("resolved");
}
VP_ENTRY c15_julian() {
  long j = vp_binades("mjd", -100000000L, 100000000L, 1);
  double x = mjd_t{j}.to_julian_day();
  vp_assert(x - 2400000.5 == (double)j, "the Julian date is the MJD plus 2400000.5");
  vp_watch("j", (long)(x - 0.5));
  vp_reach("julian");
}
// day + fraction to the precision of a double
template <class S> static void c15_mjd() {
  long D = res<S>::day;
  long j = vp_binades("day", -1000000000000L, 1000000000000L, 1);
  long m = vp_long("m", 0, D - 1);
  datetime<S> t{mjd_t{j}, S{m}};
  datetime_interval<S> i{mjd_t{j}, S{m}};
  double v = t.as_mjd(), u = i.as_mjd();
  double back = (v - (double)j) * (double)D;
  long ulp = 1;                                    // of the day, times 2^52
  for (int k = 1; k < 41; ++k) if ((j < 0 ? -j : j) >> k >= 1) ulp *= 2;
  vp_assert(mag(back - (double)m) <= 1e-4 + (double)D * (double)ulp * 0x1p-51, "as_mjd is the day plus the fraction of the day");
  vp_assert(u == v, "datetime and datetime_interval agree");
  vp_watch("day", (long)v);
  vp_reach("mjd");
}
VP_ENTRY c15_mjd_s() { c15_mjd<S0>(); }
VP_ENTRY c15_mjd_ms() { c15_mjd<S1>(); }
VP_ENTRY c15_mjd_us() { c15_mjd<S2>(); }

// ---------------------------------------------------------------- C16 dividing an interval
// every divisor below 64, and some larger ones with names of their own
static const int DIVISORS[] = {100, 365, 366, 1000, 1024, 1440, 3600, 65535, 65536, 86399, 86400, 86401, 1000000, 1000003, 86400000,
  999999937, INT_MAX};
static int divisor() {
  const int n = sizeof DIVISORS / sizeof *DIVISORS;
  long i = vp_case("div", 1, 63 + n);
  return i < 64 ? (int)i : DIVISORS[i - 64];
}
typedef __int128 wide;
static const wide LM = (wide)LONG_MAX;
template <class S> static void c16_div() {
  long D = res<S>::day;
  long q = divisor();
  int g = (int)vp_case("neg", 0, q == INT_MAX ? 2 : 1);
  if (g) q = -q - (g - 1);
  // the days of the quotient, if need be with the 1 from normalising, fit
  long d = vp_long("days", -LONG_MAX, LONG_MAX - 1), m = vp_long("m", 0, D - 1);
  datetime_interval<S> i{mjd_t{d}, S{m}}, r = i / (int)q;
  long rd = r.days().as_underlying_type(), rs = r.sec().as_underlying_type();
  vp_watch("days", rd); vp_watch("sec", rs);
  vp_assert(rs >= 0 && rs < D, "the quotient is normalised");
  wide n = (wide)d * D + m, k = (wide)rd * D + rs;
  wide e = n - k * q;
  long a = q < 0 ? -q : q;
  vp_assert(e > -a && e < a, "the quotient is within one unit of the exact one");
  vp_reach("divided");
}
VP_ENTRY c16_div_s() { c16_div<S0>(); }
VP_ENTRY c16_div_ms() { c16_div<S1>(); }
VP_ENTRY c16_div_us() { c16_div<S2>(); }
template <class S> static void c16_exact() {
  long D = res<S>::day;
  long q = divisor();
  int g = (int)vp_case("neg", 0, q == INT_MAX ? 2 : 1);
  if (g) q = -q - (g - 1);
  long lim = 4000000000000000000L / (q < 0 ? -q : q);
  long k = vp_long("k", -lim, lim);
  long n = k * q;
  datetime_interval<S> i{mjd_t{fdiv(n, D)}, S{fmod_(n, D)}}, r = i / (int)q;
  vp_watch("days", r.days().as_underlying_type());
  vp_assert(r.days().as_underlying_type() == fdiv(k, D) && r.sec().as_underlying_type() == fmod_(k, D), "dividing a multiple is exact");
  vp_reach("multiple");
}
VP_ENTRY c16_exact_s() { c16_exact<S0>(); }
VP_ENTRY c16_exact_ms() { c16_exact<S1>(); }
VP_ENTRY c16_exact_us() { c16_exact<S2>(); }

// every divisor from 64 on: products and quotients of variables, in nonlinear integer arithmetic
template <class S> static void c16_any() {
  long D = res<S>::day;
  int g = (int)vp_case("neg", 0, 1);
  long q = vp_binades("div", 64, g ? -(long)INT_MIN : INT_MAX, 1);
  if (g) q = -q;
  long d = vp_long("days", -LONG_MAX, LONG_MAX - 1), m = vp_long("m", 0, D - 1);
  datetime_interval<S> i{mjd_t{d}, S{m}}, r = i / (int)q;
  long rd = r.days().as_underlying_type(), rs = r.sec().as_underlying_type();
  vp_watch("days", rd); vp_watch("sec", rs);
  vp_assert(rs >= 0 && rs < D, "the quotient is normalised");
  wide n = (wide)d * D + m, k = (wide)rd * D + rs;
  wide e = n - k * q;
  long a = q < 0 ? -q : q;
  vp_assert(e > -a && e < a, "the quotient is within one unit of the exact one");
  vp_reach("divided");
}
VP_ENTRY c16_any_s() { c16_any<S0>(); }
VP_ENTRY c16_any_ms() { c16_any<S1>(); }
VP_ENTRY c16_any_us() { c16_any<S2>(); }

// ---------------------------------------------------------------- C17 fractional seconds given as a double
template <class S> static void c17_units() {
  long f = res<S>::f;
  long k = vp_binades("k", 0, 86400 * f - 1, f);
  double fs = (double)k / (double)f;               // the double nearest to k units
  S s{hours{0}, minutes{0}, fs};
  vp_watch("s", s.as_underlying_type());
  vp_assert(s.as_underlying_type() == k, "seconds with the decimals of the resolution are kept exactly");
  int h = vp_int("h", -1000000, 1000000), m = vp_int("m", -60000000, 60000000);
  S t{hours{h}, minutes{m}, fs};
  vp_assert(t.as_underlying_type() == s.as_underlying_type() + (h * 3600L + m * 60L) * f, "hours and minutes are added");
  vp_reach("built");
}
VP_ENTRY c17_units_s() { c17_units<S0>(); }
VP_ENTRY c17_units_ms() { c17_units<S1>(); }
VP_ENTRY c17_units_us() { c17_units<S2>(); }
// the same with a minus sign
template <class S> static void c17_negative() {
  long f = res<S>::f;
  long k = vp_binades("k", 1, 86400 * f - 1, f);
  S s{hours{0}, minutes{0}, -((double)k / (double)f)};
  vp_watch("s", s.as_underlying_type());
  vp_assert(s.as_underlying_type() == -k, "negative seconds with the decimals of the resolution are kept exactly");
  vp_reach("built");
}
VP_ENTRY c17_negative_s() { c17_negative<S0>(); }
VP_ENTRY c17_negative_ms() { c17_negative<S1>(); }
VP_ENTRY c17_negative_us() { c17_negative<S2>(); }
// any other value: less than one unit is lost
template <class S> static void c17_any() {
  long f = res<S>::f;
  long k = vp_binades("k", 0, 100000000000L, 1000000000L);         // nanoseconds up to 100 s
  double fs = (double)k / 1e9;
  S s{hours{0}, minutes{0}, fs};
  long n = s.as_underlying_type();
  vp_watch("n", n);
  vp_assert(n * (1000000000L / f) <= k && k < (n + 1) * (1000000000L / f), "the seconds are cut to the resolution");
  vp_reach("built");
}
VP_ENTRY c17_any_s() { c17_any<S0>(); }
VP_ENTRY c17_any_ms() { c17_any<S1>(); }
VP_ENTRY c17_any_us() { c17_any<S2>(); }
// long times: as far as a double can tell the units apart
template <class S> static void c17_long() {
  long f = res<S>::f;
  long k = vp_binades("k", 0, f == 1000000 ? 100000000000000L : 4000000000000L, f);
  double fs = (double)k / (double)f;
  S s{hours{0}, minutes{0}, fs};
  vp_watch("s", s.as_underlying_type());
  vp_assert(s.as_underlying_type() == k, "seconds with the decimals of the resolution are kept exactly");
  vp_reach("built");
}
VP_ENTRY c17_long_s() { c17_long<S0>(); }
VP_ENTRY c17_long_ms() { c17_long<S1>(); }
VP_ENTRY c17_long_us() { c17_long<S2>(); }
template <class S> static void c17_dt() {
  long f = res<S>::f;
  long k = vp_binades("k", 0, 60 * f - 1, f);
  double fs = (double)k / (double)f;
  int h = vp_int("h", -1000000, 1000000), mi = vp_int("min", -60000000, 60000000);
  int y = vp_int("y", -4799, 1000000), mo = vp_int("mo", 1, 12), d = vp_int("d", 1, 31), k2 = vp_int("doy", 1, 366);
  vp_assume(ref_valid(y, mo, d) && k2 <= 365 + ref_leap(y));
  datetime<S> a{year{y}, month{mo}, day_of_month{d}, hours{h}, minutes{mi}, fs}, b{year{y}, day_of_year{k2}, hours{h}, minutes{mi}, fs};
  // from whole units (decided under C07)
  datetime<S> c{year{y}, month{mo}, day_of_month{d}, hours{h}, minutes{mi}, S{k}}, e{year{y}, day_of_year{k2}, hours{h}, minutes{mi}, S{k}};
  vp_watch("s", a.sec_as_i());
  vp_assert(a == c, "a datetime from a date and decimal seconds is exact");
  vp_assert(b == e, "a datetime from a day of year and decimal seconds is exact");
  vp_reach("built");
}
VP_ENTRY c17_dt_s() { c17_dt<S0>(); }
VP_ENTRY c17_dt_ms() { c17_dt<S1>(); }
VP_ENTRY c17_dt_us() { c17_dt<S2>(); }
