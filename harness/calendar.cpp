#include "vp.hpp"
#include "ref.hpp"
#include <climits>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;
static const int YMIN = -4799, YMAX = 2000000000;

// ---------------------------------------------------------------- C01 calendar -> MJD
VP_ENTRY c01_daycount() {
  int m = (int)vp_case("month", 1, 12);
  int y = vp_int("year", YMIN, YMAX);
  int d = vp_int("day", 1, 31);
  vp_assume(d <= ref_mlen(y, m));
  long j = cal2mjd(year{y}, month{m}, day_of_month{d}).as_underlying_type();
  vp_watch("mjd", j);
  vp_assert(j == ref_mjd(y, m, d), "cal2mjd counts days from 1858-11-17");
  mjd_t k{year{y}, month{m}, day_of_month{d}};
  vp_assert(k.as_underlying_type() == j, "modified_julian_day(year,month,day) agrees with cal2mjd");
  vp_reach("valid date");
}
// the day after any date has the next MJD (independent of the reference formula)
VP_ENTRY c01_successor() {
  int m = (int)vp_case("month", 1, 12);
  int y = vp_int("year", YMIN, YMAX);
  int d = vp_int("day", 1, 31);
  vp_assume(d <= ref_mlen(y, m));
  int y2 = y, m2 = m, d2 = d + 1;
  if (d2 > ref_mlen(y, m)) { d2 = 1; ++m2; }
  if (m2 > 12) { m2 = 1; ++y2; }
  long a = cal2mjd(year{y}, month{m}, day_of_month{d}).as_underlying_type();
  long b = cal2mjd(year{y2}, month{m2}, day_of_month{d2}).as_underlying_type();
  vp_watch("next", b);
  vp_assert(b == a + 1, "consecutive dates have consecutive MJDs");
  vp_reach("successor");
}
VP_ENTRY c01_epoch() {
  vp_assert(cal2mjd(year{1858}, month{11}, day_of_month{17}).as_underlying_type() == 0, "1858-11-17 is MJD 0");
  vp_assert(cal2mjd(year{1980}, month{1}, day_of_month{6}).as_underlying_type() == jan61980 && jan61980 == 44244, "1980-01-06 is MJD 44244");
  vp_assert(cal2mjd(year{1901}, month{1}, day_of_month{1}).as_underlying_type() == jan11901 && jan11901 == 15385, "1901-01-01 is MJD 15385");
  vp_assert(cal2mjd(year{-4800}, month{3}, day_of_month{1}).as_underlying_type() == ref_mjd(-4800, 3, 1), "-4800-03-01, the first date");
  vp_reach("epoch");
}

// ---------------------------------------------------------------- C02 invalid dates rejected
static int try_cal(int y, int m, int d, long &j) {
  try {
    j = cal2mjd(year{y}, month{m}, day_of_month{d}).as_underlying_type();
    return 0;
  } catch (const std::out_of_range &) {
    return 1;
  } catch (...) {
    return 2;
  }
}
VP_ENTRY c02_cal2mjd() {
  int y = vp_int("year", -4800, INT_MAX), m = vp_int("month", INT_MIN, INT_MAX), d = vp_int("day", INT_MIN, INT_MAX);
  bool ok = ref_valid(y, m, d);
  long j = 0;
  int r = try_cal(y, m, d, j);
  vp_watch("outcome", r);
  vp_assert(r == (ok ? 0 : 1), "cal2mjd throws std::out_of_range exactly on invalid dates");
  if (ok) vp_reach("accepted"); else vp_reach("rejected");
}
VP_ENTRY c02_mjd_ctor() {
  int y = vp_int("year", -4800, INT_MAX), m = vp_int("month", INT_MIN, INT_MAX), d = vp_int("day", INT_MIN, INT_MAX);
  bool ok = ref_valid(y, m, d);
  int r;
  try {
    mjd_t j{year{y}, month{m}, day_of_month{d}};
    vp_watch("mjd", j.as_underlying_type() > 0);
    r = 0;
  } catch (const std::out_of_range &) {
    r = 1;
  } catch (...) {
    r = 2;
  }
  vp_assert(r == (ok ? 0 : 1), "modified_julian_day(year,month,day) throws exactly on invalid dates");
  if (ok) vp_reach("accepted"); else vp_reach("rejected");
}
template <class S, int K> static void c02_dt() {
  int y = vp_int("year", -4800, INT_MAX), m = vp_int("month", INT_MIN, INT_MAX), d = vp_int("day", INT_MIN, INT_MAX);
  bool ok = ref_valid(y, m, d);
  int r = 0;
  try {
    if (K == 0) { datetime<S> t{year{y}, month{m}, day_of_month{d}, S{5}}; vp_watch("sec", t.sec_as_i()); }
    if (K == 1) { datetime<S> t{year{y}, month{m}, day_of_month{d}, hours{1}, minutes{2}, S{3}}; vp_watch("sec", t.sec_as_i()); }
    if (K == 2) { datetime<S> t{year{y}, month{m}, day_of_month{d}, hours{1}, minutes{2}, 3.5}; vp_watch("sec", t.sec_as_i()); }
    if (K == 3) { datetime<S> t{year{y}, month{m}, day_of_month{d}}; vp_watch("sec", t.sec_as_i()); }
  } catch (const std::out_of_range &) {
    r = 1;
  } catch (...) {
    r = 2;
  }
  vp_assert(r == (ok ? 0 : 1), "datetime constructors throw exactly on invalid dates");
  if (ok) vp_reach("accepted"); else vp_reach("rejected");
}
VP_ENTRY c02_dt_s_sec() { c02_dt<seconds, 0>(); }
VP_ENTRY c02_dt_s_hms() { c02_dt<seconds, 1>(); }
VP_ENTRY c02_dt_s_dbl() { c02_dt<seconds, 2>(); }
VP_ENTRY c02_dt_s_def() { c02_dt<seconds, 3>(); }
VP_ENTRY c02_dt_ms_sec() { c02_dt<milliseconds, 0>(); }
VP_ENTRY c02_dt_ms_hms() { c02_dt<milliseconds, 1>(); }
VP_ENTRY c02_dt_us_dbl() { c02_dt<microseconds, 2>(); }
VP_ENTRY c02_dt_us_def() { c02_dt<microseconds, 3>(); }
template <class S, class T, int K> static void c02_dtx() {
  int y = vp_int("year", -4800, INT_MAX), m = vp_int("month", INT_MIN, INT_MAX), d = vp_int("day", INT_MIN, INT_MAX);
  bool ok = ref_valid(y, m, d);
  int r = 0;
  try {
    if (K == 0) { datetime<S> t{year{y}, month{m}, day_of_month{d}, T{5000000}}; vp_watch("sec", t.sec_as_i()); }
    else { datetime<S> t{year{y}, month{m}, day_of_month{d}, hours{1}, minutes{2}, T{5000000}}; vp_watch("sec", t.sec_as_i()); }
  } catch (const std::out_of_range &) {
    r = 1;
  } catch (...) {
    r = 2;
  }
  vp_assert(r == (ok ? 0 : 1), "datetime constructors throw exactly on invalid dates");
  if (ok) vp_reach("accepted"); else vp_reach("rejected");
}
VP_ENTRY c02_dtx_s_ms() { c02_dtx<seconds, milliseconds, 0>(); }
VP_ENTRY c02_dtx_ms_us() { c02_dtx<milliseconds, microseconds, 1>(); }

// ---------------------------------------------------------------- C03 MJD -> calendar
static const long MJD0 = -2431000L;        // year -4797
VP_ENTRY c03_roundtrip() {
  long j = vp_tier() ? vp_split("mjd", MJD0, 3000000000L, 64) : vp_split("mjd", -678941L, 2973483L, 8);
  ymd_date q = mjd_t{j}.to_ymd();
  int y = q.__year.as_underlying_type(), m = q.__month.as_underlying_type(), d = q.__dom.as_underlying_type();
  vp_watch("y", y); vp_watch("m", m); vp_watch("d", d);
  vp_assert(m >= 1 && m <= 12, "to_ymd yields a month");
  vp_assert(ref_valid(y, m, d), "to_ymd yields a valid date");
  vp_assert(q.is_valid(), "to_ymd yields a date is_valid accepts");
  vp_assert(ref_mjd(y, m, d) == j, "to_ymd yields the date of the MJD");
  vp_reach("converted");
}
VP_ENTRY c03_cal2mjd_back() {
  long j = vp_split("mjd", -678941L, 2973483L, 8);
  ymd_date q = mjd_t{j}.to_ymd();
  long k = cal2mjd(q.__year, q.__month, q.__dom).as_underlying_type();
  vp_watch("back", k);
  vp_assert(k == j, "cal2mjd(to_ymd(mjd)) == mjd");
  vp_reach("back");
}
// the calendar repeats every 400 years: far dates are those of the years 0..399 (decided above), moved
VP_ENTRY c03_eras() {
  long r = vp_long("day_of_era", 0, 146096L);
  long e = vp_long("era", -10, 5000000L);
  ymd_date p = mjd_t{r - 678941L}.to_ymd(), q = mjd_t{r + 146097L * e - 678941L}.to_ymd();
  vp_watch("year", q.__year.as_underlying_type());
  vp_assert(q.__year.as_underlying_type() == p.__year.as_underlying_type() + 400 * e, "400 years later the year is 400 more");
  vp_assert(q.__month == p.__month, "400 years later it is the same month");
  vp_assume(q.__month == p.__month);
  vp_assert(q.__dom == p.__dom, "400 years later it is the same day of the month");
  vp_reach("moved");
}
// the date a datetime reports, at any time of day
template <class S> static void datetime_date() {
  long j = vp_long("mjd", -2431000L, 730000000000L), u = vp_long("units", 0, S::max_in_day - 1);
  datetime<S> t{mjd_t{j}, S{u}};
  ymd_date q = t.as_ymd(), p = mjd_t{j}.to_ymd();
  vp_watch("y", q.__year.as_underlying_type());
  vp_assert(q.__year == p.__year && q.__month == p.__month && q.__dom == p.__dom, "datetime::as_ymd is the date of its day");
  vp_reach("datetime");
}
VP_ENTRY c03_datetime_s() { datetime_date<seconds>(); }
VP_ENTRY c03_datetime_ms() { datetime_date<milliseconds>(); }
VP_ENTRY c03_datetime_us() { datetime_date<microseconds>(); }

// ---------------------------------------------------------------- C04 day of year
VP_ENTRY c04_ydoy2mjd() {
  int y = vp_int("year", YMIN, YMAX);
  int k = vp_int("doy", 1, 366);
  vp_assume(k <= 365 + ref_leap(y));
  long j = ydoy2mjd(year{y}, day_of_year{k}).as_underlying_type();
  vp_watch("mjd", j);
  vp_assert(j == ref_jan1(y) + k - 1, "ydoy2mjd counts days from January 1st");
  vp_assert(mjd_t(year{y}, day_of_year{k}).as_underlying_type() == j, "modified_julian_day(year,doy) agrees");
  vp_reach("valid");
}
VP_ENTRY c04_to_ydoy() {
  long j = vp_tier() ? vp_split("mjd", MJD0, 3000000000L, 64) : vp_split("mjd", -678941L, 2973483L, 12);
  ydoy_date q = mjd_t{j}.to_ydoy();
  int y = q.__year.as_underlying_type(), k = q.__doy.as_underlying_type();
  vp_watch("y", y); vp_watch("doy", k);
  vp_assert(k >= 1 && k <= 365 + ref_leap(y), "to_ydoy yields a valid day of year");
  vp_assert(q.is_valid(), "to_ydoy yields a date is_valid accepts");
  vp_assert(ref_jan1(y) + k - 1 == j, "to_ydoy yields the date of the MJD");
  datetime<seconds> t{mjd_t{j}, seconds{0}};
  ydoy_date p = t.as_ydoy();
  vp_assert(p.__year == q.__year && p.__doy == q.__doy, "datetime::as_ydoy agrees");
  vp_reach("converted");
}
// the same day as the calendar date (C03), whose day of year c04_ymd_to_ydoy decides for every year
VP_ENTRY c04_eras() {
  long j = vp_long("mjd", MJD0, 730000000000L);
  ydoy_date q = mjd_t{j}.to_ydoy(), p = mjd_t{j}.to_ymd().to_ydoy();
  vp_watch("year", q.__year.as_underlying_type());
  vp_assert(q.__year == p.__year && q.__doy == p.__doy, "to_ydoy is the day of year of the calendar date");
  vp_reach("moved");
}
template <class S> static void datetime_doy() {
  long j = vp_long("mjd", -2431000L, 730000000000L), u = vp_long("units", 0, S::max_in_day - 1);
  datetime<S> t{mjd_t{j}, S{u}};
  ydoy_date q = t.as_ydoy(), p = mjd_t{j}.to_ydoy();
  vp_watch("y", q.__year.as_underlying_type());
  vp_assert(q.__year == p.__year && q.__doy == p.__doy, "datetime::as_ydoy is the day of year of its day");
  vp_reach("datetime");
}
VP_ENTRY c04_datetime_s() { datetime_doy<seconds>(); }
VP_ENTRY c04_datetime_ms() { datetime_doy<milliseconds>(); }
VP_ENTRY c04_datetime_us() { datetime_doy<microseconds>(); }
VP_ENTRY c04_ymd_to_ydoy() {
  int m = (int)vp_case("month", 1, 12);
  int y = vp_int("year", INT_MIN, INT_MAX), d = vp_int("day", 1, 31);
  vp_assume(d <= ref_mlen(y, m));
  ydoy_date q = ymd_date{year{y}, month{m}, day_of_month{d}}.to_ydoy();
  vp_watch("doy", q.__doy.as_underlying_type());
  vp_assert(q.__year.as_underlying_type() == y, "to_ydoy keeps the year");
  vp_assert(q.__doy.as_underlying_type() == ref_mstart(y, m) + d, "to_ydoy adds the days of the months before");
  vp_reach("converted");
}
VP_ENTRY c04_ydoy_to_ymd() {
  int y = vp_int("year", INT_MIN, INT_MAX);
  int k = (int)vp_split("doy", 1, 366, 61);
  vp_assume(k <= 365 + ref_leap(y));
  ymd_date q = ydoy_date{year{y}, day_of_year{k}}.to_ymd();
  int m = q.__month.as_underlying_type(), d = q.__dom.as_underlying_type();
  vp_watch("m", m); vp_watch("d", d);
  vp_assert(q.__year.as_underlying_type() == y, "to_ymd keeps the year");
  vp_assert(ref_valid(y, m, d), "to_ymd of a day of year is a valid date");
  vp_assert(ref_mstart(y, m) + d == k, "to_ymd of a day of year is that day");
  vp_reach("converted");
}

// ---------------------------------------------------------------- C05 predicates
VP_ENTRY c05_leap() {
  int y = vp_int("year", INT_MIN, INT_MAX);
  bool a = is_leap(y), b = year{y}.is_leap();
  vp_watch("leap", a);
  vp_assert(a == ref_leap(y), "is_leap(int) is the Gregorian rule");
  vp_assert(b == ref_leap(y), "year::is_leap is the Gregorian rule");
  vp_reach("leap rule");
}
VP_ENTRY c05_dom() {
  int y = vp_int("year", INT_MIN, INT_MAX), m = vp_int("month", INT_MIN, INT_MAX), d = vp_int("day", INT_MIN, INT_MAX);
  bool ok = ref_valid(y, m, d);
  bool a = day_of_month{d}.is_valid(year{y}, month{m}), b = ymd_date{year{y}, month{m}, day_of_month{d}}.is_valid();
  vp_watch("valid", a);
  vp_assert(a == ok, "day_of_month::is_valid accepts exactly the days of the month");
  vp_assert(b == ok, "ymd_date::is_valid accepts exactly the calendar dates");
  vp_assert(month{m}.is_valid() == (m >= 1 && m <= 12), "month::is_valid accepts exactly 1..12");
  if (ok) vp_reach("valid"); else vp_reach("invalid");
}
VP_ENTRY c05_doy() {
  int y = vp_int("year", INT_MIN, INT_MAX), k = vp_int("doy", INT_MIN, INT_MAX);
  bool ok = k >= 1 && k <= 365 + ref_leap(y);
  bool a = day_of_year{k}.is_valid(year{y}), b = ydoy_date{year{y}, day_of_year{k}}.is_valid();
  vp_watch("valid", a);
  vp_assert(a == ok, "day_of_year::is_valid accepts exactly the days of the year");
  vp_assert(b == ok, "ydoy_date::is_valid accepts exactly the days of the year");
  if (ok) vp_reach("valid"); else vp_reach("invalid");
}
VP_ENTRY c05_week() {
  long w = vp_long("week", LONG_MIN, LONG_MAX);
  bool a = gps_week{w}.is_valid();
  vp_watch("valid", a);
  vp_assert(a == (w >= 0), "gps_week::is_valid accepts exactly the non-negative weeks");
  vp_reach("week");
}
