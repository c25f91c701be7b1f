#include "vp.hpp"
#include "ref.hpp"
#include <climits>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;

// IERS Bulletin C: TAI-UTC after each introduction, as (year, half) with half 1 = July 1st
static int ref_dat(long y, int m) {
  int n = 10;                       // 1972-01-01
  long h = 2 * y + (m >= 7);        // half-years
#define STEP(Y, J) if (h >= 2L * Y + J) ++n;
  STEP(1972, 1) STEP(1973, 0) STEP(1974, 0) STEP(1975, 0) STEP(1976, 0) STEP(1977, 0) STEP(1978, 0) STEP(1979, 0)
  STEP(1980, 0) STEP(1981, 1) STEP(1982, 1) STEP(1983, 1) STEP(1985, 1) STEP(1988, 0) STEP(1990, 0) STEP(1991, 0)
  STEP(1992, 1) STEP(1993, 1) STEP(1994, 1) STEP(1996, 0) STEP(1997, 1) STEP(1999, 0) STEP(2006, 0) STEP(2009, 0)
  STEP(2012, 1) STEP(2015, 1) STEP(2017, 0)
#undef STEP
  return n;
}
VP_ENTRY c06_year_month() {
  int m = (int)vp_case("month", 1, 12);
  int y = vp_int("year", 1972, 100000000);
  int n = dat(year{y}, month{m});
  vp_watch("dat", n);
  vp_assert(n == ref_dat(y, m), "dat(year,month) is the IERS table");
  vp_reach("looked up");
}
VP_ENTRY c06_mjd() {
  int m = (int)vp_case("month", 1, 12);
  int y = vp_int("year", 1972, 100000000);
  int d = vp_int("day", 1, 31);
  vp_assume(d <= ref_mlen(y, m));
  int n = dat(mjd_t{ref_mjd(y, m, d)});
  vp_watch("dat", n);
  vp_assert(n == ref_dat(y, m), "dat(mjd) is the IERS table");
  vp_reach("looked up");
}
VP_ENTRY c06_agree() {
  int m = (int)vp_case("month", 1, 12);
  int y = vp_int("year", 1972, 9999);
  int d = vp_int("day", 1, 31);
  vp_assume(d <= ref_mlen(y, m));
  mjd_t j = cal2mjd(year{y}, month{m}, day_of_month{d});
  int a = dat(year{y}, month{m}), b = dat(j);
  vp_assert(a == b, "both overloads agree on every day");
  datetime<seconds> t1{j, seconds{vp_long("sec", 0, 86399)}};
  datetime<milliseconds> t2{j, milliseconds{vp_long("msec", 0, 86399999)}};
  datetime<microseconds> t3{j, microseconds{vp_long("usec", 0, 86399999999)}};
  vp_assert(dat(t1) == b && dat(t2) == b && dat(t3) == b, "dat(datetime) is that of its day");
  vp_watch("dat", a);
  vp_reach("agree");
}
VP_ENTRY c06_monotone() {
  long j = vp_long("mjd", 41317, LONG_MAX - 1);
  int a = dat(mjd_t{j}), b = dat(mjd_t{j + 1});
  vp_watch("dat", a);
  vp_assert(b == a || b == a + 1, "TAI-UTC grows by at most one second a day");
  vp_assert(a >= 10 && a <= 37, "TAI-UTC is between 10 and 37 s");
  if (b == a + 1) vp_reach("leap second"); else vp_reach("ordinary day");
}
