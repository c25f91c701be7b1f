// C23 (writing): the text depends on the arguments alone.
#include "vp.hpp"
#include "ref.hpp"
#include <string>
#include <stdexcept>
#include "dtfund.hpp"
#include "dtcalendar.hpp"
#include "datetime_write.hpp"
using namespace ngpt;
typedef modified_julian_day mjd_t;

template <class S, int WHAT> static void writing(const long *a, long *o) {
  const datetime<S> t{mjd_t{a[0]}, S{a[1]}};
  const char del = (char)a[2];
  std::string s;
  switch (WHAT) {
    case 0: s = strftime_ymd_hms(t, del); break;
    case 1: s = strftime_ymd_hmfs(t, del); break;
    default: s = t.stringify(); break;
  }
  const long n = (long)s.size();
  *o++ = n;
  for (long i = 0; i < n && i < VP_ARGS - 1; ++i) *o++ = s[i];
}
static void any_time(long *a, long day, long unit) {
  // some days of two-digit months, times of day with fields of fixed widths
  a[0] = day + vp_long("day", 0, 9);
  a[1] = unit * vp_long("second", 39610, 39659) + vp_long("fraction", 0, unit - 1);
  a[2] = vp_long("delimiter", -128, 127);
}
typedef void (*fun)(const long *, long *);
static void same(fun f, const long *a, fun g, const long *b, const long *c) {
  long x[VP_ARGS] = {0}, y[VP_ARGS] = {0}, z[VP_ARGS] = {0};
  vp_fresh(f, a, x);
  f(b, z);
  g(c, z);
  f(a, y);
  bool eq = true;
  for (int i = 0; i < VP_ARGS; ++i) eq = eq & (x[i] == y[i]);
  vp_watch("length", y[0]);
  vp_assert(eq, "the same arguments give the same text, whatever was called before");
  vp_reach("repeated");
}
VP_ENTRY c23_writing() {
  static const fun F[] = {writing<seconds, 0>, writing<seconds, 1>, writing<seconds, 2>,
                          writing<milliseconds, 0>, writing<milliseconds, 1>, writing<milliseconds, 2>,
                          writing<microseconds, 0>, writing<microseconds, 1>, writing<microseconds, 2>};
  static const long U[] = {1, 1000, 1000000};
  int f = (int)vp_case("call", 0, 8), g = (int)vp_case("between", 0, 8);
  long a[VP_ARGS] = {0}, b[VP_ARGS] = {0}, c[VP_ARGS] = {0};
  any_time(a, 57388, U[f / 3]); any_time(b, 56300, U[f / 3]);
  // the call in between writes a year of five digits half of the time
  any_time(c, vp_case("far", 0, 1) ? 4000000 : 51544, U[g / 3]);
  same(F[f], a, F[g], b, c);
}
