From b8cb5177d83dd7ed7771ac645bfc57be81b71ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 01/15] fix: day-of-year/MJD conversions outside 1901-2099

ydoy2mjd and modified_julian_day::to_ydoy counted one leap day every four
years from 1901, so they disagreed with the calendar before 1901 and from
March 2100 on.
---
 src/dtfund.cpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index 1e84911..b2eafa0 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -164,19 +164,7 @@ ngpt::day_of_month::is_valid(ngpt::year y, ngpt::month m) const noexcept
 ngpt::ydoy_date
 ngpt::modified_julian_day::to_ydoy() const noexcept
 {
-  long days_fr_jan1_1901 { m_mjd - ngpt::jan11901 };
-  long num_four_yrs      { days_fr_jan1_1901/1461L };
-  long years_so_far      { 1901L + 4*num_four_yrs };
-  long days_left         { days_fr_jan1_1901 - 1461*num_four_yrs };
-  long delta_yrs         { days_left/365 - days_left/1460 };
-  
-  ydoy_date ydoy;
-  ydoy.__doy = day_of_year{static_cast<day_of_year::underlying_type>
-              (days_left-365*delta_yrs+1)};
-  ydoy.__year= year{static_cast<year::underlying_type>
-              (years_so_far + delta_yrs)};
-
-  return ydoy;
+  return this->to_ymd().to_ydoy();
 }
 
 ///
@@ -214,11 +202,10 @@ ngpt::modified_julian_day::to_ymd() const noexcept
 ngpt::modified_julian_day
 ngpt::ydoy2mjd(ngpt::year yr, ngpt::day_of_year doy) noexcept
 {
-    long iyr {static_cast<long>(yr.as_underlying_type())};
+    int  iyr {yr.as_underlying_type()};
     long idy {static_cast<long>(doy.as_underlying_type())};
 
-    return modified_julian_day {((iyr-1901)/4)*1461 + ((iyr-1901)%4)*365 +
-        idy - 1 + ngpt::jan11901};
+    return modified_julian_day {ngpt::cal2mjd(iyr, 1, 1) + idy - 1};
 }
 
 /// 
-- 
2.43.0


From 3587d277e79c92cdbf4b96e0693f2b5fa27f40d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 02/15] fix: ydoy_date::to_ymd aborts for days of year past 343
 in DEBUG builds

The first guess of the month index is 11 for those days, which is in range.
---
 src/dtfund.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtfund.cpp b/src/dtfund.cpp
index b2eafa0..163a84b 100644
--- a/src/dtfund.cpp
+++ b/src/dtfund.cpp
@@ -231,7 +231,7 @@ ngpt::ydoy_date::to_ymd() const noexcept
   int guess = __doy.as_underlying_type() * 0.032;
   int leap = __year.is_leap();
 #ifdef DEBUG
-  assert( guess >= 0 && guess < 11 );
+  assert( guess >= 0 && guess < 12 );
 #endif
   int more = (( __doy.as_underlying_type() - month_day[leap][guess+1] ) > 0);
   yd.__month = month{guess + more + 1};
-- 
2.43.0


From 7cd544fc741b6bd3665080c370bc399e54759543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 03/15] fix: constructing a datetime from an invalid calendar
 date terminates the program

The constructors were noexcept although cal2mjd, which they call, throws
std::out_of_range for an invalid date; the exception could never be caught.
---
 src/dtcalendar.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 39bf625..0c1407f 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -264,7 +264,7 @@ public:
     
   /// Constructor from year, month, day of month and sec type.
   explicit constexpr
-  datetime(year y, month m, day_of_month d, S s) noexcept
+  datetime(year y, month m, day_of_month d, S s)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{s}
   {
@@ -285,7 +285,7 @@ public:
                 std::is_same<S, decltype(static_cast<S>(T{}))>::value, bool>
                >
   explicit
-  datetime(year y, month m, day_of_month d, T t) noexcept
+  datetime(year y, month m, day_of_month d, T t)
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{S(t)}
   {
@@ -316,7 +316,6 @@ public:
                >
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, T sec)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, S(sec)}
   {
@@ -341,7 +340,6 @@ public:
   /// Constructor from year, month, day of month and fractional seconds.
   explicit
   datetime(year y, month m, day_of_month d, hours hr, minutes mn, double fsecs)
-  noexcept
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, fsecs}
   {
@@ -361,7 +359,7 @@ public:
   /// second type S.
   explicit
   datetime(year y, month m, day_of_month d, hours hr=hours(),
-           minutes mn=minutes(), S sec=S()) noexcept
+           minutes mn=minutes(), S sec=S())
     : m_mjd{cal2mjd(y, m, d)},
       m_sec{hr, mn, sec}
   {
-- 
2.43.0


From d035a4e7622a6bd3c218fb59b64de6720f649f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:10 +0000
Subject: [PATCH 04/15] fix: cast_to between milliseconds and microseconds
 overflows past 292 years

The intermediate product was computed in units 1000 times finer than either
type, so durations well inside the range of both types wrapped around.
---
 src/dtfund.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 8c58f2f..0f9ec4c 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -2098,8 +2098,13 @@ template<typename Ssrc,
   // seconds _s1 = cast_to<milliseconds, seconds>(milliseconds{2000L});
   // this is: (1/1000)*2000 which is 0 because 1/1000 is 0, but
   // (2000*1)/1000 = 2 which is correct
-  auto numerator { s.__member_ref__() * Strg::template sec_factor<long>() };
-  return Strg {numerator / Ssrc::template sec_factor<long>()};
+  // Cancel the common factor first (the coarser type's), so that the numerator
+  // only overflows if the result does.
+  constexpr long fsrc { Ssrc::template sec_factor<long>() };
+  constexpr long ftrg { Strg::template sec_factor<long>() };
+  constexpr long comm { fsrc < ftrg ? fsrc : ftrg };
+  auto numerator { s.__member_ref__() * (ftrg / comm) };
+  return Strg {numerator / (fsrc / comm)};
 }
 
 /// For user-defined literals, i am going to replace long with
-- 
2.43.0


From a63f5dd93f1a07f2c9dd88c84d642ed9785a45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:49 +0000
Subject: [PATCH 05/15] fix: milliseconds/microseconds from fractional seconds
 lose a unit

The product fs*factor can fall just below a whole number (1.001 s became
1000 ms), so reading back seconds with all the decimals of the type was wrong.
---
 src/dtfund.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/dtfund.hpp b/src/dtfund.hpp
index 0f9ec4c..4f586a6 100644
--- a/src/dtfund.hpp
+++ b/src/dtfund.hpp
@@ -66,6 +66,29 @@ constexpr double mjd0_jd { 2400000.5e0 };
 /// TT minus TAI in seconds.
 constexpr double tt_minus_tai { 32.184e0 };
 
+/// @brief Whole second subdivisions in a number of (fractional) seconds.
+///
+/// Anything smaller than one subdivision is not considered. If fs is the double
+/// closest to a whole number of subdivisions (e.g. 1.001 for milliseconds), then
+/// this number is returned, even if the product fs*factor happens to be just
+/// below it.
+///
+/// @param[in] fs     Fractional seconds.
+/// @param[in] factor Number of subdivisions in one second (e.g. 1e3 for
+///                   milliseconds).
+constexpr long
+__fsec_units__(double fs, double factor) noexcept
+{
+  const double abs_fs { fs < 0e0 ? -fs : fs };
+  long units { static_cast<long>(abs_fs * factor) };
+  if (static_cast<double>(units) / factor > abs_fs) {
+    --units;
+  } else if (static_cast<double>(units+1) / factor <= abs_fs) {
+    ++units;
+  }
+  return fs < 0e0 ? -units : units;
+}
+
 /// Forward declerations
 class  year;
 class  month;
@@ -1361,7 +1384,7 @@ public:
   /// the fs input argument).
   explicit constexpr
   milliseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __fsec_units__(fs, sec_factor<double>())
              + (m.as_underlying_type()*60L + h.as_underlying_type()*3600L)
              * sec_factor<underlying_type>()}
   {
@@ -1601,7 +1624,7 @@ public:
   ///       up to 10e-6.
   explicit constexpr
   microseconds(hours h, minutes m, double fs) noexcept
-    : m_sec{ static_cast<underlying_type>(fs * sec_factor<double>())
+    : m_sec{ __fsec_units__(fs, sec_factor<double>())
             + (m.as_underlying_type()*60L
             + h.as_underlying_type()*3600L) * sec_factor<underlying_type>() }
   {};
-- 
2.43.0


From d4cff4b0f069a0835427be57e1071edafb0ec3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 06/15] fix: datetime_interval::operator/ is off by one unit

The quotient was computed in double precision and cut, so e.g. dividing an
exact multiple could give one unit less, and microseconds of long intervals
were lost to rounding.
---
 src/dtcalendar.hpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 0c1407f..a430206 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -166,20 +166,19 @@ public:
   operator!=(const datetime_interval& d) const noexcept
   { return !(this->operator==(d)); }
 
-  /// @todo wtf is this?? it needs checking
+  /// Divide by an integer; the result is exact to one unit of S.
   datetime_interval
   operator/(int div) const noexcept
   {
-    double d = static_cast<double>(m_days.as_underlying_type());
-    double i, f;
-    f = std::modf(d/div, &i);
-    auto new_mjd = static_cast<modified_julian_day::underlying_type>(i);
-
-    d = static_cast<double>(m_secs.as_underlying_type());
-    d = d/div + f*S::max_in_day;
-    auto new_sec = static_cast<typename S::underlying_type>(d);
-
-    return datetime_interval{modified_julian_day{new_mjd}, S{new_sec}};
+    const long n    { div };
+    const long days { m_days.as_underlying_type() / n };
+    const long rest { m_days.as_underlying_type() % n };
+    // rest * max_in_day + m_secs, divided by n; max_in_day is split in multiple
+    // and remainder of n so that the product cannot overflow.
+    const long secs { rest * (S::max_in_day / n)
+                    +(rest * (S::max_in_day % n) + m_secs.as_underlying_type())
+                    / n };
+    return datetime_interval{modified_julian_day{days}, S{secs}};
   }
 
 private:
-- 
2.43.0


From 9ffd28128f32a734841ff372e5a75483c720bac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 07/15] fix: strptime_* functions read past the end of the
 string

When a field is missing at the end of the input, the pointer was moved one
past the terminating null character (and strptime_yod_hms copied three
characters and skipped four, whatever was left).
---
 src/datetime_read.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index ab0b47b..19b0315 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -15,6 +15,7 @@
 #define __NGPT_DT_READERS__
 
 #include <cstdlib>
+#include <cstring>
 #include <cctype>         // for std::isalpha
 #include <stdexcept>
 #include "dtfund.hpp"
@@ -51,7 +52,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -87,7 +88,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
@@ -123,7 +124,7 @@ template<typename T>
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
@@ -168,15 +169,16 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
-  start = end+1;
+  start = *end ? end+1 : end;
 
-  if ( !std::isalpha(*start) ) ++start;
-  std::memcpy(month_str, start, 3);
+  if ( *start && !std::isalpha(*start) ) ++start;
+  std::strncpy(month_str, start, 3);
   month_str[0] = std::toupper(month_str[0]);
   month_str[1] = std::tolower(month_str[1]);
   month_str[2] = std::tolower(month_str[2]);
   month mnt {month_str};
-  start += 4;
+  start += 3;
+  if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
@@ -186,7 +188,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
 
   secs = std::strtod(start, &end);
@@ -232,7 +234,7 @@ template<typename T>
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
-    start = end+1;
+    start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
   if (errno == ERANGE) {
-- 
2.43.0


From 4efc5a8b5ce771498bdb97d8b3b3bed0dec22604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:31 +0000
Subject: [PATCH 08/15] fix: strptime_*_hms silently accept missing or
 unreadable seconds

The documentation promises an std::invalid_argument when the input string
cannot be resolved; the result of std::strtod was never checked.
---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 19b0315..fbc0e5a 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -127,7 +127,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -192,7 +192,7 @@ template<typename T>
   }
 
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -237,7 +237,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
   secs = std::strtod(start, &end);
-  if (errno == ERANGE) {
+  if (errno == ERANGE || start == end) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From 6d483f41b9ca67a01cb40eb18df578ce8cd6677a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 09/15] fix: strptime_* reject valid strings when errno is
 already ERANGE

errno is never cleared by the library functions, so it has to be set to zero
before the call for the test to mean anything.
---
 src/datetime_read.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index fbc0e5a..358bca5 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -14,6 +14,7 @@
 #ifndef __NGPT_DT_READERS__
 #define __NGPT_DT_READERS__
 
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <cctype>         // for std::isalpha
@@ -45,6 +46,7 @@ template<typename T>
   int ints[3];
 
   for (int i = 0; i < 3; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -81,6 +83,7 @@ template<typename T>
   int ints[2];
 
   for (int i = 0; i < 2; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -117,6 +120,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -126,6 +130,7 @@ template<typename T>
     }
     start = *end ? end+1 : end;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
@@ -163,6 +168,7 @@ template<typename T>
   month_str[3] = '\0';
   double secs;
 
+  errno = 0;
   ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
   if (errno == ERANGE || start == end) {
     errno = 0;
@@ -181,6 +187,7 @@ template<typename T>
   if (*start) ++start;
 
   for (int i = 2; i < 5; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -191,6 +198,7 @@ template<typename T>
     start = *end ? end+1 : end;
   }
 
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
@@ -227,6 +235,7 @@ template<typename T>
   double secs;
 
   for (int i = 0; i < 4; ++i) {
+    errno = 0;
     ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
     if (errno == ERANGE || start == end) {
       errno = 0;
@@ -236,6 +245,7 @@ template<typename T>
     }
     start = *end ? end+1 : end;
   }
+  errno = 0;
   secs = std::strtod(start, &end);
   if (errno == ERANGE || start == end) {
     errno = 0;
-- 
2.43.0


From c9554c620f785b50e2104d312aadd7925d079882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:24 +0000
Subject: [PATCH 10/15] fix: strptime_* truncate numbers that do not fit an int

4294969311-09-30 was read as 2015-09-30, and taking the absolute value of
LONG_MIN is undefined. Numbers that do not fit are now rejected, as those that
do not fit a long already were.
---
 src/datetime_read.hpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 358bca5..6b3c344 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -18,6 +18,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <cctype>         // for std::isalpha
+#include <limits>
 #include <stdexcept>
 #include "dtfund.hpp"
 #include "dtcalendar.hpp"
@@ -47,13 +48,16 @@ template<typename T>
 
   for (int i = 0; i < 3; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long num = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || num > std::numeric_limits<int>::max()
+        || num < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(num));
     start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -84,13 +88,16 @@ template<typename T>
 
   for (int i = 0; i < 2; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long num = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || num > std::numeric_limits<int>::max()
+        || num < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str)
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(num));
     start = *end ? end+1 : end;
   }
   if (stop) *stop = end - 1;
@@ -121,13 +128,16 @@ template<typename T>
 
   for (int i = 0; i < 5; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long num = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || num > std::numeric_limits<int>::max()
+        || num < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \""+std::string(str)+
           "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(num));
     start = *end ? end+1 : end;
   }
   errno = 0;
@@ -169,12 +179,15 @@ template<typename T>
   double secs;
 
   errno = 0;
-  ints[0] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-  if (errno == ERANGE || start == end) {
+  long num = std::strtol(start, &end, 10);
+  if (errno == ERANGE || start == end
+      || num > std::numeric_limits<int>::max()
+      || num < -std::numeric_limits<int>::max()) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #1).");
   }
+  ints[0] = static_cast<int>(std::abs(num));
   start = *end ? end+1 : end;
 
   if ( *start && !std::isalpha(*start) ) ++start;
@@ -188,13 +201,16 @@ template<typename T>
 
   for (int i = 2; i < 5; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>( std::abs(std::strtol(start, &end, 10)) );
-    if (errno == ERANGE || start == end) {
+    num = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || num > std::numeric_limits<int>::max()
+        || num < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          +"\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(num));
     start = *end ? end+1 : end;
   }
 
@@ -236,13 +252,16 @@ template<typename T>
 
   for (int i = 0; i < 4; ++i) {
     errno = 0;
-    ints[i] = static_cast<int>(std::abs(std::strtol(start, &end, 10)));
-    if (errno == ERANGE || start == end) {
+    long num = std::strtol(start, &end, 10);
+    if (errno == ERANGE || start == end
+        || num > std::numeric_limits<int>::max()
+        || num < -std::numeric_limits<int>::max()) {
       errno = 0;
       throw std::invalid_argument
         ("Invalid date format: \"" + std::string(str) 
          + "\" (argument #" + std::to_string(i+1) + ").");
     }
+    ints[i] = static_cast<int>(std::abs(num));
     start = *end ? end+1 : end;
   }
   errno = 0;
-- 
2.43.0


From 63673f7e4842bc5c9f68e4db64b5f1b555f01d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:31 +0000
Subject: [PATCH 11/15] fix: strptime_*_hms accept nan, inf and unrepresentable
 seconds

std::strtod reads these; converting them to an integral number of seconds is
undefined behaviour. NaN fails the comparison, so it is rejected too.
---
 src/datetime_read.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index 6b3c344..b6b3fd5 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -15,6 +15,7 @@
 #define __NGPT_DT_READERS__
 
 #include <cerrno>
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <cctype>         // for std::isalpha
@@ -29,6 +30,17 @@
 
 namespace ngpt {
 
+/// @brief Can a number of (fractional) seconds be represented in units of T?
+///
+/// std::strtod also reads "nan", "inf" and numbers far larger than what fits
+/// in T. Half the range of T is left for adding the hours and minutes.
+template<typename T>
+  inline bool __secs_representable__(double secs) noexcept
+{
+  return std::abs(secs) * T::template sec_factor<double>()
+    < static_cast<double>(std::numeric_limits<long>::max()/2);
+}
+
 /// @brief Read from YYYY-MM-DD
 ///
 /// Read and return a date from a c-string of type: YYYY-MM-DD, where the 
@@ -142,7 +154,7 @@ template<typename T>
   }
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || !__secs_representable__<T>(secs)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
@@ -216,7 +228,7 @@ template<typename T>
 
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || !__secs_representable__<T>(secs)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
@@ -266,7 +278,7 @@ template<typename T>
   }
   errno = 0;
   secs = std::strtod(start, &end);
-  if (errno == ERANGE || start == end) {
+  if (errno == ERANGE || start == end || !__secs_representable__<T>(secs)) {
     errno = 0;
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
-- 
2.43.0


From 939d5e06f74d18e1ec1cf234925c22520c6854ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 12/15] fix: strptime_*_hms set stop one past the last
 character interpreted

All five functions document that stop is set to the last character of str
interpreted; the two date-only ones do so.
---
 src/datetime_read.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/datetime_read.hpp b/src/datetime_read.hpp
index b6b3fd5..b036024 100644
--- a/src/datetime_read.hpp
+++ b/src/datetime_read.hpp
@@ -159,7 +159,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #6)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     month{ints[1]},
     day_of_month{ints[2]},
@@ -234,7 +234,7 @@ template<typename T>
       ("Invalid date format: \"" + std::string(str) + "\" (argument #6)");
   }
 
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
 
   return datetime<T> {year{ints[0]},
     mnt,
@@ -283,7 +283,7 @@ template<typename T>
     throw std::invalid_argument
       ("Invalid date format: \""+std::string(str)+"\" (argument #5)");
   }
-  if (stop) *stop = end;
+  if (stop) *stop = end - 1;
   return datetime<T> {year{ints[0]},
     day_of_year{ints[1]},
     hours{ints[2]},
-- 
2.43.0


From 5c3b208c3115483dc6d9b91045a043b7fdaed1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:07 +0000
Subject: [PATCH 13/15] fix: datetime::stringify prints the fractional part in
 place of the seconds

02:03:04.5 was printed as 2:3:500000.500000000 (microseconds).
---
 src/dtcalendar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index a430206..1b12585 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -740,7 +740,7 @@ public:
     double fsec { st.as_underlying_type() / S::template sec_factor<double>() };
     std::ostringstream out;
     out << std::fixed << std::setprecision(9) 
-        << (fsec + static_cast<double>(st.as_underlying_type()));
+        << (fsec + static_cast<double>(std::get<2>(hms).as_underlying_type()));
 
     return std::string {
                  std::to_string( ymd.__year.as_underlying_type() )
-- 
2.43.0


From 9bd68602cfb5dfa6249508fef8fef5e3e35e1fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:25 +0000
Subject: [PATCH 14/15] fix: strftime_ymd_hmfs drops the last digit of
 microseconds

59.999996 seconds were printed as 60.00000. Five decimals are kept for the
coarser types.
---
 src/datetime_write.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime_write.hpp b/src/datetime_write.hpp
index 484b79e..7033929 100644
--- a/src/datetime_write.hpp
+++ b/src/datetime_write.hpp
@@ -66,7 +66,7 @@ template<typename T>
        + _i2s_((ymd.__dom).as_underlying_type(), 2) + ' '
        + _i2s_(std::get<0>(hmsf).as_underlying_type(),2) + ':'
        + _i2s_(std::get<1>(hmsf).as_underlying_type(),2) + ':'
-       + _d2s_(secs, 5);
+       + _d2s_(secs, T::template sec_factor<long>() > 100000L ? 6 : 5);
 }
 template<typename T>
   std::string
-- 
2.43.0


From 39e4920a7aa8960d1d30938e2e5afc31803df5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:41 +0000
Subject: [PATCH 15/15] fix: datetime from a gps_week and negative seconds of
 week is not normalised

as_gps_wsow gives negative seconds of week for datetimes before 1980-01-06;
building the datetime back from them left the time of day negative.
---
 src/dtcalendar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dtcalendar.hpp b/src/dtcalendar.hpp
index 1b12585..9654c0b 100644
--- a/src/dtcalendar.hpp
+++ b/src/dtcalendar.hpp
@@ -405,6 +405,7 @@ public:
     m_sec{sow}
   {
     m_sec.remove_days();
+    this->normalize();
   }
 
   /// Get the Modified Julian Day (const).
-- 
2.43.0

