// Reference calendar arithmetic, written independently of the library.
#ifndef VP_REF_HPP
#define VP_REF_HPP
static inline long fdiv(long a, long b) { long q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
static inline long fmod_(long a, long b) { long r = a % b; return r < 0 ? r + b : r; }
static inline bool ref_leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static inline int ref_mlen(long y, int m) {
  switch (m) {
    case 4: case 6: case 9: case 11: return 30;
    case 2: return ref_leap(y) ? 29 : 28;
    default: return 31;
  }
}
static inline bool ref_valid(long y, long m, long d) {
  return m >= 1 && m <= 12 && d >= 1 && d <= ref_mlen(y, (int)m);
}
// days before month m (1..12) in year y
static inline int ref_mstart(long y, int m) {
  int n = 0;
  switch (m) {
    case 12: n += 30;  // fallthrough
    case 11: n += 31;
    case 10: n += 30;
    case 9: n += 31;
    case 8: n += 31;
    case 7: n += 30;
    case 6: n += 31;
    case 5: n += 30;
    case 4: n += 31;
    case 3: n += ref_leap(y) ? 29 : 28;
    case 2: n += 31;
    default: break;
  }
  return n;
}
// MJD of January 1st of year y, proleptic Gregorian, y >= -4800.  a years lie between January 1st
// of -4800 (a multiple of 400) and it, ceil(a/4) - ceil(a/100) + ceil(a/400) of them leap;
// 1858-11-17 is day 0.
static inline long ref_jan1(long y) {
  long a = y + 4800;
  return a * 365 + (a + 3) / 4 - (a + 99) / 100 + (a + 399) / 400 - 2432105L;
}
static inline long ref_mjd(long y, int m, int d) { return ref_jan1(y) + ref_mstart(y, m) + d - 1; }
#endif
