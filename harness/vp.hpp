// Harness interface.  Under the symbolic executor these are built-ins; natively (replay) they are
// defined in vp_native.cpp and read the inputs of one run from a file.
#ifndef VP_HPP
#define VP_HPP
enum { VP_ARGS = 40 };
extern "C" {
long vp_long(const char *name, long lo, long hi) noexcept;          // any value in [lo,hi]
long vp_case(const char *name, long lo, long hi) noexcept;          // one job per value
long vp_split(const char *name, long lo, long hi, long parts) noexcept; // one job per sub-range
long vp_binades(const char *name, long lo, long hi, long den) noexcept; // one job per binade of v and of v/den
int vp_tier() noexcept;                                             // 0 quick, 1 thorough
void vp_assume(bool c) noexcept;
void vp_assert(bool c, const char *label) noexcept;
void vp_reach(const char *label) noexcept;                          // must be reachable (vacuity witness)
void vp_watch(const char *label, long v) noexcept;                  // compared between engine and native run
void vp_fresh(void (*f)(const long *, long *), const long *in, long *out) noexcept; // f(in, out), arrays of VP_ARGS, as the first call of a process
long vp_scaled(double d, long p) noexcept;                          // exact d*p rounded half-even
}
static inline int vp_int(const char *name, int lo, int hi) noexcept { return static_cast<int>(vp_long(name, lo, hi)); }
#define VP_ENTRY extern "C" void
#endif
