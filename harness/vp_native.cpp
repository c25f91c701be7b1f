// Native side of the harness interface: runs one entry on concrete inputs.
//   prog ENTRY TIER < assignments     one line per run: "name=value name=value ..."
// Each run happens in a forked child; prints "RUN i" then events, then "END status".
#include "vp.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
static std::map<std::string, long> vals;
static std::map<std::string, int> cnt;
static int tier = 0;
static bool failed = false;
static bool before = false;         // the call that comes before the one under inspection
static long get(const char *name, long lo, long hi) {
  int k = cnt[name]++;
  std::string n = before ? std::string("before:") + name : name;
  if (k) n += "." + std::to_string(k);
  auto it = vals.find(n);
  long v = it == vals.end() ? lo : it->second;
  if (v < lo || v > hi) { printf("RANGE %s\n", n.c_str()); fflush(stdout); _exit(78); }
  return v;
}
// A process that has run nothing yet forks a new one for each vp_fresh.
static int zin = -1, zout = -1;
typedef void (*fresh_t)(const long *, long *);
struct Call { fresh_t f; long in[VP_ARGS]; };
static bool whole(int fd, void *p, size_t n, bool wr) {
  char *c = static_cast<char *>(p);
  while (n) {
    ssize_t k = wr ? write(fd, c, n) : read(fd, c, n);
    if (k <= 0) return false;
    c += k; n -= k;
  }
  return true;
}
static void zygote() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) _exit(2);
  if (!fork()) {
    close(a[1]); close(b[0]);
    alarm(20);
    Call c;
    while (whole(a[0], &c, sizeof c, false)) {
      pid_t p = fork();
      if (!p) {
        long out[VP_ARGS] = {0};
        c.f(c.in, out);
        whole(b[1], out, sizeof out, true);
        _exit(0);
      }
      int st;
      waitpid(p, &st, 0);
      if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(1);
    }
    _exit(0);
  }
  close(a[0]); close(b[1]);
  zin = a[1]; zout = b[0];
}
extern "C" {
void vp_fresh(fresh_t f, const long *in, long *out) noexcept {
  Call c;
  c.f = f;
  memcpy(c.in, in, sizeof c.in);
  if (!whole(zin, &c, sizeof c, true) || !whole(zout, out, sizeof c.in, false)) { fflush(stdout); _exit(66); }
}
long vp_long(const char *n, long lo, long hi) noexcept { return get(n, lo, hi); }
long vp_case(const char *n, long lo, long hi) noexcept { return get(n, lo, hi); }
long vp_split(const char *n, long lo, long hi, long) noexcept { return get(n, lo, hi); }
long vp_binades(const char *n, long lo, long hi, long) noexcept { return get(n, lo, hi); }
int vp_tier() noexcept { return tier; }
void vp_assume(bool c) noexcept { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(failed ? 10 : 77); } }
void vp_assert(bool c, const char *l) noexcept {
  if (!c && !before) { printf("FAIL %s\n", l); fflush(stdout); failed = true; }
}
void vp_reach(const char *l) noexcept { if (!before) printf("REACH %s\n", l); }
void vp_watch(const char *l, long v) noexcept { if (!before) printf("WATCH %s %ld\n", l, v); }
long vp_scaled(double d, long p) noexcept {
  int n = 0; while (p >= 10) { p /= 10; ++n; }
  char b[512]; snprintf(b, sizeof b, "%.*f", n, d);
  char o[512]; char *q = o; for (char *c = b; *c; ++c) if (*c != '.') *q++ = *c;
  *q = 0;
  return strtol(o, nullptr, 10);
}
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  tier = atoi(argv[2]);
  void (*f)() = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
  static char line[1 << 16];
  int i = 0;
  while (fgets(line, sizeof line, stdin)) {
    vals.clear();
    for (char *p = strtok(line, " \n"); p; p = strtok(nullptr, " \n")) {
      char *e = strchr(p, '=');
      if (e) { *e = 0; vals[p] = strtol(e + 1, nullptr, 10); }
    }
    printf("RUN %d\n", i++);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
      alarm(20);
      zygote();
      for (const auto &v : vals) before |= !v.first.compare(0, 7, "before:");
      if (before) { f(); before = false; cnt.clear(); }
      f();
      fflush(stdout);
      _exit(failed ? 10 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) printf("END signal %d\n", WTERMSIG(st));
    else printf("END exit %d\n", WEXITSTATUS(st));
    fflush(stdout);
  }
  return 0;
}
