// Shared by the replay harnesses: bounded search for a failing input on the real code.
#pragma once
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <csignal>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace hx {
struct Ctx {
  std::mt19937_64 rng;
  double secs;
  std::chrono::steady_clock::time_point t0;
  unsigned long cases = 0;
  std::set<std::string> failed;
  std::set<size_t> distinct;
  std::string at;
  Ctx() {
    const char* s = std::getenv("VERIF_SEED");
    rng.seed(s ? std::strtoull(s, nullptr, 10) : 1);
    const char* t = std::getenv("VERIF_SECS");
    secs = t ? std::atof(t) : 10;
    t0 = std::chrono::steady_clock::now();
  }
  double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  bool left(double frac = 1.0) const { return elapsed() < secs * frac; }
  int i(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng); }
  double u(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); }
  bool coin() { return rng() & 1; }
};
inline Ctx& C() { static Ctx c; return c; }
inline void fail(const std::string& key, const std::string& msg) {
  if (C().failed.insert(key).second) { std::printf("FAIL %s %s\n", key.c_str(), msg.c_str()); std::fflush(stdout); }
}
inline void at(const std::string& s) { C().at = s; C().cases++; if (C().distinct.size() < 2000000) C().distinct.insert(std::hash<std::string>()(s)); }
inline void onsig(int sig) {
  char buf[64]; int n = std::snprintf(buf, sizeof buf, "\nAT "); (void)!write(1, buf, n);
  (void)!write(1, C().at.data(), C().at.size()); (void)!write(1, "\n", 1);
  _exit(sig == SIGALRM ? 97 : 98);
}
inline void ondeath() { onsig(SIGABRT); }
inline void guard() { if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(ondeath); for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) std::signal(s, onsig); alarm((unsigned)(C().secs * 1.5 + 20)); }
inline int done() { std::printf("CASES %lu\nDISTINCT %zu\n", C().cases, C().distinct.size()); return C().failed.empty() ? 0 : 1; }
inline bool close(double a, double b, double tol = 1e-9) {
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if (std::isinf(a) || std::isinf(b)) return a == b;
  return std::fabs(a - b) <= tol * (1.0 + std::fabs(a) + std::fabs(b));
}
template <class T> std::string str(const std::vector<T>& v) { std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i]; o << "]"; return o.str(); }
// calls f; returns "" or the exception class name

}
#define HX(key, cond, msg) do { if (!(cond)) { std::ostringstream _o; _o.precision(17); _o << msg; hx::fail(key, _o.str()); } } while (0)
