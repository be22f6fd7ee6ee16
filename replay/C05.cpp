#include "common.h"
#include <algorithm>
#include "aslam/calibration/algorithms/permute.h"
#include "aslam/calibration/exceptions/OutOfBoundException.h"
using namespace aslam::calibration;

template <class I> static void one(const std::vector<I>& p, size_t n) {
  std::vector<double> c(n);
  for (size_t k = 0; k < n; ++k) c[k] = 100 + k;
  const std::vector<double> c0 = c;
  hx::at("n=" + std::to_string(n) + " permutation=" + hx::str(p));
  bool ok = p.size() == n;
  for (auto x : p) ok = ok && x >= 0 && x < (I)n;
  bool threw = false, other = false;
  try { permute(c, p); } catch (const OutOfBoundException<I>&) { threw = true; } catch (...) { other = true; }
  HX("wrong-exception", !other, hx::C().at);
  if (ok) {
    HX("valid-rejected", !threw, hx::C().at);
    if (!threw) for (size_t k = 0; k < n; ++k) HX("wrong-element", c.size() == n && c[k] == c0[p[k]], hx::C().at << " result=" << hx::str(c));
  } else HX("invalid-accepted", threw, hx::C().at << " result=" << hx::str(c));
}

template <class I> static void run() {
  for (int n = 0; n <= 7; ++n) {
    std::vector<I> p(n);
    for (int k = 0; k < n; ++k) p[k] = k;
    do one<I>(p, n); while (std::next_permutation(p.begin(), p.end()));
  }
  for (int n = 0; n <= 5; ++n) for (int m = 0; m <= 5; ++m) if (m != n) { std::vector<I> p(m); for (int k = 0; k < m; ++k) p[k] = k; one<I>(p, n); }
  // distinct entries, some out of range
  for (int n = 1; n <= 5; ++n) {
    std::vector<long> vals; for (long v = 0; v < n + 2; ++v) vals.push_back(v);
    if (std::is_signed<I>::value) { vals.push_back(-1); vals.push_back(-7); }
    for (int it = 0; it < 200; ++it) { std::shuffle(vals.begin(), vals.end(), hx::C().rng); std::vector<I> p(vals.begin(), vals.begin() + n); one<I>(p, n); }
  }
  for (int it = 0; it < 300; ++it) { int n = hx::C().i(8, 300); std::vector<I> p(n); for (int k = 0; k < n; ++k) p[k] = k; std::shuffle(p.begin(), p.end(), hx::C().rng); one<I>(p, n); }
}

int main() {
  hx::guard();
  run<size_t>(); run<int>(); run<long>();
  while (hx::C().left()) { run<size_t>(); run<int>(); if (hx::C().secs <= 10) break; }
  return hx::done();
}
