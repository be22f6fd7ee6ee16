#include "common.h"
#include <Eigen/Core>
#include "aslam/calibration/utils/OuterProduct.h"
template <class X, size_t M, size_t N> static void one() {
  Eigen::Matrix<X, M, 1> a; Eigen::Matrix<X, N, 1> b;
  for (size_t i = 0; i < M; ++i) a(i) = (X)hx::C().u(-100, 100);
  for (size_t i = 0; i < N; ++i) b(i) = hx::C().i(0, 5) ? (X)hx::C().u(-100, 100) : (X)0;
  std::ostringstream o; o.precision(17); o << M << "x" << N << " a=" << a.transpose() << " b=" << b.transpose(); hx::at(o.str());
  auto r = OuterProduct::compute<X, M, N>(a, b); auto s = OuterProduct::compute<X, M>(a);
  for (size_t i = 0; i < M; ++i) { for (size_t j = 0; j < N; ++j) HX("pair", r(i, j) == a(i) * b(j), hx::C().at << " at " << i << "," << j << " got " << r(i, j));
    for (size_t j = 0; j < M; ++j) HX("self", s(i, j) == a(i) * a(j), hx::C().at << " at " << i << "," << j << " got " << s(i, j)); }
}
int main() {
  hx::guard();
  do for (int k = 0; k < 200; ++k) { one<double, 1, 1>(); one<double, 1, 4>(); one<double, 2, 3>(); one<double, 3, 2>(); one<double, 3, 3>(); one<double, 4, 4>(); one<double, 6, 5>(); one<double, 7, 12>(); one<double, 12, 7>(); one<double, 20, 20>(); one<int, 3, 4>(); one<float, 5, 5>(); } while (hx::C().left());
  return hx::done();
}
