#include "common.h"
#include <Eigen/Core>
#include "aslam/calibration/algorithms/matrixOperations.h"
using namespace aslam::calibration;
template <class M> static void one(const M& R, size_t b, size_t e, const char* tag) {
  std::ostringstream o; o.precision(17);
  o << tag << " rows=" << R.rows() << " cols=" << R.cols() << " begin=" << b << " end=" << e << " diag=" << R.diagonal().transpose();
  hx::at(o.str());
  const bool ok = b < e && e < (size_t)R.cols();
  bool t1 = false, t2 = false; double v = 0;
  try { checkColumnIndices(R, b, e); } catch (const OutOfBoundException<size_t>&) { t1 = true; }
  try { v = computeSumLogDiagR(R, b, e); } catch (const OutOfBoundException<size_t>&) { t2 = true; }
  HX("range-check", t1 == !ok, hx::C().at);
  HX("range-check-sum", t2 == !ok, hx::C().at);
  if (ok && !t2) {
    double s = 0;
    for (size_t i = b; i <= e; ++i) { double x = std::fabs((double)R(i, i)); if (x > std::numeric_limits<double>::epsilon()) s += std::log2(x); }
    HX("sum", hx::close(s, v), hx::C().at << " got " << v << " expected " << s);
  }
}
int main() {
  hx::guard();
  auto& c = hx::C();
  do for (int it = 0; it < 400; ++it) {
    int n = c.i(1, 12), r = n + c.i(0, 3);
    Eigen::MatrixXd R = Eigen::MatrixXd::Random(r, n) * std::pow(10.0, c.i(-3, 3));
    for (int k = 0; k < n; ++k) { int q = c.i(0, 9); if (q == 0) R(k, k) = 0; if (q == 1) R(k, k) = 1e-17; if (q == 2) R(k, k) = -c.u(0, 5); if (q == 3) R(k, k) = std::numeric_limits<double>::epsilon() * (c.coin() ? 1 : 1.01); if (q == 4) R(k, k) = -1e-12 ; }
    size_t b = c.i(0, n), e = c.i(0, n + 1);
    if (c.i(0, 20) == 0) b = (size_t)-1;
    if (c.i(0, 20) == 0) e = (size_t)-1;
    one(R, b, e, "MatrixXd");
    Eigen::Matrix4d F = Eigen::Matrix4d::Random(); F(2, 2) = c.coin() ? 0 : 1e-20;
    one(F, c.i(0, 4), c.i(0, 5), "Matrix4d");
  } while (c.left() );
  return hx::done();
}
