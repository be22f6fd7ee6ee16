// Stand-in for sm_kinematics (not available offline): the functions the examples use.
#ifndef VSTUB_SM_ROTATIONS
#define VSTUB_SM_ROTATIONS
#include <cmath>
#include <Eigen/Core>
namespace sm { namespace kinematics {
/// the angle in [-pi, pi) that differs from x by whole turns
inline double angleMod(double x) { const double tp = 2 * M_PI; return x - tp * std::floor((x + M_PI) / tp); }
template <typename D> inline Eigen::Matrix3d crossMx(const Eigen::MatrixBase<D>& v) {
  Eigen::Matrix3d m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
} }
#endif
