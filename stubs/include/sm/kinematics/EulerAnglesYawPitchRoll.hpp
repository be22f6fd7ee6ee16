// Stand-in for sm_kinematics' yaw-pitch-roll angles (R = Rz(y) Ry(p) Rx(r)).
#ifndef VSTUB_SM_YPR
#define VSTUB_SM_YPR
#include <cmath>
#include <Eigen/Core>
#include <Eigen/LU>
namespace sm { namespace kinematics {
class EulerAnglesYawPitchRoll {
public:
  Eigen::Matrix3d parametersToRotationMatrix(const Eigen::Vector3d& p) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1)), cx = std::cos(p(2)), sx = std::sin(p(2));
    Eigen::Matrix3d R; R << cz*cy, cz*sy*sx - sz*cx, cz*sy*cx + sz*sx, sz*cy, sz*sy*sx + cz*cx, sz*sy*cx - cz*sx, -sy, cy*sx, cy*cx; return R; }
  Eigen::Vector3d rotationMatrixToParameters(const Eigen::Matrix3d& R) const {
    return Eigen::Vector3d(std::atan2(R(1, 0), R(0, 0)), std::asin(-R(2, 0)), std::atan2(R(2, 1), R(2, 2))); }
  /// angular velocity = S(p) * rates of the parameters
  Eigen::Matrix3d parametersToSMatrix(const Eigen::Vector3d& p) const {
    const double cz = std::cos(p(0)), sz = std::sin(p(0)), cy = std::cos(p(1)), sy = std::sin(p(1));
    Eigen::Matrix3d S; S << 0, -sz, cz*cy, 0, cz, sz*cy, 1, 0, -sy; return S; }
};
} }
#endif
