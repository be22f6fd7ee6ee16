// Stand-in for aslam_backend_expressions' VectorExpression: a value.
#ifndef VSTUB_VECTOR_EXPRESSION
#define VSTUB_VECTOR_EXPRESSION
#include <Eigen/Core>
namespace aslam { namespace backend {
template <int D> class VectorExpression {
public:
  explicit VectorExpression(const Eigen::Matrix<double, D, 1>& v) : v(v) {}
  Eigen::Matrix<double, D, 1> toValue() const { return v; }
  Eigen::Matrix<double, D, 1> v;
};
} }
#endif
