// Stand-in for aslam_backend_expressions' EuclideanExpression: a value that depends on design variables,
// with the chain rule matrix of a Jacobian handed to it recorded for each design variable.
#ifndef VSTUB_Euclidean_EXPRESSION
#define VSTUB_Euclidean_EXPRESSION
#include <functional>
#include <memory>
#include <set>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <boost/shared_ptr.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/ScalarExpression.hpp>
#include <aslam/backend/VectorExpression.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class EuclideanExpressionNode {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Eigen::Vector3d value; std::set<DesignVariable*> dvs; Eigen::MatrixXd applied; int times = 0;
};
class EuclideanExpression {
public:
  EuclideanExpression() {}
  explicit EuclideanExpression(std::shared_ptr<EuclideanExpressionNode> n) : node(n) {}
  explicit EuclideanExpression(const Eigen::Vector3d& v) : node(new EuclideanExpressionNode) { node->value = v; }
  EuclideanExpression(const boost::shared_ptr<EuclideanPoint>& p) : EuclideanExpression(p->toEuclidean()) {}
  EuclideanExpression(const VectorExpression<3>& v) : EuclideanExpression(v.toValue()) {}
  EuclideanExpression operator+(const EuclideanExpression& o) const { return EuclideanExpression(Eigen::Vector3d(toValue() + o.toValue())); }
  EuclideanExpression operator-(const EuclideanExpression& o) const { return EuclideanExpression(Eigen::Vector3d(toValue() - o.toValue())); }
  EuclideanExpression operator-() const { return EuclideanExpression(Eigen::Vector3d(-toValue())); }
  EuclideanExpression operator*(const ScalarExpression& s) const { return EuclideanExpression(Eigen::Vector3d(toValue() * s.toScalar())); }
  EuclideanExpression cross(const EuclideanExpression& o) const { return EuclideanExpression(Eigen::Vector3d(toValue().cross(o.toValue()))); }
  Eigen::Vector3d toValue() const { return node->value; }
  void getDesignVariables(std::set<DesignVariable*>& s) const { s.insert(node->dvs.begin(), node->dvs.end()); }
  template <typename DERIVED> void evaluateJacobians(JacobianContainer&, const Eigen::MatrixBase<DERIVED>& J) const { node->applied = J; ++node->times; }
  std::shared_ptr<EuclideanExpressionNode> node;
};
} }
#endif
