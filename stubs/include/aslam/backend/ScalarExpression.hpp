// Stand-in for aslam_backend_expressions' ScalarExpression: a value that depends on design variables,
// with the chain rule matrix of a Jacobian handed to it recorded for each design variable.
#ifndef VSTUB_Scalar_EXPRESSION
#define VSTUB_Scalar_EXPRESSION
#include <functional>
#include <memory>
#include <set>
#include <Eigen/Core>
#include <boost/shared_ptr.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class ScalarExpressionNode {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  double value; std::set<DesignVariable*> dvs; Eigen::MatrixXd applied; int times = 0;
};
class ScalarExpression {
public:
  ScalarExpression() {}
  explicit ScalarExpression(std::shared_ptr<ScalarExpressionNode> n) : node(n) {}
  ScalarExpression(const boost::shared_ptr<Scalar>& s) : node(new ScalarExpressionNode) { node->value = s->toScalar(); node->dvs.insert(s.get()); }
  double toScalar() const { return node->value; }
  void getDesignVariables(std::set<DesignVariable*>& s) const { s.insert(node->dvs.begin(), node->dvs.end()); }
  template <typename DERIVED> void evaluateJacobians(JacobianContainer&, const Eigen::MatrixBase<DERIVED>& J) const { node->applied = J; ++node->times; }
  std::shared_ptr<ScalarExpressionNode> node;
};
} }
#endif
