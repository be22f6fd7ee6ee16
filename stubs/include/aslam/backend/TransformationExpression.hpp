// Stand-in for aslam_backend_expressions' TransformationExpression: a value that depends on design variables,
// with the chain rule matrix of a Jacobian handed to it recorded for each design variable.
#ifndef VSTUB_Transformation_EXPRESSION
#define VSTUB_Transformation_EXPRESSION
#include <functional>
#include <memory>
#include <set>
#include <Eigen/Core>
#include <aslam/backend/RotationExpression.hpp>
#include <aslam/backend/JacobianContainer.hpp>
namespace aslam { namespace backend {
class TransformationExpressionNode {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Eigen::Matrix4d value; std::set<DesignVariable*> dvs; Eigen::MatrixXd applied; int times = 0;
};
class TransformationExpression {
public:
  TransformationExpression() {}
  explicit TransformationExpression(std::shared_ptr<TransformationExpressionNode> n) : node(n) {}
  TransformationExpression(const RotationExpression& R, const EuclideanExpression& t) : node(new TransformationExpressionNode) { node->value.setIdentity(); node->value.topLeftCorner<3, 3>() = R.toRotationMatrix(); node->value.topRightCorner<3, 1>() = t.toValue(); }
  std::shared_ptr<TransformationExpressionNode> root() const { return node; }
  Eigen::Matrix4d toTransformationMatrix() const { return node->value; }
  void getDesignVariables(std::set<DesignVariable*>& s) const { s.insert(node->dvs.begin(), node->dvs.end()); }
  template <typename DERIVED> void evaluateJacobians(JacobianContainer&, const Eigen::MatrixBase<DERIVED>& J) const { node->applied = J; ++node->times; }
  std::shared_ptr<TransformationExpressionNode> node;
};
} }
#endif
