#ifndef VSTUB_V2RQ_ADAPTER
#define VSTUB_V2RQ_ADAPTER
#include <aslam/backend/RotationExpression.hpp>
#include <aslam/backend/VectorExpression.hpp>
namespace aslam { namespace backend {
struct Vector2RotationQuaternionExpressionAdapter { static RotationExpression adapt(const VectorExpression<4>& v) { return RotationExpression(sm::kinematics::quat2r(v.toValue())); } };
} }
#endif
