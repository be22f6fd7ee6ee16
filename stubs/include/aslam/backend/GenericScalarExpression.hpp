// Stand-in for aslam_backend_expressions' GenericScalarExpression: a value.
#ifndef VSTUB_GENERIC_SCALAR_EXPRESSION
#define VSTUB_GENERIC_SCALAR_EXPRESSION
#include <aslam/backend/GenericScalar.hpp>
#endif
