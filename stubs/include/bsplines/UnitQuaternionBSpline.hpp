#ifndef VSTUB_BS_QUATERNION
#define VSTUB_BS_QUATERNION
#include <bsplines/NsecTimePolicy.hpp>
namespace bsplines { template <int ORDER, typename TP> struct UnitQuaternionBSpline { struct CONF { enum { Kind = 0 }; struct ManifoldConf {}; CONF(const ManifoldConf&, int order) : order(order) {} int order; }; }; }
#endif
