#ifndef VSTUB_BS_EUCLIDEAN
#define VSTUB_BS_EUCLIDEAN
#include <bsplines/NsecTimePolicy.hpp>
namespace bsplines { template <int ORDER, int DIM, typename TP> struct EuclideanBSpline { struct CONF { enum { Kind = DIM }; struct ManifoldConf { ManifoldConf(int) {} }; CONF(const ManifoldConf&, int order) : order(order) {} int order; }; }; }
#endif
