#ifndef VSTUB_GN_HPP
#define VSTUB_GN_HPP
#include <aslam/backend/Optimizer2Options.hpp>
namespace aslam { namespace backend {
class GaussNewtonTrustRegionPolicy : public TrustRegionPolicy {};
} }
#endif
