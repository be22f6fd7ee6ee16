#ifndef VSTUB_NSEC_TIME
#define VSTUB_NSEC_TIME
#include <cstdint>
namespace sm { namespace timing {
typedef std::int64_t NsecTime;
inline double nsecToSec(const NsecTime& t) { return static_cast<double>(t) * 1e-9; }
inline NsecTime secToNsec(const double& t) { return static_cast<NsecTime>(t * 1e9); }
} }
#endif
