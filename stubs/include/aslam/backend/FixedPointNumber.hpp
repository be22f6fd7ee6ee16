// Stand-in for aslam_backend's fixed point number: a number of 1/D-ths.
#ifndef VSTUB_FIXED_POINT
#define VSTUB_FIXED_POINT
#include <cstdint>
namespace aslam { namespace backend {
template <typename I, std::uintmax_t D> class FixedPointNumber {
public:
  typedef I Integer;
  FixedPointNumber() : _n(0) {}
  FixedPointNumber(I n) : _n(n) {}
  I getNumerator() const { return _n; }
  operator double() const { return static_cast<double>(_n) / static_cast<double>(D); }
private:
  I _n;
};
} }
#endif
