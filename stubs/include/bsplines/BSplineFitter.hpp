#ifndef VSTUB_BS_FITTER
#define VSTUB_BS_FITTER
#include <vector>
#include <bsplines/NsecTimePolicy.hpp>
namespace bsplines {
template <typename S> struct BSplineFitter {
  template <typename P> static void initUniformSpline(S& s, const std::vector<sm::timing::NsecTime>& t, const std::vector<P>& p, int n, double lambda) {
    s.times = t; s.points.assign(p.begin(), p.end()); s.segments = n; s.lambda = lambda; s.tmin = t.front(); s.tmax = t.back();
    if (S::maker()) s.dvs = S::maker()(); }
};
}
#endif
