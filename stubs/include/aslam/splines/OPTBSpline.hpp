// Stand-in for aslam_splines: a spline owns design variables.
#ifndef VSTUB_OPT_BSPLINE
#define VSTUB_OPT_BSPLINE
#include <cstddef>
#include <functional>
#include <type_traits>
#include <vector>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/VectorExpression.hpp>
#include <bsplines/NsecTimePolicy.hpp>
namespace aslam { namespace splines {
template <typename C> struct OPTBSpline {
  class BSpline {
  public:
    enum { Dim = C::Kind == 0 ? 4 : C::Kind };
    typedef Eigen::Matrix<double, Dim, 1> Point;
    typedef sm::timing::NsecTime Time;
    /// evaluation, supplied by a test: derivative, time, angular velocity?
    static std::function<Eigen::VectorXd(int, Time, bool)>& script() { static std::function<Eigen::VectorXd(int, Time, bool)> f; return f; }
    /// the design variables of a fitted spline, supplied by a test
    static std::function<std::vector<aslam::backend::DesignVariable*>()>& maker() { static std::function<std::vector<aslam::backend::DesignVariable*>()> f; return f; }
    template <int N> struct Factory {
      aslam::backend::VectorExpression<Dim> getValueExpression(int d = 0) const { return aslam::backend::VectorExpression<Dim>(script()(d, t, false)); }
      aslam::backend::VectorExpression<3> getAngularVelocityExpression() const { return aslam::backend::VectorExpression<3>(script()(1, t, true)); }
      Time t;
    };
    template <int N> Factory<N> getExpressionFactoryAt(Time t) const { return Factory<N>{t}; }
    template <int N, typename S> Factory<N> getExpressionFactoryAt(const aslam::backend::GenericScalarExpression<S>& t, Time, Time) const { return Factory<N>{t.toScalar().getNumerator()}; }
    std::vector<Time> times; std::vector<Point> points; int segments = 0, order = 0; double lambda = 0;
    BSpline() {}
    explicit BSpline(const C& c) : order(c.order) {}
    std::size_t numDesignVariables() const { return dvs.size(); }
    aslam::backend::DesignVariable* designVariable(std::size_t i) { return dvs.at(i); }
    sm::timing::NsecTime getMinTime() const { return tmin; }
    sm::timing::NsecTime getMaxTime() const { return tmax; }
    std::vector<aslam::backend::DesignVariable*> dvs;
    sm::timing::NsecTime tmin = 0, tmax = 0;
  };
};
} }
#endif
