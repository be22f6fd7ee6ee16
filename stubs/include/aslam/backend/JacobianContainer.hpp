#ifndef VSTUB_JACOBIAN_CONTAINER_HPP
#define VSTUB_JACOBIAN_CONTAINER_HPP
#include <map>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
namespace aslam { namespace backend {
class JacobianContainer {
public:
  typedef std::map<DesignVariable*, Eigen::MatrixXd> map_t;
  explicit JacobianContainer(int rows) : _rows(rows) {}
  template <typename DERIVED> void add(DesignVariable* dv, const Eigen::MatrixBase<DERIVED>& J) {
    auto it = _J.find(dv);
    if (it == _J.end()) _J[dv] = J; else it->second += J;
  }
  const Eigen::MatrixXd& Jacobian(const DesignVariable* dv) const {
    return _J.at(const_cast<DesignVariable*>(dv)); }
  bool has(const DesignVariable* dv) const { return _J.count(const_cast<DesignVariable*>(dv)); }
  size_t numDesignVariables() const { return _J.size(); }
  int rows() const { return _rows; }
  const map_t& map() const { return _J; }
private:
  int _rows; map_t _J;
};
} }
#endif
