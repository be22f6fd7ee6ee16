// Stand-in for aslam_optimizer's DesignVariable (not available offline).
// Same public interface; the semantics are the documented upstream ones.
#ifndef VSTUB_DESIGN_VARIABLE_HPP
#define VSTUB_DESIGN_VARIABLE_HPP
#include <cstddef>
#include <set>
#include <stdexcept>
#include <Eigen/Core>
namespace aslam { namespace backend {
class DesignVariable {
public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef std::set<DesignVariable*> set_t;
  DesignVariable() : _blockIndex(-1), _columnBase(-1), _active(false), _marginalized(false), _scaling(1.0) {}
  virtual ~DesignVariable() {}
  void update(const double* dp, int size) { updateImplementation(dp, size); }
  void revertUpdate() { revertUpdateImplementation(); }
  int minimalDimensions() const { return minimalDimensionsImplementation(); }
  bool isActive() const { return _active; }
  void setActive(bool active) { _active = active; }
  bool isMarginalized() const { return _marginalized; }
  void setMarginalized(bool m) { _marginalized = m; }
  int blockIndex() const { return _blockIndex; }
  void setBlockIndex(int b) { _blockIndex = b; }
  int columnBase() const { return _columnBase; }
  void setColumnBase(int c) { _columnBase = c; }
  double scaling() const { return _scaling; }
  void setScaling(double s) { _scaling = s; }
  void getParameters(Eigen::MatrixXd& value) const { getParametersImplementation(value); }
  Eigen::MatrixXd getParameters() const { Eigen::MatrixXd m; getParametersImplementation(m); return m; }
  void setParameters(const Eigen::MatrixXd& value) { setParametersImplementation(value); }
protected:
  virtual void revertUpdateImplementation() = 0;
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value) = 0;
private:
  int _blockIndex; int _columnBase; bool _active; bool _marginalized; double _scaling;
};
} }
#endif
