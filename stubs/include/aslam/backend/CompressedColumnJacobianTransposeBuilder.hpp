// Stand-in for aslam_backend's Jacobian builder; records what it is asked to do.
#ifndef VSTUB_CCJTB_HPP
#define VSTUB_CCJTB_HPP
#include <vector>
#include <aslam/backend/CompressedColumnMatrix.hpp>
namespace aslam { namespace backend {
class DesignVariable; class ErrorTerm;
struct BuilderLog { std::vector<DesignVariable*> dvs; std::vector<ErrorTerm*> errors; size_t threads = 0; bool mest = false; int inits = 0, builds = 0; };
template <typename I> class CompressedColumnJacobianTransposeBuilder {
public:
  CompressedColumnMatrix<I> J; BuilderLog log;
  CompressedColumnMatrix<I>& J_transpose() { return J; }
  const CompressedColumnMatrix<I>& J_transpose() const { return J; }
  void buildSystem(size_t n, bool m) { log.threads = n; log.mest = m; ++log.builds; }
  void initMatrixStructure(const std::vector<DesignVariable*>& d, const std::vector<ErrorTerm*>& e) { log.dvs = d; log.errors = e; ++log.inits; }
};
} }
#endif
