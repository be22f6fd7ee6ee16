// Stand-in for truncated_svd_solver::TruncatedSvdSolver; results are scripted by the harness.
#ifndef VSTUB_TSVD_H
#define VSTUB_TSVD_H
#include <cstddef>
#include <Eigen/Core>
#include <truncated-svd-solver/tsvd-solver-options.h>
#ifdef VSTUB_CHOLMOD
#include <cholmod.h>
#endif
struct cholmod_sparse_struct; struct cholmod_dense_struct;
namespace aslam_standin { namespace truncated_svd_solver {
// One observable solver state (scaled or unscaled marginal system).
struct VsState {
  Eigen::VectorXd singularValues; Eigen::MatrixXd nullSpace, rowSpace, covariance, rowSpaceCovariance;
  double log2Sum, svdTol, qrTol, numFlops; std::ptrdiff_t svdRank, svdDef, qrRank, qrDef; size_t peak, mem;
  VsState() : log2Sum(0), svdTol(0), qrTol(-1), numFlops(0), svdRank(-1), svdDef(-1), qrRank(-1), qrDef(-1), peak(0), mem(0) {}
};
class TruncatedSvdSolver {
public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& o = Options()) : tsvd_options_(o), margStartIndex_(0) {}
  virtual ~TruncatedSvdSolver() {}
  const Options& getOptions() const { return tsvd_options_; }
  Options& getOptions() { return tsvd_options_; }
  void setMargStartIndex(std::ptrdiff_t i) { margStartIndex_ = i; }
  std::ptrdiff_t getMargStartIndex() const { return margStartIndex_; }
  const Eigen::VectorXd& getSingularValues() const { return vs.singularValues; }
  const Eigen::MatrixXd& getNullSpace() const { return vs.nullSpace; }
  const Eigen::MatrixXd& getRowSpace() const { return vs.rowSpace; }
  const Eigen::MatrixXd& getCovariance() const { return vs.covariance; }
  const Eigen::MatrixXd& getRowSpaceCovariance() const { return vs.rowSpaceCovariance; }
  double getSingularValuesLog2Sum() const { return vs.log2Sum; }
  double getSVDTolerance() const { return vs.svdTol; }
  double getQRTolerance() const { return vs.qrTol; }
  std::ptrdiff_t getSVDRank() const { return vs.svdRank; }
  std::ptrdiff_t getSVDRankDeficiency() const { return vs.svdDef; }
  std::ptrdiff_t getQRRank() const { return vs.qrRank; }
  std::ptrdiff_t getQRRankDeficiency() const { return vs.qrDef; }
  size_t getPeakMemoryUsage() const { return vs.peak; }
  size_t getMemoryUsage() const { return vs.mem; }
  double getNumFlops() const { return vs.numFlops; }
  const Eigen::MatrixXd& getMatrixV() const { return vs.rowSpace; }
  // The solver proper: not modelled, the calls are recorded in hook (when set).
  struct Hook { virtual ~Hook() {} virtual void solve(cholmod_sparse_struct*, cholmod_dense_struct*, std::ptrdiff_t, Eigen::VectorXd&) = 0; virtual void analyze(cholmod_sparse_struct*, std::ptrdiff_t) = 0; virtual void cleared() = 0; };
  void solve(cholmod_sparse_struct* A, cholmod_dense_struct* b, std::ptrdiff_t j, Eigen::VectorXd& x) { if (hook) hook->solve(A, b, j, x); }
  void analyzeMarginal(cholmod_sparse_struct* A, std::ptrdiff_t j) { if (hook) hook->analyze(A, j); }
  void clear() { if (hook) hook->cleared(); }
  VsState vs; Hook* hook = nullptr;
protected:
  Options tsvd_options_; std::ptrdiff_t margStartIndex_;
#ifdef VSTUB_CHOLMOD
  cholmod_common cholmod_;
#endif
};
} }
namespace truncated_svd_solver = aslam_standin::truncated_svd_solver;
#endif
