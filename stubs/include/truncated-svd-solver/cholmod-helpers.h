// Stand-in for truncated_svd_solver's cholmod helpers.
#ifndef VSTUB_CHOLMOD_HELPERS
#define VSTUB_CHOLMOD_HELPERS
#include <cholmod.h>
#include <Eigen/Core>
namespace aslam_standin { namespace truncated_svd_solver {
/// view of a vector, not owning the data
inline void eigenDenseToCholmodDenseView(const Eigen::VectorXd& v, cholmod_dense* d) {
  d->nrow = v.size(); d->ncol = 1; d->nzmax = v.size(); d->d = v.size(); d->x = const_cast<double*>(v.data()); d->z = nullptr; d->xtype = CHOLMOD_REAL; d->dtype = CHOLMOD_DOUBLE; }
template <typename T> struct SelfFreeingCholmodPtr;
template <> struct SelfFreeingCholmodPtr<cholmod_sparse> {
  SelfFreeingCholmodPtr(cholmod_sparse* p, cholmod_common& c) : p(p), c(c) {}
  ~SelfFreeingCholmodPtr() { if (p) cholmod_l_free_sparse(&p, &c); }
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete;
  operator cholmod_sparse*() const { return p; }
  cholmod_sparse* operator->() const { return p; }
private:
  cholmod_sparse* p; cholmod_common& c;
};
} }
namespace truncated_svd_solver = aslam_standin::truncated_svd_solver;
#endif
