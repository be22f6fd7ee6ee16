// Stand-in for aslam_backend's CompressedColumnMatrix: a sparse matrix a cholmod view can be taken of.
#ifndef VSTUB_CCM_HPP
#define VSTUB_CCM_HPP
#include <cstddef>
#include <vector>
struct cholmod_sparse_struct;
namespace aslam { namespace backend {
template <typename I> class CompressedColumnMatrix {
public:
  int tag;
  CompressedColumnMatrix() : tag(0), nrow(0), ncol(0) {}
  template <typename CS> void getView(CS* s) {
    s->nrow = nrow; s->ncol = ncol; s->nzmax = x.size(); s->p = p.data(); s->i = i.data(); s->nz = nullptr; s->x = x.data(); s->z = nullptr;
    s->stype = 0; s->itype = 2; s->xtype = 1; s->dtype = 0; s->sorted = 1; s->packed = 1; }
  size_t nrow, ncol; std::vector<I> p, i; std::vector<double> x;
};
} }
#endif
