#ifndef VSTUB_TSVD_OPTIONS_H
#define VSTUB_TSVD_OPTIONS_H
namespace aslam_standin { namespace truncated_svd_solver {
struct TruncatedSvdSolverOptions {
  TruncatedSvdSolverOptions() : columnScaling(true), epsNorm(1e-8), epsSVD(-1.0), epsQR(-1.0), svdTol(-1.0), qrTol(-1.0), verbose(false) {}
  bool columnScaling;
  double epsNorm, epsSVD, epsQR, svdTol, qrTol;
  bool verbose;
};
} }
namespace truncated_svd_solver = aslam_standin::truncated_svd_solver;
#endif
