#include <aslam/splines/OPTBSpline.hpp>
