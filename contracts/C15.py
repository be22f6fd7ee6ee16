from vc.util import *

SIZES2 = [(1, 1), (1, 3), (2, 3), (3, 2), (3, 3), (4, 4), (6, 5)]
SIZES1 = [1, 2, 3, 4, 5, 6]
CODE = '''
#include <Eigen/Core>
#include "aslam/calibration/utils/OuterProduct.h"
namespace OuterProduct {
%s
}
''' % '\n'.join(['template Eigen::Matrix<double, %d, %d> compute<double, %d, %d>(const Eigen::Matrix<double, %d, 1>&, const Eigen::Matrix<double, %d, 1>&);' % (m, n, m, n, m, n) for m, n in SIZES2] +
                ['template Eigen::Matrix<double, %d, %d> compute<double, %d>(const Eigen::Matrix<double, %d, 1>&);' % (m, m, m, m) for m in SIZES1] +
                ['template Eigen::Matrix<int, 3, 3> compute<int, 3>(const Eigen::Matrix<int, 3, 1>&);', 'template Eigen::Matrix<int, 2, 3> compute<int, 2, 3>(const Eigen::Matrix<int, 2, 1>&, const Eigen::Matrix<int, 3, 1>&);'])


def contract(tag, m, n, one):
    con = Contract('OuterProduct::compute<%s,%d,%d>%s' % (tag, m, n, '(self)' if one else ''),
                   ('compute', 1 if one else 2, 'Matrix<%s, %sUL, %sUL>' % (tag, m, n)))
    def post(cx, exc):
        a = cx.old_args[0]
        b = a if one else cx.old_args[1]
        r = cx.ret
        return [('entry (%d,%d) is the product of the entries' % (i, j), lift(r.at(i, j)) == lift(a.at(i, 0)) * lift(b.at(j, 0))) for i in range(m) for j in range(n)]
    con._post = post
    return con


class P(Property):
    id = 'C15'
    units = {'u': dict(code=CODE, flt='OuterProduct')}
    harness = Harness('C15.cpp', [], quick=3, thorough=30, san=True)
    assumptions = ['the size is a template parameter of the code, so each instantiation is its own function: proved for the sizes listed under functions_under_contract (for all entries); the source is the same for every size']
    def tasks(self, U):
        return [Task('u', contract('double', m, n, False)) for m, n in SIZES2] + [Task('u', contract('double', m, m, True)) for m in SIZES1] + \
            [Task('u', contract('int', 3, 3, True)), Task('u', contract('int', 2, 3, False))]


PROPERTY = P()
