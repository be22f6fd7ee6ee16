from vc.util import *
from vc.eig import MX_R, MX_C, MX_EL
from vc.spec import RSUM
from vc.models import UF1, absv

CODE = '''
#include <Eigen/Core>
#include "aslam/calibration/algorithms/matrixOperations.h"
namespace aslam { namespace calibration {
template double computeSumLogDiagR<Eigen::MatrixXd>(const Eigen::MatrixXd&, size_t, size_t);
template void checkColumnIndices<Eigen::MatrixXd>(const Eigen::MatrixXd&, size_t, size_t);
template double computeSumLogDiagR<Eigen::Matrix4d>(const Eigen::Matrix4d&, size_t, size_t);
} }
'''
EPS = z3.RealVal('1/4503599627370496')      # 2^-52


def valid(cols, b, e):
    return And(b < e, e < cols)


def check_contract():
    con = Contract('checkColumnIndices<MatrixXd>', ('checkColumnIndices', 3, 'Matrix<double, -1, -1'), exc=('OutOfBoundException',))
    def post(cx, exc):
        R_, b, e = cx.old_args
        ok = valid(MX_C(R_), b, e)
        return [('valid range accepted' if exc is None else 'only invalid ranges are rejected', ok if exc is None else Not(ok))]
    con._post = post
    return con


class SumLoop(Loop):
    def __init__(self, con):
        self.con = con
    def cands(self, lc):
        out = []
        for rp in lc.reals():
            for (nm, cur) in lc.cursors():
                e0 = cur(lc.entry)
                out.append(('partial-sum', lambda s, rp=rp, cur=cur, e0=e0: lc.get(s, rp) == RSUM(self.con.w, e0, cur(s))))
                out.append(('partial-sum-rev', lambda s, rp=rp, cur=cur, e0=e0: lc.get(s, rp) == RSUM(self.con.w, cur(s) + 1, e0 + 1)))
        return out


def sum_contract(tag, sig, el, cols, rows):
    con = Contract('computeSumLogDiagR<%s>' % tag, ('computeSumLogDiagR', 3, sig), exc=('OutOfBoundException',))
    def setup(env):
        m = env.eng.read(env.st, env.vs[0])
        con.w = z3.Const(fname('w'), z3.ArraySort(I, R))
        i = z3.Int('i')
        x = lambda i: el(m, i)
        env.st.assume(fa(lambda i: con.w[i] == If(absv(x(i)) > EPS, UF1['log2'](absv(x(i))), z3.RealVal(0)), lambda i: con.w[i]))
    con.setup = setup
    con._pre = lambda cc: [('at least as many rows as columns', rows(cc.args[0]) >= cols(cc.args[0]))]
    def post(cx, exc):
        m, b, e = cx.old_args
        ok = valid(cols(m), b, e)
        if exc is None:
            return [('valid range', ok), ('sum of log2 of the significant diagonal entries', cx.ret == RSUM(con.w, b, e + 1))]
        return [('only invalid ranges are rejected', Not(ok))]
    con._post = post
    con.loop = SumLoop(con)
    return con


def fixed_el(m, i):
    r = lift(m.at(0, 0))
    for k in range(1, m.r):
        r = If(i == k, lift(m.at(k, k)), r)
    return r


class P(Property):
    id = 'C06'
    units = {'u': dict(code=CODE)}
    harness = Harness('C06.cpp', ['$REPO/incremental_calibration/src/exceptions/Exception.cpp'], quick=5, thorough=60, san=True)
    assumptions = ['computeSumLogDiagR is called on matrices with at least as many rows as columns (triangular factors); std::log2 is an uninterpreted function of its argument']
    def lemmas(self):
        from vc.spec import sum_lemmas
        return [Lemma(*x) for x in sum_lemmas()]
    def tasks(self, U):
        return [Task('u', check_contract()),
                Task('u', sum_contract('MatrixXd', 'Matrix<double, -1, -1', lambda m, i: MX_EL(m, i, i), MX_C, MX_R)),
                Task('u', sum_contract('Matrix4d', 'Matrix<double, 4, 4', fixed_el, lambda m: z3.IntVal(4), lambda m: z3.IntVal(4)))]


PROPERTY = P()
