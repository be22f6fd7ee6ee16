"""The calibrators cut the measurement stream into windows and hand every measurement of a window to exactly one batch."""
from vc.util import *
from vc.eig import eqv
from vc.models import Hook
from vc.values import Rec, Obj, PtrTo, LV, VecV, sort_of, parse_type
import re
import vc.ast
from contracts import ptree, fit
from contracts.C19 import fld
K = Contract
XR = vc.ast.REPO + '/incremental_calibration_examples/incremental_calibration_examples_'
LOG = ('ghost', 'log')
PARAMS = z3.Function('calibration_parameters', I, sort_of(parse_type('Eigen::VectorXd')))     # of the design variables after so many estimates
GAIN = z3.Const('information_gain', R)


def log(st, *x):
    st.store[LOG] = Obj('log', items=st.store[LOG].items + (x,))


class World(Hook):
    """batch, estimator, design variables, spline fit and error term builders: every call is recorded, in order, with what it was given"""
    def each(self, eng, args, st, n, f):
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if len(args) != n:
            raise Unsupported('unexpected number of arguments')
        return [(t, f(t, vs)) for (t, vs) in eng.ev_list(args, st)]
    def batch(self, eng, t, v):
        v = eng.read(t, v)
        if not (isinstance(v, PtrTo) and v.lv.root[0] == 'batch'):
            raise Unsupported('batch')
        return v.lv.root[1]
    def member(self, eng, e, me, st, lv, obj, name, args):
        if isinstance(obj, Rec) and lv is not None and lv.root == ('obj', 'this') and not lv.path:
            m = re.match(r'add(\w+)ErrorTerms$', name)
            if m:
                return self.each(eng, args, st, 2, lambda t, vs: log(t, 'terms', m.group(1), eng.read(t, vs[0]), self.batch(eng, t, vs[1]), self.splines(t)))
            if name == 'initSplines':
                def fit(t, vs):
                    v = eng.read(t, vs[0])
                    this = t.store[('obj', 'this')]
                    n = sum(1 for x in t.store[LOG].items if x[0] == 'fit')
                    for f, w in (('_translationSpline', 'translation'), ('_rotationSpline', 'rotation')):
                        this = this.with_(f, PtrTo(LV(('spline', (w, n)))))
                    t.store[('obj', 'this')] = this
                    log(t, 'fit', v, n)
                return self.each(eng, args, st, 1, fit)
            m = re.match(r'predict(\w+)$', name)
            if m:
                return self.each(eng, args, st, 1, lambda t, vs: log(t, 'predict', m.group(1).replace('Poses', 'Pose'), eng.read(t, vs[0]), self.splines(t)))
        if isinstance(obj, Obj) and obj.tag == 'batch':
            if name == 'addSpline':
                def add(t, vs):
                    p = eng.read(t, vs[0])
                    log(t, 'spline', lv.root[1], p.lv.root[1] if isinstance(p, PtrTo) and p.lv.root[0] == 'spline' else None, eng.read(t, vs[1]))
                return self.each(eng, args, st, 2, add)
            if name == 'setGroupsOrdering':
                return self.each(eng, args, st, 1, lambda t, vs: log(t, 'ordering', lv.root[1], eng.read(t, vs[0])))
            raise Unsupported('batch operation ' + name)
        if obj is None and isinstance(lv, LV) and isinstance(lv.root, tuple) and lv.root[0] == 'heapobj':
            who = next((k for k in ('_estimator', '_odometryDesignVariables') if fld(st.store[('obj', 'this')], k) is lv.root[1] or z3.eq(fld(st.store[('obj', 'this')], k), lv.root[1])), None)
            if who == '_odometryDesignVariables' and name == 'addToBatch':
                return self.each(eng, args, st, 2, lambda t, vs: log(t, 'variables', self.batch(eng, t, vs[0]), eng.read(t, vs[1])))
            if who == '_odometryDesignVariables' and name == 'getParameters' and not args:
                return [(st, PARAMS(z3.IntVal(sum(1 for x in st.store[LOG].items if x[0] == 'estimate'))))]
            if who == '_estimator' and name == 'addBatch':
                def est(t, vs):
                    log(t, 'estimate', self.batch(eng, t, vs[0]))
                    return Rec('aslam::calibration::IncrementalEstimator::ReturnValue', {'informationGain': GAIN, 'batchAccepted': z3.Bool('accepted')})
                return self.each(eng, args, st, 1, est)
        return None
    def splines(self, t):
        this = t.store[('obj', 'this')]
        out = []
        for f in ('_translationSpline', '_rotationSpline'):
            p = fld(this, f)
            out.append(p.lv.root[1] if isinstance(p, PtrTo) and p.lv.root[0] == 'spline' else None)
        return tuple(out)
    def function(self, eng, e, ref, name, args, st):
        if name == 'make_shared':
            txt = ' '.join((ref.get('type') or {}).get(k, '') for k in ('qualType', 'desugaredQualType')) + ' ' + str(vc.ast.qt(e))
            if 'OptimizationProblemSpline' in txt and not args:
                n = len([r for r in st.store if r[0] == 'batch'])
                st.store[('batch', n)] = Obj('batch')
                log(st, 'new', n)
                return [(st, PtrTo(LV(('batch', n))))]
        if name == 'nsecToSec' and len(args) == 1:
            return [(t, z3.ToReal(eng.read(t, vs[0])) / 1000000000) for (t, vs) in eng.ev_list(args, st)]
        return None


KINDS = ('Pose', 'Velocities', 'DMI', 'FrontWheels', 'RearWheels', 'Steering', 'LeftWheel', 'RightWheel')
NAMES = {'Pose': 'predictPoses'}
OPTS = {'hooks': [World(), ptree.Tree()], 'mute': True, 'assumed': ('initSplines',) + tuple('add%sErrorTerms' % k for k in KINDS) + tuple(NAMES.get(k, 'predict' + k) for k in KINDS)}


class Windows:
    """kinds: measurement list -> (name of the function which adds to it, its error terms, condition from the options)"""
    def __init__(self, unit, cls, kinds):
        self.unit, self.cls, self.kinds = unit, cls, kinds
    def setup(self, env):
        st = env.st
        st.store[LOG] = Obj('log', items=())
        this = st.store[('obj', 'this')]
        st.assume(And(fld(this, '_estimator') > 0, fld(this, '_odometryDesignVariables') > 0))
        st.assume(And([fld(st.store[('obj', 'this')], l).n >= 0 for l in self.kinds]))
    def opt(self, o, n):
        return fld(fld(o, '_options'), n)
    def unchanged(self, cx, a, b, but=()):
        return [('%s as before' % f, eqv(b.f[f], a.f[f])) for f in a.f if f not in but and f.startswith('_')]
    def same(self, a, b):
        return And(b.n == a.n, z3.BoolVal(True) if a.a.eq(b.a) else fa(lambda k: Imp(And(0 <= k, k < a.n), b.a[k] == a.a[k]), lambda k: [b.a[k]]))
    def appended(self, a, b, item):
        return And(b.n == a.n + 1, b.a[a.n] == item, fa(lambda k: Imp(And(0 <= k, k < a.n), b.a[k] == a.a[k]), lambda k: [b.a[k]]))
    def batch(self, cx):
        """what has to be handed to the estimator"""
        a, b, ev = cx.old, cx.new, cx.st.store[LOG].items
        of = lambda k: [(i, x) for i, x in enumerate(ev) if x[0] == k]
        new, est, fits = of('new'), of('estimate'), of('fit')
        yes = lambda x: z3.BoolVal(bool(x))
        out = [('one batch is handed to the estimator', yes(len(est) == 1 and est[0][1][1] in [x[1] for _, x in new]))]
        if len(est) != 1:
            return out
        pos, bid = est[0][0], est[0][1][1]
        before = lambda L: all(i < pos for i, x in L)
        out.append(('the splines are fitted once, to the poses of the window', And(yes(len(fits) == 1), *[self.same(a.f['_poseMeasurements'], x[1]) for _, x in fits])))
        vs = of('variables')
        out.append(('the calibration variables are in the batch once, in group 1', And(yes(len(vs) == 1 and before(vs) and vs[0][1][1] == bid), *[x[2] == 1 for _, x in vs])))
        sp = of('spline')
        out.append(('both splines fitted to the window are in the batch, in group 0', And(yes(sorted(str(x[2]) for _, x in sp) == [str(('rotation', 0)), str(('translation', 0))] and before(sp) and all(x[1] == bid for _, x in sp)), *[x[3] == 0 for _, x in sp])))
        od = of('ordering')
        def ordered(v):
            return And(v.n == 2, v.a[0] == 0, v.a[1] == 1) if isinstance(v, VecV) else z3.BoolVal(False)
        out.append(('the splines are ordered before the calibration variables', And(yes(od and before(od) and od[-1][1][1] == bid), *[ordered(x[2]) for _, x in od[-1:]])))
        terms = of('terms')
        for l, (add, kind, cond) in self.kinds.items():
            T = [(i, x) for i, x in terms if x[1] == kind]
            c = cond(self, a)
            out.append(('%s: the measurements of the window become error terms exactly once' % kind, And(yes(len(T) <= 1), c == yes(T))))
            for i, x in T:
                out.append(('%s: all measurements of the window, in order, and no others' % kind, And(self.same(a.f[l], x[2]), yes(i < pos and x[3] == bid and x[4] == (('translation', 0), ('rotation', 0))))))
        out.append(('no other error terms', yes(all(x[1] in [k for _, k, _ in self.kinds.values()] for _, x in terms))))
        h, g = a.f['_infoGainHistory'], b.f['_infoGainHistory']
        out.append(('the information gain is added to its history', self.appended(h, g, GAIN)))
        h, g = a.f['_odometryVariablesHistory'], b.f['_odometryVariablesHistory']
        out.append(('the estimated parameters are added to their history', self.appended(h, g, PARAMS(z3.IntVal(1)))))
        return out
    def tasks(self):
        n = lambda m: '%s::%s' % (self.cls, m)
        S = ('_currentBatchStartTimestamp', '_lastTimestamp', '_infoGainHistory', '_odometryVariablesHistory', '_translationSpline', '_rotationSpline')
        enough = lambda a: a.f['_poseMeasurements'].n >= 2
        def step(cx, ts=None, l=None, item=None):
            """the state after a measurement (or a forced batch)"""
            a, b, ev = cx.old, cx.new, cx.st.store[LOG].items
            st, la = fld(a, '_currentBatchStartTimestamp'), fld(a, '_lastTimestamp')
            if ts is None:
                due, start, last = enough(a), st, la
            else:
                start, last = If(st == -1, ts, st), ts
                due = And(z3.ToReal(ts - start) / 1000000000 >= self.opt(a, 'windowDuration'), enough(a))
            made = any(x[0] == 'estimate' for x in ev)
            out = [('the last time is that of the last measurement', fld(b, '_lastTimestamp') == last)]
            if made:
                out += [('a batch is only made of a complete window with two poses', due)] + self.batch(cx)
                out.append(('the next window starts with the last measurement', fld(b, '_currentBatchStartTimestamp') == last))
            else:
                out += [('a complete window with two poses is handed over', Not(due)), ('the start of the window', fld(b, '_currentBatchStartTimestamp') == start), ('nothing is handed over', z3.BoolVal(not ev))]
            for k in self.kinds:
                u, v = a.f[k], b.f[k]
                if k == l:
                    out.append(('%s: the measurement is kept' % k, And(v.n == 1, v.a[0] == item) if made else self.appended(u, v, item)))
                else:
                    out.append(('%s: %s' % (k, 'none left over from the window' if made else 'kept until the window is complete'), v.n == 0 if made else self.same(u, v)))
            return out + self.unchanged(cx, a, b, tuple(self.kinds) + (S if made else S[:2]))
        def force(cx, exc):
            return step(cx)
        out = [Task(self.unit, K(n('addMeasurements'), (n('addMeasurements'), 0), modifies=[('this', None)], setup=self.setup, post=force), tag=self.unit, opts=OPTS)]
        for l, (add, kind, cond) in self.kinds.items():
            con = K(n(add), (n(add), 2), modifies=[('this', None)])
            def setup(env, l=l, con=con):
                self.setup(env)
                T = env.st.store[('obj', 'this')].f[l].T
                con.x = z3.Const('measurement', sort_of(T[2]))
                env.st.store[('obj', 'arg0')] = con.x
                con.T = T
            def post(cx, exc, l=l, con=con):
                ts = cx.old_args[1]
                return step(cx, ts, l, sort_of(con.T).constructor(0)(ts, con.x))
            con.setup, con._post = setup, post
            out.append(Task(self.unit, con, tag=self.unit, opts=OPTS))
        def cleared(cx, exc):
            return [('%s emptied' % l, cx.new.f[l].n == 0) for l in self.kinds] + self.unchanged(cx, cx.old, cx.new, tuple(self.kinds))
        out.append(Task(self.unit, K(n('clearMeasurements'), (n('clearMeasurements'), 0), modifies=[('this', None)], setup=self.setup, post=cleared), tag=self.unit, opts=OPTS))
        preds = lambda o: [f for f in o.f if 'Pred' in f]
        def pcleared(cx, exc):
            return [('%s emptied' % l, cx.new.f[l].n == 0) for l in preds(cx.old)] + self.unchanged(cx, cx.old, cx.new, tuple(preds(cx.old)))
        out.append(Task(self.unit, K(n('clearPredictions'), (n('clearPredictions'), 0), modifies=[('this', None)], setup=self.setup, post=pcleared), tag=self.unit, opts=OPTS))
        out.append(Task(self.unit, K(n('unprocessedMeasurements'), (n('unprocessedMeasurements'), 0), setup=self.setup, post=lambda cx, exc: [('whether a measurement of any kind waits', cx.ret == Or([cx.old.f[l].n > 0 for l in self.kinds]))]), tag=self.unit, opts=OPTS))
        def predicted(cx, exc):
            ev = cx.st.store[LOG].items
            of = lambda k: [(i, x) for i, x in enumerate(ev) if x[0] == k]
            yes = lambda x: z3.BoolVal(bool(x))
            F = of('fit')
            o = [('the splines are fitted to the poses', And(yes(len(F) == 1), *[self.same(cx.old.f['_poseMeasurements'], x[1]) for _, x in F])), ('the measurements are kept', And([self.same(cx.old.f[l], cx.new.f[l]) for l in self.kinds])),
                 ('nothing is estimated', yes(not of('estimate')))]
            for l, (add, kind, cond) in self.kinds.items():
                T = [x for _, x in of('predict') if x[1] == kind]
                o.append(('%s: every measurement is predicted once, with the fitted splines' % kind, And(yes(len(T) == 1), *[And(self.same(cx.old.f[l], x[2]), yes(x[3] == (('translation', 0), ('rotation', 0)))) for x in T])))
            return o
        out.append(Task(self.unit, K(n('predict'), (n('predict'), 0), modifies=[('this', None)], setup=self.setup, post=predicted), tag=self.unit, opts=OPTS))
        return out


always = lambda w, o: z3.BoolVal(True)
flag = lambda f: lambda w, o: w.opt(o, f)
CAR = {'_poseMeasurements': ('addPoseMeasurement', 'Pose', flag('usePose')), '_velocitiesMeasurements': ('addVelocitiesMeasurement', 'Velocities', flag('useVelocities')), '_dmiMeasurements': ('addDMIMeasurement', 'DMI', always),
       '_frontWheelSpeedsMeasurements': ('addFrontWheelsMeasurement', 'FrontWheels', always), '_rearWheelSpeedsMeasurements': ('addRearWheelsMeasurement', 'RearWheels', always), '_steeringMeasurements': ('addSteeringMeasurement', 'Steering', always)}
DELAY = {'_poseMeasurements': ('addPoseMeasurement', 'Pose', always), '_leftWheelSpeedMeasurements': ('addLeftWheelMeasurement', 'LeftWheel', always), '_rightWheelSpeedMeasurements': ('addRightWheelMeasurement', 'RightWheel', always)}


class P(Property):
    id = 'C21'
    units = {'car': dict(code='#include "%scar/src/algo/CarCalibrator.cpp"\n' % XR, flt='aslam', extra=('-I%scar/include' % XR,)),
             'delay': dict(code='#include "%stime_delay/src/algo/Calibrator.cpp"\n' % XR, flt='aslam', extra=('-I%stime_delay/include' % XR,))}
    assumptions = ['the builders and predictions of error terms, initSplines and the estimator are called by contract (recorded, with what they are given); the builders are under contract in C22, the estimator in C04, initSplines here',
                   'initSplines: two poses at different times; bestQuat by a function of its arguments (under contract in C16); BSplineFitter is external (recorded, with what it is given); quaternion conversions are uninterpreted',
                   'the estimator does not throw; console output has no effect; nanoseconds are converted to seconds by division',
                   'the egomotion calibrator is not under contract']
    harness = Harness('C21.cpp', ['$REPO/incremental_calibration/src/core/OptimizationProblem.cpp', '$REPO/incremental_calibration/src/base/Serializable.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'],
                      flags=['-I$REPO/incremental_calibration_examples', '-I$REPO/aslam_tsvd_solver/include'] + ['-I$REPO/incremental_calibration_examples/incremental_calibration_examples_%s/include' % x for x in ('car', 'time_delay')], quick=8, thorough=60, san=True)
    def tasks(self, U):
        return Windows('car', 'CarCalibrator', CAR).tasks() + Windows('delay', 'Calibrator', DELAY).tasks() + fit.tasks()


PROPERTY = P()
