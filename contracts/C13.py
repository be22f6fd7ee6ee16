from vc.util import *
from vc.models import Hook, UF1
from contracts.C09 import fld, same_all, copying
K = Contract
STR = z3.StringSort()

CODE = '''
#include <string>
#include <iostream>
#include <sstream>
#include <fstream>
#include "$REPO/incremental_calibration/src/base/Timestamp.cpp"
#include "$REPO/incremental_calibration/src/base/Serializable.cpp"
#include "$REPO/incremental_calibration/src/exceptions/Exception.cpp"
#include "$REPO/incremental_calibration/src/exceptions/InvalidOperationException.cpp"
#include "$REPO/incremental_calibration/src/exceptions/NullPointerException.cpp"
#include "aslam/calibration/exceptions/OutOfBoundException.h"
#include "aslam/calibration/exceptions/BadArgumentException.h"
namespace aslam { namespace calibration {
template class OutOfBoundException<double>;
template class OutOfBoundException<unsigned long>;
template class OutOfBoundException<int>;
template class BadArgumentException<double>;
template class BadArgumentException<unsigned long>;
template class BadArgumentException<std::string>;
} }
'''
fmt_int = z3.Function('decimal', I, STR)
fmt_real = z3.Function('stream_real', R, STR)
date_text = z3.Function('strftime', STR, I, STR)     # format, calendar time
S = z3.StringVal


def text(v):
    if isinstance(v, Obj) and v.tag in ('str', 'sstream', 'stream'):
        s = getattr(v, 's', None)
        if isinstance(s, str):
            return S(s[1:-1] if len(s) > 1 and s[0] == s[-1] == '"' else s)
        return s
    if z3.is_expr(v) and v.sort() == STR:
        return v
    return None


def render(v):
    t = text(v)
    if t is not None:
        return t
    if z3.is_expr(v):
        return fmt_real(v) if v.sort() == R else fmt_int(v) if v.sort() == I else None
    return None


class StrHook(Hook):
    """std::string, string streams and the C library's clock, as texts"""
    def member(self, eng, e, me, st, lv, obj, name, args):
        t = text(obj)
        if t is None:
            return None
        if name in ('str', 'c_str', 'what', 'data') and not [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']:
            return [(st, t)]
        if name == 'append' and len(args) == 1:
            out = []
            for (u, vs) in eng.ev_list(args, st):
                w = text(eng.read(u, vs[0]))
                if w is None:
                    raise Unsupported('append')
                eng.write(u, lv, z3.Concat(text(eng.read(u, lv)), w))
                out.append((u, lv))
            return out
        if name in ('empty', 'size', 'length'):
            n = z3.Length(t)
            return [(st, n == 0 if name == 'empty' else n)]
        raise Unsupported('string operation ' + name)
    def operator(self, eng, e, st, op, vs, av, bv):
        a, b = text(av), text(bv)
        if op == '<<' and isinstance(av, Obj) and av.tag in ('sstream', 'stream') and a is not None:
            r = render(bv)
            if r is None:
                raise Unsupported('rendering of %r' % (bv,))
            eng.write(st, vs[0], Obj(av.tag, s=z3.Concat(a, r)))
            return [(st, vs[0])]
        if a is None or (len(vs) > 1 and b is None):
            return None
        if op in ('==', '!='):
            return [(st, a == b if op == '==' else a != b)]
        if op == '+':
            return [(st, z3.Concat(a, b))]
        if op in ('=', '+='):
            eng.write(st, vs[0], b if op == '=' else z3.Concat(a, b))
            return [(st, vs[0])]
        return None
    def construct(self, eng, e, T, args, st):
        if T.k == 'str':
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not args:
                return [(st, S(''))]
            out = []
            for (t, vs) in eng.ev_list(args, st):
                w = text(eng.read(t, vs[0]))
                if w is None or len(vs) > 1:
                    raise Unsupported('string constructor')
                out.append((t, w))
            return out
        if 'stringstream' in A.qt(e) and not args:
            return [(st, Obj('sstream', s=S('')))]
        for c in ('timeval', 'timespec'):
            if A.qt(e).split('::')[-1] == c and not args:
                return [(st, Rec(c, {}))]
        return None
    def function(self, eng, e, ref, name, args, st):
        if name == 'gettimeofday':
            out = []
            for (t, vs) in eng.ev_list(args, st):
                lv = eng.deref(t, vs[0])
                s, u = z3.Int('clock.seconds'), z3.Int('clock.microseconds')
                t.assume(z3.And(s >= 0, u >= 0, u < 1000000))
                eng.write(t, lv, Rec('timeval', {'tv_sec': s, 'tv_usec': u}))
                t.store[('ghost', 'clock')] = z3.BoolVal(True)
                out.append((t, z3.IntVal(0)))
            return out
        if name == 'localtime':
            out = []
            for (t, vs) in eng.ev_list(args, st):
                v = eng.read(t, eng.deref(t, vs[0]))
                r = eng.new_tmp(t, Obj('tm', t=v))
                out.append((t, PtrTo(r)))
            return out
        if name == 'strftime':
            out = []
            for (t, vs) in eng.ev_list(args, st):
                buf = vs[0].lv if isinstance(vs[0], PtrTo) else vs[0]
                tm = eng.read(t, eng.deref(t, vs[3]))
                f = text(eng.read(t, vs[2]))
                if f is None or not isinstance(tm, Obj) or tm.tag != 'tm':
                    raise Unsupported('strftime')
                n = eng.read(t, vs[1])
                eng.oblige(t, n >= 20, 'safety:buffer large enough for the date')
                eng.write(t, buf, Obj('str', s=date_text(f, tm.t)))
                out.append((t, z3.IntVal(19)))
            return out
        return None


from vc import ast as A


def sec(o):
    r = [v for v in o.f.values() if z3.is_expr(v) and v.sort() == R]
    if len(r) != 1:
        raise Unsupported('the seconds of a timestamp')
    return r[0]


def contracts():
    out = []
    T = 'Timestamp'
    n = lambda m: T + '::' + m
    sf = [('this', None)]
    out.append(K(n('ctor'), (n(T), 1, '(double)'), post=lambda cx, exc: [('keeps the seconds', sec(cx.new) == cx.old_args[0])]))
    out.append(K(n('copy'), (n(T), 1, 'const Timestamp'), post=lambda cx, exc: [('equal to the original', sec(cx.new) == sec(cx.old_args[0]))]))
    out.append(K(n('operator='), (n('operator='), 1), modifies=sf, post=lambda cx, exc: [('equal to the original', sec(cx.new) == sec(cx.old_args[0])), ('returns itself', is_this(cx))]))
    out.append(K(n('getSeconds'), (n('getSeconds'), 0), post=lambda cx, exc: [('the seconds', cx.ret == sec(cx.old))]))
    out.append(K(n('operator double'), (n('operator double'), 0), post=lambda cx, exc: [('the seconds', cx.ret == sec(cx.old))]))
    def spec(cx, exc):
        s, r = sec(cx.old), cx.ret
        a, b = r.f['tv_sec'], r.f['tv_nsec']
        return [('whole seconds', And(z3.ToReal(a) <= s, s < z3.ToReal(a) + 1)), ('nanoseconds below one second', And(b >= 0, b < 1000000000)),
                ('together the instant to the nanosecond', And(z3.ToReal(b) <= (s - z3.ToReal(a)) * 1000000000, (s - z3.ToReal(a)) * 1000000000 < z3.ToReal(b) + 1))]
    out.append(K(n('operator timespec'), (n('operator timespec'), 0), pre=lambda cx: [('not before the epoch', sec(cx.old) >= 0)], post=spec))
    ops = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '+': lambda a, b: a + b, '-': lambda a, b: a - b}
    for o, f in ops.items():
        out.append(K(n('operator%s(Timestamp)' % o), (n('operator' + o), 1, 'const Timestamp'), post=lambda cx, exc, f=f: [('that of the seconds', cx.ret == f(sec(cx.old), sec(cx.old_args[0])))]))
        out.append(K(n('operator%s(double)' % o), (n('operator' + o), 1, '(double)'), post=lambda cx, exc, f=f: [('that of the seconds', cx.ret == f(sec(cx.old), cx.old_args[0]))]))
    for o in ('+', '-'):
        out.append(K(n('operator%s=' % o), (n('operator%s=' % o), 1), modifies=sf, post=lambda cx, exc, f=ops[o]: [('shifted by the seconds', sec(cx.new) == f(sec(cx.old), cx.old_args[0])), ('returns itself', is_this(cx))]))
    cs, cu = z3.Int('clock.seconds'), z3.Int('clock.microseconds')
    out.append(K(n('now'), (n('now'), 0), post=lambda cx, exc: [('clock time in seconds', cx.ret == z3.ToReal(cs) + z3.ToReal(cu) / 1000000)]))
    out.append(K(n('getDate()'), (n('getDate'), 0), post=lambda cx, exc: [('local date and time of the clock', text(cx.ret) == date_text(S('%Y-%m-%d %H:%M:%S'), cs))]))
    out.append(K(n('getDate(seconds)'), (n('getDate'), 1), pre=lambda cx: [('not before the epoch', cx.old_args[0] >= 0)],
                 post=lambda cx, exc: [('local date and time of the instant', text(cx.ret) == date_text(S('%Y-%m-%d-%H-%M-%S'), z3.ToInt(cx.old_args[0])))]))
    stream_arg(out, K(n('write(ostream)'), (n('write'), 1, 'std::ostream'), modifies=[('arg', 0)],
                      post=lambda cx, exc: [('seconds as text', text(cx.new_args[0]) == z3.Concat(text(cx.old_args[0]), S('seconds: '), fmt_real(sec(cx.old))))]))
    # exceptions
    E = 'Exception'
    e = lambda m: E + '::' + m
    strs = lambda o: [k for k, v in o.f.items() if z3.is_expr(v) and v.sort() == STR]
    opt = lambda c, s: If(c, s, S(''))
    def message(msg, file, line, fun):
        return z3.Concat(opt(fun != S(' '), z3.Concat(fun, S(': '))), msg, opt(file != S(' '), z3.Concat(S(' [file = '), file, S(']'))), opt(line != 0, z3.Concat(S('[line = '), fmt_int(line), S(']'))))
    om = lambda o: fld(o, 'mOutputMessage')
    def mk(name, C, nargs, sig, msg):
        out.append(K(name, (C + '::' + C.split('<')[0], nargs, sig) if sig else (C + '::' + C.split('<')[0], nargs), post=lambda cx, exc: [('reports function, message, file and line', om(cx.new) == msg(cx.old_args))]))
    mk(e('ctor'), E, 4, None, lambda a: message(*a))
    mk('InvalidOperationException::ctor', 'InvalidOperationException', 4, None, lambda a: message(*a))
    mk('NullPointerException::ctor', 'NullPointerException', 4, None, lambda a: message(z3.Concat(a[0], S(' is a null pointer')), *a[1:]))
    for X, f in (('double', fmt_real), ('unsigned long', fmt_int), ('int', fmt_int)):
        mk('OutOfBoundException<%s>::ctor' % X, 'OutOfBoundException<%s>' % X, 5, None, lambda a, f=f: z3.Concat(message(*a[1:]), S('[argument = '), f(a[0]), S(']')))
        mk('OutOfBoundException<%s>::ctor(bound)' % X, 'OutOfBoundException<%s>' % X, 6, None, lambda a, f=f: z3.Concat(message(*a[2:]), S('[argument = '), f(a[0]), S('][bound = '), f(a[1]), S(']')))
    for X, f in (('double', fmt_real), ('unsigned long', fmt_int), ('std::basic_string<char>', lambda s: s)):
        mk('BadArgumentException<%s>::ctor' % X, 'BadArgumentException<%s>' % X, 5, None, lambda a, f=f: z3.Concat(message(*a[1:]), S('[argument = '), f(a[0]), S(']')))
    for C in ('Exception', 'InvalidOperationException', 'NullPointerException'):
        m = lambda s, C=C: C + '::' + s
        out.append(K(m('copy'), (m(C), 1, 'const ' + C), post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]))
        out.append(K(m('operator='), (m('operator='), 1), modifies=sf, post=lambda cx, exc: [('equal to the original', same_all(cx.new, cx.old_args[0]))]))
    out.append(K(e('what'), (e('what'), 0), post=lambda cx, exc: [('the message', text(cx.ret) == om(cx.old))]))
    for (C, op, meth) in (('std::ostream', '<<', 'write'), ('std::istream', '>>', 'read'), ('std::ofstream', '<<', 'write'), ('std::ifstream', '>>', 'read')):
        def post(cx, exc, C=C, meth=meth):
            calls = cx.new_store.get(('ghost', 'calls'), ())
            return [('the object itself %ss, once, through the overload of this stream' % meth, z3.BoolVal([c[0] for c in calls] == [(meth, C)] and calls[0][1] == cx.argl[1].root and calls[0][2] == cx.argl[0].root)),
                    ('the stream is returned', z3.BoolVal(cx.retlv is not None and cx.retlv.root == cx.argl[0].root))]
        con = K('operator%s(%s)' % (op, C), ('operator' + op, 2, '(%s &' % C), post=post, modifies=[('arg', 0), ('arg', 1)])
        def setup(env, con=con):
            env.st.store[env.vs[0].root] = Obj('stream', s=z3.Const('stream.before', STR))
        con.setup = setup
        out.append(con)
    for c in out:
        c.opts['hooks'] = [StrHook()]
    return out


def callees():
    o = {}
    for (C, meth, cst) in (('std::ostream', 'write', ' const'), ('std::istream', 'read', ''), ('std::ofstream', 'write', ' const'), ('std::ifstream', 'read', '')):
        c = K('Serializable::%s(%s)' % (meth, C), ('Serializable::' + meth, 1, 'void (%s &)%s' % (C, cst)))
        c.modular = True
        def post(cx, exc, C=C, meth=meth):
            cx.st.store[('ghost', 'calls')] = cx.st.store.get(('ghost', 'calls'), ()) + (((meth, C), cx.this_lv.root, cx.argl[0].root),)
            return []
        c._post = post
        o[('Serializable::' + meth, 1, 'void (%s &)%s' % (C, cst))] = c
    return o


def is_this(cx):
    return z3.BoolVal(cx.retlv is not None and cx.retlv.root == ('obj', 'this') and not cx.retlv.path)


def stream_arg(out, con):
    def setup(env):
        env.st.store[env.vs[0].root] = Obj('stream', s=z3.Const('stream.before', STR))
    con.setup = setup
    out.append(con)


class P(Property):
    id = 'C13'
    units = {'u': dict(code=CODE)}
    harness = Harness('C13.cpp', ['$REPO/incremental_calibration/src/base/*.cpp', '$REPO/incremental_calibration/src/exceptions/*.cpp'], quick=3, thorough=30, san=True)
    assumptions = ['the clock, the local calendar (localtime, strftime) and the rendering of numbers on streams are those of the C and C++ libraries (uninterpreted; compared by the harness)',
                   'copy and assignment of the exception templates are the compiler-generated ones (covered by the harness)', 'verified at OutOfBoundException<double, size_t, int>, BadArgumentException<double, size_t, std::string>',
                   'the splitting into seconds and nanoseconds is for timestamps not before the epoch', 'base/Singleton.tpp belongs to a class that does not exist in the repository and is not compiled']
    def tasks(self, U):
        mods = callees()
        return [Task('u', c, contracts=mods) for c in contracts()]


PROPERTY = P()
