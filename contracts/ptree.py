"""sm::PropertyTree by contract: a value for each key that is present, the default (or an exception) otherwise."""
from vc.util import *
from vc.models import Hook, throw_split
from vc.values import Obj
from contracts.C13 import text
STR = z3.StringSort()
HAS = z3.Function('tree_has', I, STR, B)
VAL = {'getDouble': z3.Function('tree_double', I, STR, R), 'getInt': z3.Function('tree_int', I, STR, I), 'getBool': z3.Function('tree_bool', I, STR, B), 'getString': z3.Function('tree_string', I, STR, STR)}
SUB = z3.Function('tree_below', I, STR, I)


def key(v):
    t = text(v)
    if t is None and isinstance(v, str):
        t = z3.StringVal(v.strip('"'))
    if t is None:
        raise Unsupported('property key %r' % (getattr(v, '__dict__', v),))
    return t


def get(tree, kind, k, default=None):
    k = z3.StringVal(k) if isinstance(k, str) else k
    v = VAL[kind](tree, k)
    return v if default is None else z3.If(HAS(tree, k), v, default)


class Tree(Hook):
    def member(self, eng, e, me, st, lv, obj, name, args):
        if not (isinstance(obj, Obj) and obj.tag == 'ptree'):
            return None
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        if name not in VAL or len(args) not in (1, 2):
            raise Unsupported('property tree operation ' + name)
        out = []
        for (t, vs) in eng.ev_list(args, st):
            k = key(eng.read(t, vs[0]))
            if len(args) == 2:
                d = eng.read(t, vs[1])
                if name == 'getString':
                    d = key(d)
                out.append((t, get(obj.id, name, k, eng.truth(d) if name == 'getBool' and not z3.is_bool(d) else d)))
            else:
                out += [(u, get(obj.id, name, k)) for u in throw_split(eng, t, HAS(obj.id, k), 'std::runtime_error')]
        return out
    def construct(self, eng, e, T, args, st):
        if T.k == 'str':
            args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
            if not args:
                return [(st, z3.StringVal(''))]
            ok = [(t, text(eng.read(t, vs[0])) if len(vs) == 1 else None) for (t, vs) in eng.ev_list(args, st)]
            return None if any(w is None for (t, w) in ok) else ok
        if not (T.k == 'cls' and T[1].endswith('PropertyTree')):
            return None
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        out = []
        for (t, vs) in eng.ev_list(args, st):
            vs = [eng.read(t, v) for v in vs]
            if len(vs) == 1 and isinstance(vs[0], Obj) and vs[0].tag == 'ptree':
                out.append((t, vs[0]))
            elif len(vs) == 2 and isinstance(vs[0], Obj) and vs[0].tag == 'ptree':
                out.append((t, Obj('ptree', id=SUB(vs[0].id, key(vs[1])))))
            else:
                raise Unsupported('property tree construction')
        return out
