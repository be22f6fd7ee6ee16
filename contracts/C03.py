from contracts.core import *
from contracts import C01, C02

MUT = {C01: ('addDesignVariable', 'addErrorTerm', 'clear', 'setGroupsOrdering', 'permuteErrorTerms', 'permuteDesignVariables'),
       C02: ('add', 'remove', 'clear', 'setGroupsOrdering', 'permuteOptimizationProblems', 'permuteDesignVariables')}


class P(Property):
    id = 'C03'
    units = {'u1': dict(code=C01.CODE), 'u2': dict(code=C02.CODE)}
    harness = Harness('C03.cpp', C02.PROPERTY.harness.extra, quick=4, thorough=60, san=True)
    assumptions = C02.P.assumptions + ['a design variable is its value as read and written by getParameters and setParameters']
    def tasks(self, U):
        M = dict(backend())
        M[('permute', 2, None)] = permute_modular()
        ts = []
        for u, C in (('u1', C01), ('u2', C02)):
            cs = C.contracts()
            cs = cs[0] if isinstance(cs, tuple) else cs
            m, ax = dict(M), uses_axioms()
            if C is C02:
                m.update(C02.batch())
                ax = ax + C02.batch_axioms()
            for c in C.S.saving() + [C.S.backup_frame(c) for c in cs if c.fn[0].split('::')[-1] in MUT[C]]:
                mm = dict(m)
                if c.name == C02.n_('add'):
                    mm[(C02.n_('isErrorTermInProblem'), 1, None)] = C02.known_modular(cs)
                ts.append(Task(u, c, contracts=mm, axioms=ax, opts=dict(nosum=True) if c.name in C02.NOSUM else {}))
        return ts


PROPERTY = P()
