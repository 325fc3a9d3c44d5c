"""Bounds and assumptions reported in the evidence."""
import os
import sys

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'tools'))

ASSUMPTIONS = [
    'numbers are exact reals: float rounding, overflow, nan and inf inputs '
    'are outside',
    'np.pi, the tolerances of the source and degree factors enter as the '
    'exact rational value of the double; the double nearest pi is taken as '
    'half a turn',
    'numpy is replaced by a symbolic stand-in (symx/shim.py); explored paths '
    'are replayed on the real code with real numpy as a cross-check '
    '(traces_validated_against_impl)',
    'sin, cos, sinh, cosh, their inverses and square roots are characterised '
    'by exact algebraic identities, ranges, monotonicity and periodicity',
    'half a turn from periapsis, where the half-angle formulas are singular, '
    'is excluded (no float reaches it)',
    'a divisor not proved nonzero is assumed nonzero and counted',
    'the answers of z3 are trusted',
]
KEPLER = ('Kepler\'s equation: where env is kep the iterative solver is '
          'replaced by its contract (it returns the root of the equation, '
          'decided for the solver in K10 for bounded iteration counts)')
OUTSIDE = ('float64 rounding and accuracy; eccentricities within 1e-8 of 0 '
           'other than 0 and inclinations within 1e-8 of 0 or pi other than '
           '0 and pi (where the tolerances of the code decide); '
           'integer-dtype arrays; more columns than the stated number')


def bounds(prop):
    from table import T
    for t in T:
        if t['id'] == prop:
            from symx import reg
            hs = [h for h in reg.load_all() if h.prop == prop]
            o = OUTSIDE
            if any(h.env == 'kep' for h in hs):
                o += '; ' + KEPLER
            if any(h.env == 'uf' for h in hs):
                o += ('; the conversion functions are uninterpreted inverse '
                      'pairs (decided in K01-K12)')
            return t['text'] + '; ' + t['note'], o
    return '', OUTSIDE
