"""Linear expressions shared by the simulated modelling interfaces."""

import numbers
from fractions import Fraction

from sim.core import SimUnsupported


def is_number(v):
    return isinstance(v, numbers.Number) and not isinstance(v, complex)


class Operand:
    """Arithmetic shared by variables and expressions. Subclasses define _terms() -> (dict, const)."""

    __slots__ = ()
    expr_type = None
    con_type = None
    number_ok = staticmethod(is_number)

    def _terms(self):
        raise NotImplementedError

    @classmethod
    def _coerce(cls, other):
        if isinstance(other, Operand):
            return other._terms()
        if cls.number_ok(other):
            return {}, cls._num(other)
        return None

    @staticmethod
    def _num(v):
        return float(v)

    def _combine(self, other, sa, sb):
        o = self._coerce(other)
        if o is None:
            return NotImplemented
        t, k = self._terms()
        res = {v: sa * a for v, a in t.items()}
        for v, a in o[0].items():
            res[v] = res.get(v, 0) + sb * a
        return self.expr_type(res, sa * k + sb * o[1])

    def __add__(self, other):
        return self._combine(other, 1, 1)

    __radd__ = __add__

    def __sub__(self, other):
        return self._combine(other, 1, -1)

    def __rsub__(self, other):
        return self._combine(other, -1, 1)

    def __neg__(self):
        t, k = self._terms()
        return self.expr_type({v: -a for v, a in t.items()}, -k)

    def __pos__(self):
        t, k = self._terms()
        return self.expr_type(dict(t), k)

    def __mul__(self, other):
        if isinstance(other, Operand):
            t, k = other._terms()
            if not t:
                other = k
            else:
                t2, k2 = self._terms()
                if not t2:
                    return self.expr_type({v: a * k2 for v, a in t.items()}, k * k2)
                raise SimUnsupported("quadratic expression")
        if not self.number_ok(other):
            return NotImplemented
        f = self._num(other)
        t, k = self._terms()
        return self.expr_type({v: a * f for v, a in t.items()}, k * f)

    __rmul__ = __mul__

    def __truediv__(self, other):
        if not self.number_ok(other):
            return NotImplemented
        f = self._num(other)
        t, k = self._terms()
        return self.expr_type({v: a / f for v, a in t.items()}, k / f)

    def _compare(self, other, sense):
        diff = self._combine(other, 1, -1)
        if diff is NotImplemented:
            return NotImplemented
        return self.con_type(diff, sense)

    def __le__(self, other):
        return self._compare(other, "<=")

    def __ge__(self, other):
        return self._compare(other, ">=")

    def __eq__(self, other):
        return self._compare(other, "==")

    def __hash__(self):
        return id(self)


def row_of(diff, sense):
    """(terms, const) `sense` 0  ->  (index dict, lo, hi)"""
    t, k = diff._terms()
    coefs = {}
    for v, a in t.items():
        coefs[v.index] = coefs.get(v.index, 0.0) + float(a)
    rhs = -float(k)
    if sense == "<=":
        return coefs, float("-inf"), rhs
    if sense == ">=":
        return coefs, rhs, float("inf")
    return coefs, rhs, rhs
