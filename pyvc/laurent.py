"""Equality of two terms as Laurent polynomials: sums of products of powers of atoms with rational coefficients. A division by a
sum adds an atom for its reciprocal, which is eliminated at the end by multiplying through; exp of a sum is the product of powers
of the exponentials of its monomials. Sound wherever the divisors are not zero (they are: each division forks on that)."""
import time
from fractions import Fraction
import z3
from . import sym as S

ONE = ()


class TooLarge(Exception):
    pass


class Normal:
    def __init__(self, seconds=20, limit=60000):
        self.deadline = time.time() + seconds
        self.limit = limit
        self.memo = {}
        self.atoms = {}         # key -> number
        self.recips = {}        # atom -> (polynomial it is the reciprocal of)
        self.canon = {}         # canonical polynomial -> reciprocal's atom
        self.keep = []
        self.work = 0

    def atom(self, key):
        return self.atoms.setdefault(key, len(self.atoms))

    def tick(self, n):
        self.work += n
        if self.work > 20_000_000 or time.time() > self.deadline:
            raise TooLarge()

    @staticmethod
    def mono(a, b):
        if not a:
            return b
        if not b:
            return a
        out, i, j = [], 0, 0
        while i < len(a) and j < len(b):
            if a[i][0] == b[j][0]:
                e = a[i][1] + b[j][1]
                if e:
                    out.append((a[i][0], e))
                i += 1
                j += 1
            elif a[i][0] < b[j][0]:
                out.append(a[i])
                i += 1
            else:
                out.append(b[j])
                j += 1
        return tuple(out) + a[i:] + b[j:]

    def add(self, p, q, c=1):
        if len(p) < len(q) and c == 1:
            p, q = q, p
        r = dict(p)
        for m, v in q.items():
            w = r.get(m, 0) + c * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        self.tick(len(q))
        return r

    def mul(self, p, q):
        if len(p) * len(q) > self.limit * 20:
            raise TooLarge()
        r = {}
        for m, v in p.items():
            for n, w in q.items():
                k = self.mono(m, n)
                x = r.get(k, 0) + v * w
                if x:
                    r[k] = x
                else:
                    r.pop(k, None)
        self.tick(len(p) * len(q))
        if len(r) > self.limit:
            raise TooLarge()
        return r

    def power(self, p, n):
        if len(p) == 1:
            (m, v), = p.items()
            return {tuple((a, e * n) for a, e in m): Fraction(v) ** n}
        if n < 0:
            return self.power(self.reciprocal(p), -n)
        r = {ONE: Fraction(1)}
        for _ in range(n):
            r = self.mul(r, p)
        return r

    def reciprocal(self, p):
        if not p:
            raise TooLarge()        # division by zero: no normal form
        if len(p) == 1:
            return self.power(p, -1)
        # take out a coefficient and a monomial, so that multiples of one sum share one reciprocal
        lead = min(p)
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d.get(a, 0)) for a, e in common.items()} | {
                a: min(e, 0) for a, e in d.items() if a not in common}
            common = {a: e for a, e in common.items() if e}
        out = tuple(sorted(common.items()))
        inv = tuple((a, -e) for a, e in out)
        c = p[lead]
        q = {self.mono(m, inv): v / c for m, v in p.items()}
        key = tuple(sorted(q.items()))
        a = self.canon.get(key)
        if a is None:
            a = self.canon[key] = self.atom(('recip', key))
            self.recips[a] = q
        return {self.mono(inv, ((a, 1),)): 1 / c}

    def exp(self, p):
        r = {ONE: Fraction(1)}
        for m, v in p.items():
            r = self.mul(r, {((self.atom(('exp', m)), v),): Fraction(1)})
        return r

    def of(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        self.keep.append(t)
        r = self.memo[i] = self._of(t)
        return r

    def _of(self, t):
        k = t.decl().kind() if z3.is_app(t) else None
        if z3.is_rational_value(t) or z3.is_int_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long())
            return {ONE: v} if v else {}
        if k == z3.Z3_OP_ADD:
            r = {}
            for c in t.children():
                r = self.add(r, self.of(c))
            return r
        if k == z3.Z3_OP_SUB:
            cs = t.children()
            r = self.of(cs[0])
            for c in cs[1:]:
                r = self.add(r, self.of(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return self.add({}, self.of(t.arg(0)), -1)
        if k == z3.Z3_OP_MUL:
            ps = sorted((self.of(c) for c in t.children()), key=len)
            r = ps[0]
            for p in ps[1:]:
                r = self.mul(r, p)
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.of(t.arg(0)), self.reciprocal(self.of(t.arg(1))))
        if k == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 \
                and abs(t.arg(1).numerator_as_long()) < 20:
            return self.power(self.of(t.arg(0)), t.arg(1).numerator_as_long())
        if k == z3.Z3_OP_TO_REAL:
            return self.of(t.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().eq(S.EXP):
            return self.exp(self.of(t.arg(0)))
        return {((self.atom(('term', t.get_id())), 1),): Fraction(1)}

    def is_zero(self, p):
        """eliminate the reciprocals: latest first, since a later one may have an earlier one in what it divides"""
        for a in sorted(self.recips, reverse=True):
            if not p:
                return True
            top = max((dict(m).get(a, 0) for m in p), default=0)
            low = min((dict(m).get(a, 0) for m in p), default=0)
            if top == low == 0:
                continue
            q = self.recips[a]
            powers = {0: {ONE: Fraction(1)}}
            groups = {}
            for m, v in p.items():
                e = dict(m).get(a, 0)
                if e.denominator != 1:
                    raise TooLarge()
                groups.setdefault(int(e), {})[tuple(x for x in m if x[0] != a)] = v
            p = {}
            for e, g in groups.items():
                n = int(top) - e
                for i in range(1, n + 1):
                    if i not in powers:
                        powers[i] = self.mul(powers[i - 1], q)
                p = self.add(p, self.mul(g, powers[n]))
        return not p


def equal(a, b, seconds=20):
    n = Normal(seconds)
    try:
        return n.is_zero(n.add(n.of(a), n.of(b), -1))
    except (TooLarge, RecursionError):
        return False
