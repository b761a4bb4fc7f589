"""derivatives of closed forms: numbers v + d * eps with eps * eps = 0, so that f(t + eps) = f(t) + f'(t) * eps"""
import math


class Dual:
    def __init__(self, v, d):
        self.v, self.d = v, d

    def __neg__(self):
        return Dual(-self.v, -self.d)

    def __add__(self, o):
        o = dual(o)
        return Dual(self.v + o.v, self.d + o.d)

    def __radd__(self, o):
        return self + o

    def __sub__(self, o):
        return self + -dual(o)

    def __rsub__(self, o):
        return dual(o) + -self

    def __mul__(self, o):
        o = dual(o)
        return Dual(self.v * o.v, self.v * o.d + self.d * o.v)

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        return Dual(self.v / o, self.d / o)

    def __pow__(self, n):
        r = self
        for _ in range(n - 1):
            r = r * self
        return r


def dual(x):
    return x if isinstance(x, Dual) else Dual(x, 0)


def exp(x):
    if isinstance(x, Dual):
        e = math.exp(x.v)
        return Dual(e, e * x.d)
    return math.exp(x)


def derivative(f, t):
    return f(Dual(t, 1)).d
