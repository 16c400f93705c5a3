"""High-precision version of neval.Env (mpmath)."""
import os
import sys
try:
    import mpmath
except ImportError:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import mpmath
    sys.path.pop()
import neval
import alg
from neval import Bad, NotFinite

mp = mpmath.mp
mp.dps = 50


class MpEnv(neval.Env):
    def num(self, x):
        return mp.mpf(x)

    def key(self, x):
        if isinstance(x, alg.P):
            v = self.p(x)
            if v == int(v) and abs(v) < 10 ** 15:
                return int(v)
            return mp.nstr(v, 20)
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def p(self, p):
        s = mp.mpf(0)
        for m, c in p.d.items():
            t = mp.mpf(c.numerator) / c.denominator if hasattr(c, 'numerator') else mp.mpf(c)
            for a, e in m:
                v = self.a(a)
                if e != 1:
                    if v == 0 and e < 0:
                        raise NotFinite('division by zero')
                    v = mp.mpf(v) ** e
                t *= v
            s += t
        if not mp.isfinite(s):
            raise Bad('nan')
        return s

    def a2(self, i, t):
        if t[0] == 'const':
            return +mp.pi
        if t[0] == 'inv':
            v = self.p(t[1])
            if abs(v) < mp.mpf(10) ** -40:
                raise NotFinite('division by zero')
            return 1 / v
        if t[0] == 'sym' and i in alg.UNITSQ:
            v = self.p(alg.UNITSQ[i])
            if v < 0:
                raise Bad('unit')
            return mp.sqrt(v) * (1 if self.real('us', i) > 0 else -1)
        r = neval.Env.a2(self, i, t)
        return mp.mpf(r)

    def fn(self, name, x, t):
        one = {'sin': mp.sin, 'cos': mp.cos, 'tan': mp.tan, 'tanh': mp.tanh, 'atan': mp.atan, 'sinh': mp.sinh, 'cosh': mp.cosh,
               'exp': mp.exp, 'abs': abs, 'floor': mp.floor, 'ceil': mp.ceil, 'fabs': abs}
        if name in one:
            if name == 'exp' and abs(x[0]) > 10 ** 4:
                raise Bad('exp')
            return one[name](x[0])
        if name == 'sqrt':
            if x[0] < 0:
                if x[0] > -mp.mpf(10) ** -30:
                    return mp.mpf(0)
                raise Bad('sqrt')
            return mp.sqrt(x[0])
        if name in ('acos', 'asin'):
            if abs(x[0]) > 1:
                raise Bad(name)
            return getattr(mp, name)(x[0])
        if name == 'ln':
            if x[0] <= 0:
                raise Bad('ln')
            return mp.log(x[0])
        if name == 'atan2':
            return mp.atan2(x[0], x[1])
        if name == 'rnd':
            n = mp.mpf(10) ** int(x[1])
            return mp.sign(x[0]) * mp.floor(abs(x[0]) * n + mp.mpf(1) / 2) / n
        if name in ('fmod', 'itrem', 'fmod_e'):
            if x[1] == 0:
                raise Bad(name)
            q = mp.mpf(x[0]) / x[1]
            if name == 'fmod_e':
                return x[0] - abs(x[1]) * mp.floor(x[0] / abs(x[1]))
            return x[0] - x[1] * (mp.floor(q) if q >= 0 else mp.ceil(q))
        if name == 'trunc':
            return mp.floor(x[0]) if x[0] >= 0 else mp.ceil(x[0])
        if name == 'round':
            return mp.floor(abs(x[0]) + mp.mpf(1) / 2) * (1 if x[0] >= 0 else -1)
        if name in ('powi', 'powf'):
            if x[0] == 0 and x[1] < 0 or x[0] < 0 and x[1] != int(x[1]) or abs(x[1]) > 10 ** 4:
                raise Bad(name)
            return mp.mpf(x[0]) ** x[1]
        if name in ('rot0', 'rot1', 'rot2') and len(x) == 7:
            return precess(x[:3], x[3:6], x[6])[int(name[3])]
        return neval.Env.fn(self, name, x, t)

    def bv(self, v):
        t = alg._batom[v]
        if v in self.bools:
            return self.bools[v]
        if t[0] == 'eq0':
            return abs(self.p(t[1])) < mp.mpf(10) ** -30
        return neval.Env.bv(self, v)


def precess(s, b, dt):
    m = mp.sqrt(sum(x * x for x in b))
    if m == 0:
        return s
    n = [x / m for x in b]
    c, sn = mp.cos(m * dt), mp.sin(m * dt)
    d = sum(x * y for x, y in zip(n, s))
    x = [n[1] * s[2] - n[2] * s[1], n[2] * s[0] - n[0] * s[2], n[0] * s[1] - n[1] * s[0]]
    return [s[i] * c + n[i] * d * (1 - c) - x[i] * sn for i in range(3)]
