"""Algebraic normal forms for the value-numbering analysis.

Numbers (integers, usizes, f64s) are Laurent polynomials with rational coefficients over interned
atoms; booleans are reduced ordered decision diagrams over interned comparison atoms; `ite` atoms
gate a number by a boolean.  Sums over a symbolic range are atoms with a canonical bound variable.
Floating point is read as exact real arithmetic (declared in every evidence file).
Nothing of the analysed program is executed here.
"""
from fractions import Fraction as Q
from math import gcd
import sys
sys.setrecursionlimit(100000)

# ------------------------------------------------------------------ atoms
_atom = []          # id -> tuple
_aid = {}
BOUNDS = {}         # atom id -> list of P known <= 0 (integer facts attached to the atom)
EVEN = set()


def aid(t):
    i = _aid.get(t)
    if i is None:
        i = len(_atom)
        _aid[t] = i
        _atom.append(t)
    return i


def atom_of(i):
    return _atom[i]


class P:
    """Laurent polynomial: {monomial: coefficient}; monomial = ((atom, exp), ...) sorted."""
    __slots__ = ('d', '_h', '_at')

    def __init__(self, d):
        self.d = d
        self._h = None
        self._at = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __ne__(self, o):
        return not self.__eq__(o)

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), Q(0))

    def is_zero(self):
        return not self.d

    def atoms(self):
        if self._at is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s.add(a)
            self._at = frozenset(s)
        return self._at

    def __add__(self, o):
        o = num(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)
    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-num(o))

    def __rsub__(self, o):
        return num(o) + (-self)

    def scale(self, q):
        if not q:
            return ZERO
        return P({m: c * q for m, c in self.d.items()})

    def __mul__(self, o):
        o = num(o)
        if not self.d or not o.d:
            return ZERO
        if o.is_const():
            return self.scale(o.const())
        if self.is_const():
            return o.scale(self.const())
        d = {}
        need = False
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                if m.__class__ is not tuple:
                    need = True
                    for mm, cc in m.d.items():
                        v = d.get(mm, 0) + cc * c1 * c2
                        if v:
                            d[mm] = v
                        else:
                            d.pop(mm, None)
                    continue
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return P(d)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(num(o))

    def __rtruediv__(self, o):
        return num(o) * inv(self)

    def __pow__(self, n):
        if n < 0:
            return inv(self ** (-n))
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            b = b * b
            n >>= 1
        return r

    def __repr__(self):
        return show(self)


def num(x):
    if isinstance(x, P):
        return x
    if isinstance(x, (int, Q)):
        return P({(): Q(x)}) if x else ZERO
    raise TypeError(x)


ZERO = P({})
ONE = P({(): Q(1)})

SPECIAL = {}        # atom id -> rule kind for powers ('sqrt', 'sin', 'sq')
UNITSQ = {}         # atom id -> polynomial its square equals (components of unit vectors)
POS = set()         # atom ids of strictly positive quantities


def unit_vector(a, b, c):
    """declare |(a,b,c)| = 1 for three atoms given as polynomials"""
    i = single(c)
    SPECIAL[i] = 'unit'
    UNITSQ[i] = ONE - a * a - b * b


def positive(p):
    POS.add(single(p))
    return p


def asgn(a):
    t = _atom[a]
    if a in POS or (t[0] == 'fn' and t[1] in ('exp', 'cosh')) or t[0] == 'const':
        return 2
    if t[0] == 'fn' and t[1] in ('sqrt', 'abs', 'acos'):
        return 1
    return 0


def sgn(p):
    """2: p > 0, 1: p >= 0, -2: p < 0, -1: p <= 0, 0: unknown (sign domain)"""
    if p.is_zero():
        return 1
    res = None
    for m, c in p.d.items():
        s = 2
        for a, e in m:
            x = asgn(a)
            if x == 2:
                continue
            if x == 1 or e % 2 == 0:
                s = min(s, 1) if e > 0 else s
            else:
                return 0
        if c < 0:
            s = -s
        if res is None:
            res = s
        elif (res > 0) != (s > 0):
            return 0
        else:
            res = max(res, s) if res > 0 else min(res, s)
    return res


def mmul(m1, m2):
    """product of two monomials; a tuple, or a P when a power rule fires"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    for a, e in d.items():
        if a in SPECIAL and (e >= 2 or e < 0):
            kind = SPECIAL[a]
            if kind == 'sin':
                if e >= 2:
                    c = P({((aid(('fn', 'cos', _atom[a][2])), 1),): Q(1)})
                    base = (ONE - c * c) ** (e // 2)
                    rest = dict(d)
                    if e % 2:
                        rest[a] = 1
                    else:
                        rest.pop(a)
                    return mk(rest) * base
            elif kind == 'sqrt':
                arg = _atom[a][2][0]
                h, r = divmod(e, 2)
                if h:
                    rest = dict(d)
                    if r:
                        rest[a] = 1
                    else:
                        rest.pop(a)
                    return mk(rest) * (arg ** h if h > 0 else inv(arg ** (-h)))
            elif kind == 'bool01':
                if e >= 2:
                    rest = dict(d)
                    rest[a] = 1
                    return mk(rest)
            elif kind == 'unit':
                if e >= 2:
                    h, r = divmod(e, 2)
                    rest = dict(d)
                    if r:
                        rest[a] = 1
                    else:
                        rest.pop(a)
                    return mk(rest) * (UNITSQ[a] ** h)
            elif kind == 'inv':
                if e < 0:
                    rest = dict(d)
                    rest.pop(a)
                    return mk(rest) * (_atom[a][1] ** (-e))
    return tuple(sorted(d.items()))


def mk(d):
    """P from an exponent dict, re-applying power rules if needed"""
    r = ONE
    plain = {}
    for a, e in d.items():
        if a in SPECIAL and (e >= 2 or e < 0):
            x = mmul(((a, e),), ())
            y = mmul2(a, e)
            r = r * y
        else:
            plain[a] = e
    return P({tuple(sorted(plain.items())): Q(1)}) * r


def mmul2(a, e):
    one = P({((a, 1),): Q(1)})
    kind = SPECIAL[a]
    if kind == 'sqrt':
        arg = _atom[a][2][0]
        h, r = divmod(e, 2)
        x = arg ** h if h > 0 else (inv(arg ** (-h)) if h < 0 else ONE)
        return x * one if r else x
    if kind == 'sin' and e >= 2:
        c = P({((aid(('fn', 'cos', _atom[a][2])), 1),): Q(1)})
        b = (ONE - c * c) ** (e // 2)
        return b * one if e % 2 else b
    if kind == 'bool01' and e >= 2:
        return one
    if kind == 'unit' and e >= 2:
        h, r = divmod(e, 2)
        return (UNITSQ[a] ** h) * one if r else UNITSQ[a] ** h
    if kind == 'inv' and e < 0:
        return _atom[a][1] ** (-e)
    return P({((a, e),): Q(1)})


def A(t):
    """the polynomial consisting of one atom"""
    return P({((aid(t), 1),): Q(1)})


def single(p):
    """atom id if p is exactly one atom with coefficient and exponent one"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def sym(name, kind='real'):
    return A(('sym', name, kind))


def leading(p):
    return min(p.d.items(), key=lambda kv: (mono_key(kv[0])))


def mono_key(m):
    return (-sum(abs(e) for _, e in m), m)


def inv(p):
    if p.is_const():
        c = p.const()
        if c == 0:
            return A(('fn', 'div0', (ONE,)))
        return num(Q(1) / c)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        r = num(Q(1) / c)
        for a, e in m:
            if a in SPECIAL:
                r = r * mmul2(a, -e) if e < 0 or SPECIAL[a] in ('sqrt', 'inv') else r * P({((a, -e),): Q(1)})
            else:
                r = r * P({((a, -e),): Q(1)})
        return r
    # common monomial and content
    com = None
    for m in p.d:
        dm = dict(m)
        if com is None:
            com = dm
        else:
            com = {a: min(e, dm.get(a, 0)) for a, e in com.items() if (e > 0 and dm.get(a, 0) > 0)}
        if not com:
            break
    com = {a: e for a, e in (com or {}).items() if e > 0 and a not in SPECIAL}
    # negative exponents: multiply through
    neg = {}
    for m in p.d:
        for a, e in m:
            if e < 0:
                neg[a] = min(neg.get(a, 0), e)
    pre = ONE
    if neg:
        mul = P({tuple(sorted((a, -e) for a, e in neg.items())): Q(1)})
        p = p * mul
        pre = mul
    elif com:
        mul = P({tuple(sorted((a, -e) for a, e in com.items())): Q(1)})
        p = p * mul
        pre = mul
    if len(p.d) <= 1:
        return pre * inv(p)
    _, lc = leading(p)
    q = p.scale(Q(1) / lc)
    t = ('inv', q)
    i = aid(t)
    SPECIAL[i] = 'inv'
    return pre * P({((i, 1),): Q(1) / lc})


# ------------------------------------------------------------------ functions
PI = A(('const', 'pi'))


def neg_lead(p):
    if p.is_zero():
        return False
    return leading(p)[1] < 0


def unturn(a):
    """a without whole turns: fmod(x, y) replaced by x where its coefficient times y is a multiple of one; or None"""
    pi = next(iter(PI.d))[0]
    for m, c in a.d.items():
        if pi in m and len(m) > 1 and c.denominator == 1 and c % 2 == 0 and \
                all(e > 0 and is_int(P({((i, 1),): Q(1)})) for i, e in m if (i, e) != pi):
            return a - P({m: c})
        for i, e in m:
            t = _atom[i]
            if e == 1 and t[0] == 'fn' and t[1] in ('fmod', 'fmod_e'):
                x, y = t[2]
                q = P({tuple((j, f) for j, f in m if j != i): c})
                k = q * y / (PI * 2)
                if k.is_const() and k.const().denominator == 1:
                    return a - P({m: c}) + q * x
    return None


def fn(name, *args):
    args = tuple(num(a) for a in args)
    a = args[0] if args else None
    if name == 'sqrt':
        if a.is_const():
            c = a.const()
            if c >= 0:
                n, d = isqrt_exact(c.numerator), isqrt_exact(c.denominator)
                if n is not None and d is not None:
                    return num(Q(n, d))
        if len(a.d) == 1 and a.const() == 0:
            (m, c), = a.d.items()
            # pull out rational squares only
            n, d = isqrt_exact(abs(c.numerator)), isqrt_exact(c.denominator)
            if c > 0 and n is not None and d is not None and c != 1:
                return fn('sqrt', P({m: Q(1)})).scale(Q(n, d))
            if c == 1 and m and all(e % 2 == 0 for _, e in m):
                r = ONE
                for x, e in m:
                    h = P({((x, e // 2),): Q(1)})
                    r = r * (h if asgn(x) > 0 or (e // 2) % 2 == 0 else fn('abs', h))
                return r
        i = aid(('fn', 'sqrt', args))
        SPECIAL[i] = 'sqrt'
        return P({((i, 1),): Q(1)})
    if name in ('sin', 'cos', 'tan', 'tanh', 'atan', 'asin', 'sinh', 'cosh', 'abs'):
        if a.is_zero():
            return ONE if name in ('cos', 'cosh') else ZERO
        s = 1
        if neg_lead(a):
            a = -a
            s = 1 if name in ('cos', 'cosh', 'abs') else -1
        # multiples of pi/2
        if name in ('sin', 'cos'):
            r = a / PI
            if r.is_const():
                k = r.const() * 2
                if k.denominator == 1:
                    k = int(k) % 4
                    v = {'cos': (1, 0, -1, 0), 'sin': (0, 1, 0, -1)}[name][k]
                    return num(v * s)
            if name == 'sin':
                si = single(a)
                if si is not None and _atom[si][0] == 'fn' and _atom[si][1] == 'acos':
                    x = _atom[si][2][0]
                    return fn('sqrt', ONE - x * x) * s
                # sin(k*acos x) not expanded
            if name == 'cos':
                si = single(a)
                if si is not None and _atom[si][0] == 'fn' and _atom[si][1] == 'acos':
                    return _atom[si][2][0]
                if si is not None and _atom[si][0] == 'fn' and _atom[si][1] == 'atan2':
                    y, x = _atom[si][2]
                    return x * inv(fn('sqrt', x * x + y * y))
            if name == 'sin':
                if si is not None and _atom[si][0] == 'fn' and _atom[si][1] == 'atan2':
                    y, x = _atom[si][2]
                    return y * inv(fn('sqrt', x * x + y * y)) * s
            # whole turns taken off by a remainder
            b = unturn(a)
            if b is not None:
                return fn(name, b) * s
            # phase shifts by multiples of pi
            c = a.d.get(next(iter(PI.d)))
            if c is not None and (c * 2).denominator == 1 and len(a.d) > 1:
                b = a - PI.scale(c)
                k = int(c * 2) % 4
                if k == 2:
                    return -fn(name, b) * s
                if k == 1:
                    return (fn('cos', b) if name == 'sin' else -fn('sin', b)) * s
                if k == 3:
                    return (-fn('cos', b) if name == 'sin' else fn('sin', b)) * s
                if k == 0:
                    return fn(name, b) * s
        if name == 'abs' and a.is_const():
            return num(abs(a.const()))
        if name == 'abs' and sgn(a):
            return a if sgn(a) > 0 else -a
        i = aid(('fn', name, (a,)))
        if name == 'sin':
            SPECIAL[i] = 'sin'
        return P({((i, 1),): Q(s)})
    if name == 'exp':
        # exp of a sum: product of exp of its terms, integer multiples as powers
        r = ONE
        for m, c in a.d.items():
            if c.denominator == 1 and m != ():
                r = r * P({((aid(('fn', 'exp', (P({m: Q(1)}),))), int(c)),): Q(1)})
            else:
                r = r * A(('fn', 'exp', (P({m: c}),)))
        return r
    if name == 'ln':
        si = single(a)
        if si is not None and _atom[si][0] == 'fn' and _atom[si][1] == 'exp':
            return _atom[si][2][0]
        if a.is_const() and a.const() == 1:
            return ZERO
    if name in ('floor', 'round', 'trunc', 'ceil'):
        if a.is_const():
            c = a.const()
            import math
            if name == 'floor':
                return num(math.floor(c))
            if name == 'ceil':
                return num(math.ceil(c))
            if name == 'trunc':
                return num(math.trunc(c))
            if name == 'round':
                return num(math.floor(abs(c) + Q(1, 2)) * (1 if c >= 0 else -1))
        if is_int(a):
            return a
    if name == 'idiv':        # truncating integer division of non-negative values
        n, d = args
        if d.is_const() and d.const() != 0:
            dc = d.const()
            if n.is_const():
                return num(int(n.const() / dc))
            # exact part
            if dc.denominator == 1 and is_int(n):
                ex, rest = {}, {}
                for m, c in n.d.items():
                    if m != () and (c / dc).denominator == 1:
                        ex[m] = c / dc
                    else:
                        rest[m] = c
                if ex and is_int(P(ex)):
                    if all(m == () for m in rest):
                        import math
                        c0 = rest.get((), Q(0))
                        return P(ex) + num(math.floor(c0 / dc))
        if n == d:
            return ONE
        i = aid(('fn', 'idiv', args))
        x = P({((i, 1),): Q(1)})
        if i not in BOUNDS:
            BOUNDS[i] = [-x]
            if d.is_const():
                BOUNDS[i] += [x * d - n, n - x * d - d + 1]
            elif is_int(d) and is_int(n):
                BOUNDS[i] += [x * d - n]
        return x
    if name == 'imod':
        n, d = args
        if d.is_const() and n.is_const():
            return num(n.const() % d.const())
        if d.is_const() and d.const().denominator == 1 and is_int(n):
            dc = d.const()
            if all((c / dc).denominator == 1 for m, c in n.d.items() if m != ()):
                return num(n.const() % dc)
        i = aid(('fn', 'imod', args))
        x = P({((i, 1),): Q(1)})
        if i not in BOUNDS:
            BOUNDS[i] = [-x, x - d + 1]
        return x
    if name == 'fmod':
        pass
    if name in ('max', 'min'):
        a, b = args
        if a == b:
            return a
        if a.is_const() and b.is_const():
            return num(max(a.const(), b.const()) if name == 'max' else min(a.const(), b.const()))
        c = lt(a, b)
        return ite(c, b, a) if name == 'max' else ite(c, a, b)
    return A(('fn', name, args))


def isqrt_exact(n):
    import math
    if n < 0:
        return None
    r = math.isqrt(n)
    return r if r * r == n else None


INTFN = {'floor', 'round', 'trunc', 'ceil', 'idiv', 'imod', 'count'}


def atom_is_int(i):
    t = _atom[i]
    k = t[0]
    if k == 'sym':
        return t[2] == 'int'
    if k == 'sel':
        return t[3] == 'int'
    if k == 'bv':
        return True
    if k == 'fn':
        return t[1] in INTFN
    if k == 'ite':
        return is_int(t[2]) and is_int(t[3])
    if k == 'sum':
        return is_int(t[1])
    if k == 'draw':
        return t[1] in ('range', 'bits')
    if k == 'opq':
        return len(t) > 3 and t[3] == 'int'
    return False


_isint = {}


def is_int(p):
    r = _isint.get(p)
    if r is None:
        r = True
        for m, c in p.d.items():
            if c.denominator != 1:
                r = False
                break
            for a, e in m:
                if e < 0 or not atom_is_int(a):
                    r = False
                    break
            if not r:
                break
        _isint[p] = r
    return r


# ------------------------------------------------------------------ booleans (BDD)
_batom = []
_bid = {}
_nodes = {}


class B:
    __slots__ = ('v', 'hi', 'lo', '_s')

    def __init__(self, v, hi, lo):
        self.v, self.hi, self.lo = v, hi, lo
        self._s = None

    def __repr__(self):
        return bshow(self)


TRUE = B(None, None, None)
FALSE = B(None, None, None)
INF = 1 << 60


def bid(t):
    i = _bid.get(t)
    if i is None:
        i = len(_batom)
        _bid[t] = i
        _batom.append(t)
    return i


def batom_of(i):
    return _batom[i]


def node(v, hi, lo):
    if hi is lo:
        return hi
    k = (v, id(hi), id(lo))
    n = _nodes.get(k)
    if n is None:
        n = B(v, hi, lo)
        _nodes[k] = n
    return n


def bvar(t):
    return node(bid(t), TRUE, FALSE)


_iteb = {}


def top(b):
    return INF if (b is TRUE or b is FALSE) else b.v


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (id(c), id(a), id(b))
    r = _iteb.get(k)
    if r is not None:
        return r
    v = min(top(c), top(a), top(b))

    def co(x, h):
        if top(x) == v:
            return x.hi if h else x.lo
        return x
    r = node(v, bite(co(c, 1), co(a, 1), co(b, 1)), bite(co(c, 0), co(a, 0), co(b, 0)))
    _iteb[k] = r
    return r


def band(a, b):
    return bite(a, b, FALSE)


def bor(a, b):
    return bite(a, TRUE, b)


def bnot(a):
    return bite(a, FALSE, TRUE)


def brestrict(f, care):
    """simplify f given care (Coudert-Madre)"""
    if care is TRUE or care is FALSE or f is TRUE or f is FALSE:
        return f
    v = min(top(f), top(care))
    if top(care) == v and top(f) != v:
        if care.hi is FALSE:
            return brestrict(f, care.lo)
        if care.lo is FALSE:
            return brestrict(f, care.hi)
        return brestrict(f, bor(care.hi, care.lo))
    if top(care) == v:
        if care.hi is FALSE:
            return brestrict(f.lo, care.lo)
        if care.lo is FALSE:
            return brestrict(f.hi, care.hi)
        return node(v, brestrict(f.hi, care.hi), brestrict(f.lo, care.lo))
    return node(v, brestrict(f.hi, care), brestrict(f.lo, care))


def bsupport(b):
    if b is TRUE or b is FALSE:
        return frozenset()
    if b._s is None:
        b._s = frozenset([b.v]) | bsupport(b.hi) | bsupport(b.lo)
    return b._s


def bcof(b, v, val):
    if b is TRUE or b is FALSE or b.v > v:
        return b
    if b.v == v:
        return b.hi if val else b.lo
    return node(b.v, bcof(b.hi, v, val), bcof(b.lo, v, val))


# comparison constructors -----------------------------------------------------
def strip_pos(p):
    """divide by the (positive) content"""
    if not p.d:
        return p
    g = 0
    l = 1
    for c in p.d.values():
        l = l * c.denominator // gcd(l, c.denominator)
    for c in p.d.values():
        g = gcd(g, int(c * l))
    if g:
        return p.scale(Q(l, g))
    return p


def lt0(p):
    """p < 0"""
    if p.is_const():
        return TRUE if p.const() < 0 else FALSE
    sg = sgn(p)
    if sg > 0:
        return FALSE
    if sg == -2:
        return TRUE
    ia = sole_ite(p)
    if ia is not None and (is_const_branch(ia)):
        t = _atom[ia[0]]
        return bite(bvar_i(t[1]), lt0(ia[1] + ia[2] * t[2]), lt0(ia[1] + ia[2] * t[3]))
    if is_int(p):
        # normal form: content of the non-constant part divided out, constant floored
        g = 0
        for m, c in p.d.items():
            if m != ():
                g = gcd(g, int(c))
        neg = leading_nc(p) < 0
        # p<0  <=> p+1<=0
        if g > 1:
            import math
            c0 = p.const()
            nc = P({m: c / g for m, c in p.d.items() if m != ()})
            # g*nc + c0 <= -1  <=> nc <= floor((-1-c0)/g)
            k = math.floor((-1 - c0) / g)
            p = nc - k - 1
        if neg:
            # p<0 <=> not(p>=0) ; p>=0 <=> -p-1<0
            return bnot(bvar(('lt0', -p - 1)))
        return bvar(('lt0', p))
    q = strip_pos(p)
    if leading_nc(q) < 0:
        return bnot(bvar(('le0', -q)))
    return bvar(('lt0', q))


def leading_nc(p):
    return min(((m, c) for m, c in p.d.items() if m != ()), key=lambda kv: mono_key(kv[0]))[1]


def sole_ite(p):
    """(atom, rest, coef) if p contains exactly one ite atom, linearly, with constant coefficient"""
    found = None
    for m, c in p.d.items():
        for a, e in m:
            if _atom[a][0] == 'ite':
                if found is not None or e != 1 or len(m) != 1:
                    return None
                found = (a, c, m)
    if found is None:
        return None
    a, c, m = found
    rest = P({k: v for k, v in p.d.items() if k != m})
    return (a, rest, num(c))


def is_const_branch(ia):
    return True


def bvar_i(i):
    return node(i, TRUE, FALSE)


def le0(p):
    if is_int(p):
        return lt0(p - 1)
    return bnot(lt0(-p))


def lt(a, b):
    return lt0(num(a) - num(b))


def le(a, b):
    return le0(num(a) - num(b))


def eq(a, b):
    p = num(a) - num(b)
    if p.is_const():
        return TRUE if p.const() == 0 else FALSE
    if abs(sgn(p)) == 2:
        return FALSE
    ia = sole_ite(p)
    if ia is not None:
        t = _atom[ia[0]]
        return bite(bvar_i(t[1]), eq(ia[1] + ia[2] * t[2], ZERO), eq(ia[1] + ia[2] * t[3], ZERO))
    if is_int(p):
        g = 0
        for m, c in p.d.items():
            if m != ():
                g = gcd(g, int(c))
        if int(p.const()) % g:
            return FALSE
        p = p.scale(Q(1, g))
    else:
        p = strip_pos(p)
    if leading_nc(p) < 0:
        p = -p
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][1] == 1 and _atom[m[0][0]][:2] == ('fn', 'itrem'):
            # no remainder is left by either division
            p = fn('imod', *_atom[m[0][0]][2])
    return bvar(('eq0', p))


# gated numbers ------------------------------------------------------------
def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    hi = ite(c.hi, a, b)
    lo = ite(c.lo, a, b)
    return ite_v(c.v, hi, lo)


def ite_tops(p):
    return [a for a in p.atoms() if _atom[a][0] == 'ite']


_cof = {}


def cof_top(p, v, val):
    """p with gate variable v fixed, looking only through gates (not inside functions)"""
    tops = ite_tops(p)
    if not tops:
        return p
    key = (p, v, val)
    r = _cof.get(key)
    if r is None:
        m = {}
        for a in tops:
            t = _atom[a]
            if t[1] == v:
                m[a] = cof_top(t[2] if val else t[3], v, val)
            else:
                x, y = cof_top(t[2], v, val), cof_top(t[3], v, val)
                if x is not t[2] or y is not t[3]:
                    m[a] = ite_v(t[1], x, y)
        r = p if not m else p_map(p, lambda a: m[a] if a in m else P({((a, 1),): Q(1)}))
        _cof[key] = r
    return r


def ite_v(v, a, b):
    if a == b:
        return a
    ta, tb = ite_tops(a), ite_tops(b)
    if ta:
        a = cof_top(a, v, True)
    if tb:
        b = cof_top(b, v, False)
    if a == b:
        return a
    if ta or tb:
        ta, tb = ite_tops(a), ite_tops(b)
        if len(ta) <= 1 and len(tb) <= 1 and (ta or tb):
            w = min(_atom[x][1] for x in ta + tb)
            if w < v:
                return ite_v(w, ite_v(v, cof_top(a, w, True), cof_top(b, w, True)),
                             ite_v(v, cof_top(a, w, False), cof_top(b, w, False)))
    # canonical: common part factored out additively when it is not itself gated
    common = {m: x for m, x in a.d.items() if b.d.get(m) == x}
    if common:
        cp = P(common)
        return cp + ite_v(v, a - cp, b - cp)
    i = aid(('ite', v, a, b))
    return P({((i, 1),): Q(1)})


# ------------------------------------------------------------------ traversal
def p_map(p, f, cache=None):
    """rebuild p replacing each atom id a by polynomial f(a)"""
    r = ZERO
    acc = {}
    for m, c in p.d.items():
        t = P({(): c})
        for a, e in m:
            x = f(a)
            if e == 1:
                t = t * x
            elif e > 0:
                t = t * (x ** e)
            else:
                t = t * inv(x ** (-e))
        for mm, cc in t.d.items():
            v = acc.get(mm, 0) + cc
            if v:
                acc[mm] = v
            else:
                acc.pop(mm, None)
    return P(acc)


def b_map(b, fa, memo=None):
    """rebuild a BDD mapping each boolean atom through fa(atom tuple) -> B"""
    if b is TRUE or b is FALSE:
        return b
    if memo is None:
        memo = {}
    k = id(b)
    if k in memo:
        return memo[k]
    c = fa(b.v)
    r = bite(c, b_map(b.hi, fa, memo), b_map(b.lo, fa, memo))
    memo[k] = r
    return r


class Subst:
    """deep substitution of atoms: mapping atom id -> P, boolean atom id -> B"""

    def __init__(self, m, bm=None):
        self.m = m
        self.bm = bm or {}
        self.ca = {}
        self.cb = {}
        self.cp = {}

    def p(self, p):
        r = self.cp.get(p)
        if r is None:
            r = p_map(p, self.a)
            self.cp[p] = r
        return r

    def b(self, b):
        return b_map(b, self.ba)

    def a(self, i):
        if i in self.m:
            return self.m[i]
        r = self.ca.get(i)
        if r is None:
            r = self.rebuild(i)
            self.ca[i] = r
        return r

    def ba(self, v):
        if v in self.bm:
            return self.bm[v]
        r = self.cb.get(v)
        if r is None:
            t = _batom[v]
            r = self.rebuild_b(t)
            self.cb[v] = r
        return r

    def rebuild_b(self, t):
        k = t[0]
        if k == 'lt0':
            return lt0(self.p(t[1]))
        if k == 'le0':
            return le0(self.p(t[1]))
        if k == 'eq0':
            return eq(self.p(t[1]), ZERO)
        n = tuple(self.any(x) for x in t)
        return bvar(n)

    def any(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, B):
            return self.b(x)
        return x

    def rebuild(self, i):
        t = _atom[i]
        k = t[0]
        if k == 'sym' or k == 'const':
            return P({((i, 1),): Q(1)})
        if k == 'fn':
            args = tuple(self.p(x) if isinstance(x, P) else x for x in t[2])
            if args == t[2]:
                return P({((i, 1),): Q(1)})
            return fn(t[1], *args)
        if k == 'inv':
            return inv(self.p(t[1]))
        if k == 'ite':
            return ite(self.ba(t[1]), self.p(t[2]), self.p(t[3]))
        if k == 'sum':
            return mk_sum_raw(self.p(t[1]), self.p(t[2]), t[3])
        n = tuple(self.any(x) for x in t)
        if n == t:
            return P({((i, 1),): Q(1)})
        j = aid(n)
        if j not in BOUNDS and i in BOUNDS:
            s2 = Subst(dict(self.m), self.bm)
            s2.m[i] = P({((j, 1),): Q(1)})
            BOUNDS[j] = []
            BOUNDS[j] = [s2.p(x) for x in BOUNDS[i]]
        return P({((j, 1),): Q(1)})


def subst(p, m):
    return Subst(m).p(p)


# deep atoms of a polynomial
_deep = {}


def deep_atoms(p):
    r = _deep.get(p)
    if r is None:
        s = set()
        for a in p.atoms():
            s |= atom_deep(a)
        r = frozenset(s)
        _deep[p] = r
    return r


_ad = {}


def atom_deep(a):
    r = _ad.get(a)
    if r is None:
        s = {a}
        _ad[a] = frozenset(s)
        for x in _atom[a]:
            s |= any_deep(x)
        t = _atom[a]
        if t[0] == 'ite':
            s |= batom_deep(t[1])
        r = frozenset(s)
        _ad[a] = r
    return r


def any_deep(x):
    if isinstance(x, P):
        return deep_atoms(x)
    if isinstance(x, B):
        s = set()
        for v in bsupport(x):
            s |= batom_deep(v)
        return s
    if isinstance(x, tuple):
        s = set()
        for y in x:
            s |= any_deep(y)
        return s
    return set()


def batom_deep(v):
    return any_deep(_batom[v])


# ------------------------------------------------------------------ sums
def bv(d):
    return A(('bv', d))


def sum_depth(p):
    d = 0
    for a in deep_atoms(p):
        t = _atom[a]
        if t[0] == 'sum':
            d = max(d, t[3])
    return d


def mk_sum(body, ksym, n):
    """sum_{ksym=0}^{n-1} body, ksym a single-atom P"""
    if body.is_zero():
        return ZERO
    k = single(ksym)
    if k not in deep_atoms(body):
        return body * n
    if n.is_const():
        c = n.const()
        if c <= 0:
            return ZERO
        if c <= 16:
            r = ZERO
            for j in range(int(c)):
                r = r + subst(body, {k: num(j)})
            return r
    d = sum_depth(body) + 1
    body = subst(body, {k: bv(d)})
    return mk_sum_raw(body, n, d)


def mk_sum_raw(body, n, d):
    if body.is_zero() or n.is_zero():
        return ZERO
    if aid(('bv', d)) not in deep_atoms(body):
        return body * n
    if n.is_const() and n.const() <= 16:
        r = ZERO
        for j in range(int(n.const())):
            r = r + subst(body, {aid(('bv', d)): num(j)})
        return r
    return A(('sum', body, n, d))


# ------------------------------------------------------------------ display
def show(p, depth=0):
    if not p.d:
        return '0'
    out = []
    for m, c in sorted(p.d.items(), key=lambda kv: mono_key(kv[0])):
        fs = []
        if c != 1 or not m:
            fs.append(str(c) if c != -1 or not m else '-1')
        for a, e in m:
            s = ashow(a, depth)
            fs.append(s if e == 1 else '%s^%d' % (s, e))
        out.append('*'.join(fs))
        if len(out) > 60:
            out.append('...')
            break
    return ' + '.join(out)


def pathshow(path):
    s = ''
    for x in path:
        if isinstance(x, P):
            s += '[%s]' % show(x)
        else:
            s += ('.' if s else '') + str(x)
    return s


def ashow(a, depth=0):
    t = _atom[a]
    if depth > 6:
        return '..'
    k = t[0]
    if k == 'sym':
        return t[1]
    if k == 'const':
        return t[1]
    if k == 'sel':
        return '%s%s' % (t[1] + '.' if t[1] else '', pathshow(t[2]))
    if k == 'fn':
        return '%s(%s)' % (t[1], ', '.join(show(x, depth + 1) if isinstance(x, P) else str(x) for x in t[2]))
    if k == 'inv':
        return '1/(%s)' % show(t[1], depth + 1)
    if k == 'ite':
        return 'if{%s; %s; %s}' % (bashow(t[1], depth + 1), show(t[2], depth + 1), show(t[3], depth + 1))
    if k == 'sum':
        return 'SUM{i%d<%s}(%s)' % (t[3], show(t[2], depth + 1), show(t[1], depth + 1))
    if k == 'bv':
        return 'i%d' % t[1]
    if k == 'draw':
        return 'draw_%s#%s%s' % (t[1], t[3], ''.join('[%s]' % show(x) for x in t[4]))
    return '<%s>' % ' '.join(show(x, depth + 1) if isinstance(x, P) else str(x)[:60] for x in t)


def bashow(v, depth=0):
    t = _batom[v]
    if t[0] == 'lt0':
        return '%s < 0' % show(t[1], depth)
    if t[0] == 'le0':
        return '%s <= 0' % show(t[1], depth)
    if t[0] == 'eq0':
        return '%s == 0' % show(t[1], depth)
    return '%s' % (' '.join(show(x, depth) if isinstance(x, P) else str(x) for x in t))


def bshow(b, depth=0):
    if b is TRUE:
        return 'true'
    if b is FALSE:
        return 'false'
    if b.hi is TRUE and b.lo is FALSE:
        return '(%s)' % bashow(b.v)
    if b.hi is FALSE and b.lo is TRUE:
        return '!(%s)' % bashow(b.v)
    if depth > 5:
        return '..'
    return '((%s) ? %s : %s)' % (bashow(b.v), bshow(b.hi, depth + 1), bshow(b.lo, depth + 1))


# ------------------------------------------------------------------ linear facts (Fourier-Motzkin)
class Facts:
    """conjunction of linear facts (p <= 0 / p < 0) and boolean assumptions"""

    def __init__(self, le=(), bools=None, eqs=()):
        self.le = list(le)       # (P, strict)
        self.bools = dict(bools or {})
        self.eqs = list(eqs)
        self._memo = {}
        self._sm = {}

    def with_(self, v, val):
        f = Facts(self.le, self.bools, self.eqs)
        f.bools[v] = val
        t = _batom[v]
        if t[0] == 'lt0':
            if val:
                f.le.append((t[1], True))
            else:
                f.le.append((-t[1], False))
        elif t[0] == 'le0':
            if val:
                f.le.append((t[1], False))
            else:
                f.le.append((-t[1], True))
        elif t[0] == 'eq0':
            if val:
                f.eqs.append(t[1])
            else:
                f.le = list(f.le)
                f.bools[v] = False
        return f

    def add_le(self, p):
        return Facts(self.le + [(p, False)], self.bools, self.eqs)

    def assume(self, b):
        """list of fact sets, one per cube of b (small)"""
        if b is TRUE:
            return [self]
        if b is FALSE:
            return []
        return self.with_(b.v, True).assume(b.hi) + self.with_(b.v, False).assume(b.lo)

    def decide(self, v):
        if v in self.bools:
            return self.bools[v]
        r = self._memo.get(v, 0)
        if r != 0:
            return r
        t = _batom[v]
        r = None
        if t[0] in ('lt0', 'le0'):
            p = t[1]
            st = t[0] == 'lt0'
            if not self.feasible([(p, st)]):
                r = False
            elif not self.feasible([(-p, not st)]):
                r = True
        elif t[0] == 'eq0':
            p = t[1]
            if not self.feasible([], [p]):
                r = False
            elif not self.feasible([(p, True)]) and not self.feasible([(-p, True)]):
                r = True
        self._memo[v] = r
        return r

    def consistent(self):
        # disequalities recorded in bools
        for v, val in self.bools.items():
            t = _batom[v]
            if t[0] == 'eq0' and not val:
                if not self.feasible([(t[1], True)]) and not self.feasible([(-t[1], True)]):
                    return False
        return self.feasible([])

    def feasible(self, extra, exeq=()):
        rows = list(self.le) + list(extra)
        eqs = list(self.eqs) + list(exeq)
        # bounds of atoms mentioned
        atoms = set()
        for p, _ in rows:
            for a in p.atoms():
                atoms.add(a)
        for p in eqs:
            for a in p.atoms():
                atoms.add(a)
        seen = set()
        work = list(atoms)
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            for p in BOUNDS.get(a, ()):
                rows.append((p, False))
                for b in p.atoms():
                    if b not in seen:
                        work.append(b)
        # disequalities as strengthening: p != 0 with p >= 0 known elsewhere handled by splitting
        diseq = []
        for v, val in self.bools.items():
            t = _batom[v]
            if t[0] == 'eq0' and not val and is_int(t[1]):
                diseq.append(t[1])
        return fm_feasible(rows, eqs, diseq)


def fm_feasible(rows, eqs, diseq=(), depth=0):
    R = []
    for p, st in rows:
        if is_int(p):
            if st:
                p = p + 1
            st = False
        d = {m: c for m, c in p.d.items() if m != ()}
        R.append((d, p.const(), st, is_int(p)))
    E = []
    for p in eqs:
        d = {m: c for m, c in p.d.items() if m != ()}
        E.append((d, p.const(), is_int(p)))
    D = [({m: c for m, c in p.d.items() if m != ()}, p.const()) for p in diseq]
    # eliminate equalities
    while E:
        d, c, ii = E.pop()
        if not d:
            if c != 0:
                return False
            continue
        if ii:
            g = 0
            for x in d.values():
                g = gcd(g, int(x))
            if g and int(c) % g:
                return False
        # pick a variable with |coef| 1 if integer
        var = None
        for m, x in d.items():
            if abs(x) == 1:
                var = m
                break
        if var is None:
            var = next(iter(d))
        x = d[var]

        def elim(dd, cc):
            if var not in dd:
                return dd, cc
            y = dd[var] / x
            r = dict(dd)
            for m, z in d.items():
                v = r.get(m, 0) - y * z
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            return r, cc - y * c
        E = [(*elim(a, b), i3) for a, b, i3 in E]
        R = [(*elim(a, b), s, i3 and abs(x) == 1) for a, b, s, i3 in R]
        D = [elim(a, b) for a, b in D]
    R = tighten(R)
    if R is None:
        return False
    for a, b in D:
        if not a and b == 0:
            return False
    # disequality splitting (only when it can matter)
    if D and depth < 3:
        for idx, (a, b) in enumerate(D):
            # does some row bound it tightly?
            lo = (a, b)
            r1 = fm_core(R + [({m: -c for m, c in a.items()}, -b + 1, False, True)])
            r2 = fm_core(R + [(dict(a), b + 1, False, True)])
            if not r1 and not r2:
                return False
            if not r1:
                R = tighten(R + [(dict(a), b + 1, False, True)])
                if R is None:
                    return False
            elif not r2:
                R = tighten(R + [({m: -c for m, c in a.items()}, -b + 1, False, True)])
                if R is None:
                    return False
    return fm_core(R)


def tighten(R):
    out = []
    seen = set()
    for d, c, st, ii in R:
        if not d:
            if c > 0 or (st and c == 0):
                return None
            continue
        if ii and all(x.denominator == 1 for x in d.values()) and c.denominator == 1:
            g = 0
            for x in d.values():
                g = gcd(g, int(x))
            if g > 1:
                import math
                d = {m: x / g for m, x in d.items()}
                c = Q(math.ceil(c / g))
        else:
            # scale
            k = abs(next(iter(d.values())))
            if k != 1:
                d = {m: x / k for m, x in d.items()}
                c = c / k
                ii = False
        key = (frozenset(d.items()), c, st)
        if key in seen:
            continue
        seen.add(key)
        out.append((d, c, st, ii))
    return out


def fm_core(R):
    R = tighten(R)
    if R is None:
        return False
    for _ in range(40):
        if not R:
            return True
        # choose variable with the fewest products
        cnt = {}
        for d, c, st, ii in R:
            for m, x in d.items():
                a, b = cnt.get(m, (0, 0))
                cnt[m] = (a + (x > 0), b + (x < 0))
        var = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1], m))
        pos, neg, rest = [], [], []
        for r in R:
            x = r[0].get(var, 0)
            (pos if x > 0 else neg if x < 0 else rest).append(r)
        if len(pos) * len(neg) > 400:
            return True
        for d1, c1, s1, i1 in pos:
            for d2, c2, s2, i2 in neg:
                a, b = d1[var], -d2[var]
                d = {}
                for m, x in d1.items():
                    d[m] = d.get(m, 0) + x * b
                for m, x in d2.items():
                    d[m] = d.get(m, 0) + x * a
                d = {m: x for m, x in d.items() if x}
                rest.append((d, c1 * b + c2 * a, s1 or s2, i1 and i2))
        R = tighten(rest)
        if R is None:
            return False
        if len(R) > 600:
            return True
    return True


# ------------------------------------------------------------------ simplification under facts
class NeedSplit(Exception):
    def __init__(self, v):
        self.v = v


class Simp:
    def __init__(self, facts, dosums=False):
        self.f = facts
        self.cp = {}
        self.ca = {}
        self.cb = {}
        self.dosums = dosums

    def p(self, p):
        r = self.cp.get(p)
        if r is None:
            r = p_map(p, self.a)
            self.cp[p] = r
        return r

    def b(self, b):
        return b_map(b, self.ba)

    def ba(self, v):
        r = self.cb.get(v)
        if r is None:
            d = self.f.decide(v)
            if d is not None:
                r = TRUE if d else FALSE
            else:
                t = _batom[v]
                if t[0] == 'lt0':
                    r = lt0(self.p(t[1]))
                elif t[0] == 'le0':
                    r = le0(self.p(t[1]))
                elif t[0] == 'eq0':
                    r = eq(self.p(t[1]), ZERO)
                else:
                    r = bvar(tuple(self.any(x) for x in t))
                if r is not TRUE and r is not FALSE and r.v != v:
                    r = b_map(r, lambda w: (lambda q: bvar_i(w) if q is None else (TRUE if q else FALSE))(self.f.decide(w)))
            self.cb[v] = r
        return r

    def any(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, tuple):
            return tuple(self.any(y) for y in x)
        if isinstance(x, B):
            return self.b(x)
        return x

    def a(self, i):
        r = self.ca.get(i)
        if r is not None:
            return r
        t = _atom[i]
        k = t[0]
        me = P({((i, 1),): Q(1)})
        if k in ('sym', 'const', 'bv'):
            r = me
        elif k == 'ite':
            c = self.ba(t[1])
            if c is TRUE:
                r = self.p(t[2])
            elif c is FALSE:
                r = self.p(t[3])
            elif c is not TRUE and c.hi is TRUE and c.lo is FALSE:
                a = Simp(self.f.with_(c.v, True)).p(t[2])
                b = Simp(self.f.with_(c.v, False)).p(t[3])
                r = ite_v(c.v, a, b)
            else:
                r = ite(c, self.p(t[2]), self.p(t[3]))
        elif k == 'inv':
            r = inv(self.p(t[1]))
        elif k == 'fn':
            args = tuple(self.p(x) if isinstance(x, P) else x for x in t[2])
            r = fn(t[1], *args) if args != t[2] else me
            r = self.post_fn(r)
        elif k == 'sum':
            n = self.p(t[2])
            d = t[3]
            kv = bv(d)
            f2 = self.f.add_le(-kv).add_le(kv - n + 1)
            body = Simp(f2).p(t[1])
            r = mk_sum_raw(body, n, d)
        else:
            n = tuple(self.any(x) for x in t)
            r = me if n == t else Subst({}).rebuild(aid(n)) if False else P({((aid(n), 1),): Q(1)})
            if n != t:
                j = aid(n)
                if j not in BOUNDS and i in BOUNDS:
                    BOUNDS[j] = list(BOUNDS[i])
        self.ca[i] = r
        return r

    def post_fn(self, r):
        i = single(r)
        if i is None:
            return r
        t = _atom[i]
        if t[0] == 'fn' and t[1] == 'imod':
            n, q = t[2]
            lo, mid, hi = lt0(n), lt0(n - q), lt0(n - q - q)

            def dec(b):
                b = self.b(b)
                return True if b is TRUE else False if b is FALSE else None
            if dec(lo) is False:
                m = dec(mid)
                if m is True:
                    return n
                if m is False and dec(hi) is True:
                    return n - q
                if dec(hi) is True:
                    return ite(self.b(mid), n, n - q)
        if t[0] == 'fn' and t[1] == 'idiv':
            n, q = t[2]
            lo, mid = lt0(n), lt0(n - q)
            if self.b(lo) is FALSE and self.b(mid) is TRUE:
                return ZERO
        if t[0] == 'fn' and t[1] == 'abs':
            n = t[2][0]
            if self.b(lt0(n)) is FALSE:
                return n
            if self.b(lt0(n)) is TRUE:
                return -n
        return r


def numden(p):
    """clear inverse atoms and negative exponents: returns (numerator, denominator)"""
    den = ONE
    for _ in range(60):
        mul = {}
        for m in p.d:
            for a, e in m:
                if _atom[a][0] == 'inv':
                    mul[a] = max(mul.get(a, 0), e)
                elif e < 0:
                    mul[a] = max(mul.get(a, 0), -e)
        if not mul:
            return p, den
        f = ONE
        # multiply one denominator at a time
        a, e = next(iter(mul.items()))
        if _atom[a][0] == 'inv':
            q = _atom[a][1] ** e
            # multiply p by q exploiting inv(q')^k * q'^e
            acc = ZERO
            base = _atom[a][1]
            for m, c in p.d.items():
                dm = dict(m)
                k = dm.pop(a, 0)
                rest = P({tuple(sorted(dm.items())): c})
                acc = acc + rest * (base ** (e - k))
            p = acc
            den = den * q
        else:
            f = P({((a, e),): Q(1)})
            p = p * f
            den = den * f
    return p, den


def top_ites(p):
    return [a for a in p.atoms() if _atom[a][0] == 'ite']


def find_cond(p):
    """some undecided gate reachable in p (numeric position first, then nested in functions)"""
    best = None
    for a in p.atoms():
        t = _atom[a]
        if t[0] == 'ite':
            v = inner_cond(t[1])
            if best is None or v < best:
                best = v
    if best is not None:
        return best
    for a in p.atoms():
        t = _atom[a]
        if t[0] in ('fn', 'inv', 'sel', 'draw', 'opq'):
            for x in flat_ps(t):
                v = find_cond(x)
                if v is not None:
                    return v
    return None


def inner_cond(v):
    """if the comparison itself contains gates, split on these first"""
    t = _batom[v]
    for x in flat_ps(t):
        w = find_cond(x)
        if w is not None:
            return w
    return v


def flat_ps(t):
    for x in t:
        if isinstance(x, P):
            yield x
        elif isinstance(x, tuple):
            yield from flat_ps(x)


# sums: split ranges on gates that depend on the bound variable, canonical shift
def depends_bv(v, d):
    return aid(('bv', d)) in batom_deep(v)


def expand_sums(p, facts):
    """rewrite every sum atom of p into canonical prefix sums; may raise NeedSplit"""
    def f(a):
        t = _atom[a]
        if t[0] != 'sum':
            return P({((a, 1),): Q(1)})
        return range_sum(t[1], t[3], ZERO, t[2], facts)
    if not any(_atom[a][0] == 'sum' for a in p.atoms()):
        return p
    return p_map(p, f)


def range_sum(body, d, lo, hi, facts, depth=0):
    """sum_{bv(d)=lo}^{hi-1} body as canonical prefix sums"""
    k = aid(('bv', d))
    kv = bv(d)
    f2 = facts.add_le(lo - kv).add_le(kv - hi + 1)
    if not f2.feasible([]):
        # empty range for certain
        return ZERO
    body = Simp(f2).p(body)
    # inner sums first
    if any(_atom[a][0] == 'sum' for a in body.atoms()):
        body = expand_sums(body, f2)
    # find gate depending on k
    gate = None
    for a in sorted(body.atoms()):
        t = _atom[a]
        if t[0] == 'ite':
            v = inner_cond(t[1])
            if k in batom_deep(v):
                gate = v
                break
            else:
                raise NeedSplit(v)
    if gate is None:
        for a in sorted(body.atoms()):
            t = _atom[a]
            if t[0] != 'ite' and t[0] != 'sum':
                v = find_cond(P({((a, 1),): Q(1)}))
                if v is not None:
                    if k in batom_deep(v):
                        gate = v
                    else:
                        raise NeedSplit(v)
                    break
    if gate is not None and depth < 12:
        t = _batom[gate]
        if t[0] in ('lt0', 'eq0') and is_int(t[1]):
            q = t[1]
            c = q.d.get(((k, 1),), Q(0))
            rest = P({m: x for m, x in q.d.items() if m != ((k, 1),)})
            if abs(c) == 1 and k not in deep_atoms(rest):
                if t[0] == 'lt0':
                    # c*k + rest < 0
                    if c == 1:
                        e = -rest            # k < e : true on [lo,e)
                        tv = True
                    else:
                        e = rest + 1         # -k+rest<0 : k > rest: true on [rest+1,hi)
                        tv = False
                    # need lo<=e<=hi
                    e_lo, e_hi = lt(e, lo), lt(hi, e)
                    for cnd in (e_lo, e_hi):
                        for v in bsupport(cnd):
                            if facts.decide(v) is None:
                                raise NeedSplit(v)
                    s = Simp(facts)
                    if s.b(e_lo) is TRUE:
                        e = lo
                    if s.b(e_hi) is TRUE:
                        e = hi
                    b1 = cof_p(body, gate, tv)
                    b2 = cof_p(body, gate, not tv)
                    return range_sum(b1, d, lo, e, facts, depth + 1) + range_sum(b2, d, e, hi, facts, depth + 1)
                else:
                    e = -rest if c == 1 else rest
                    inr1, inr2 = le(lo, e), lt(e, hi)
                    for cnd in (inr1, inr2):
                        for v in bsupport(cnd):
                            if facts.decide(v) is None:
                                raise NeedSplit(v)
                    s = Simp(facts)
                    b2 = cof_p(body, gate, False)
                    if s.b(inr1) is TRUE and s.b(inr2) is TRUE:
                        b1 = cof_p(body, gate, True)
                        at = s.p(subst(b1, {k: e}))
                        # split around the point so that neighbouring gates can be resolved
                        return (range_sum(b2, d, lo, e, facts, depth + 1) + at +
                                range_sum(b2, d, e + 1, hi, facts, depth + 1))
                    return range_sum(b2, d, lo, hi, facts, depth + 1)
        return mk_sum_raw(subst(body, {k: kv}), hi, d) - mk_sum_raw(body, lo, d)
    # monomials
    r = ZERO
    for m, c in body.d.items():
        indep, dep = [], []
        for a, e in m:
            (dep if k in atom_deep(a) else indep).append((a, e))
        coef = P({tuple(indep): c})
        if not dep:
            r = r + coef * (hi - lo)
            continue
        mono = P({tuple(dep): Q(1)})
        # canonical shift: the least constant offset of k inside the selector indices
        offs = []
        for a, e in dep:
            collect_offsets(_atom[a], k, offs)
        sh = min(offs) if offs else Q(0)
        if sh:
            mono = subst(mono, {k: kv - num(sh)})
        r = r + coef * (prefix(mono, d, hi + num(sh), facts) - prefix(mono, d, lo + num(sh), facts))
    return r


def collect_offsets(t, k, offs):
    for x in t:
        if isinstance(x, P):
            c = x.d.get(((k, 1),))
            if c is not None and k not in deep_atoms(P({m: y for m, y in x.d.items() if m != ((k, 1),)})):
                if c == 1 and x.const().denominator == 1:
                    offs.append(x.const())
                elif c == -1 and x.const().denominator == 1:
                    pass
            else:
                for a in x.atoms():
                    if k in atom_deep(a):
                        collect_offsets(_atom[a], k, offs)
        elif isinstance(x, tuple):
            collect_offsets(x, k, offs)


def prefix(mono, d, n, facts):
    """F(n) = sum_{i<n} mono(i) with the integer constant of n peeled off"""
    k = aid(('bv', d))
    c = n.const()
    base = P({m: x for m, x in n.d.items() if m != ()})
    if c.denominator != 1 or abs(c) > 12:
        return A(('sum', mono, n, d))
    r = A(('sum', mono, base, d)) if not base.is_zero() else ZERO
    c = int(c)
    s = Simp(facts)
    if c > 0:
        for j in range(c):
            r = r + s.p(subst(mono, {k: base + j}))
    elif c < 0:
        for j in range(c, 0):
            r = r - s.p(subst(mono, {k: base + j}))
    return r


def cof_p(p, v, val):
    """cofactor of p with respect to boolean atom v"""
    return Subst({}, {v: TRUE if val else FALSE}).p(p)


# ------------------------------------------------------------------ equality
class Verdict:
    def __init__(self, ok, why='', cases=0):
        self.ok = ok
        self.why = why
        self.cases = cases


def rewrite_rules(p, rules):
    """rules: list of functions P -> P applied until fixpoint"""
    for _ in range(8):
        q = p
        for r in rules:
            q = r(q)
        if q == p:
            return p
        p = q
    return p


def equal(a, b, facts=None, rules=(), maxcases=4000, collect=None, most=12):
    """decide a == b as real functions by normal form; returns Verdict"""
    facts = facts or Facts()
    cnt = [0]

    def go(d, f):
        cnt[0] += 1
        if cnt[0] > maxcases:
            return 'case limit'
        d = Simp(f).p(d)
        if d.is_zero():
            return None
        v = find_cond(d)
        if v is None:
            try:
                d2 = expand_sums(d, f)
            except NeedSplit as e:
                v = e.v
            else:
                if d2 != d:
                    d2 = Simp(f).p(d2)
                    if d2.is_zero():
                        return None
                    v = find_cond(d2)
                d = d2
        if v is not None:
            for val in (True, False):
                f2 = f.with_(v, val)
                if not f2.consistent():
                    continue
                d2 = cof_p(d, v, val)
                if val and _batom[v][0] == 'eq0':
                    d2 = solve_eq(d2, _batom[v][1])
                elif _batom[v][0] == 'lt0' and is_int(_batom[v][1]):
                    # p < 0 (or p >= 0) that can only hold with equality
                    q = _batom[v][1] + 1 if val else -_batom[v][1]
                    if not f.feasible([(q, True)]):
                        d2 = solve_eq(d2, q)
                r = go(d2, f2)
                if r is not None:
                    return r
            return None
        n, _ = numden(d)
        n = rewrite_rules(n, rules)
        n, _ = numden(n)
        if n.is_zero():
            return None
        # unify functions whose arguments are equal though written differently
        u = unify(n, f, rules)
        if u is not None:
            u2, _ = numden(u)
            u2 = rewrite_rules(u2, rules)
            if u2.is_zero():
                return None
            n = u2
        if collect is not None:
            collect.append(f)
            return None if len(collect) < most else 'enough'
        fs = ', '.join(('' if x else 'not ') + '(' + bashow(k) + ')' for k, x in list(f.bools.items())[:6])
        return 'difference %s%s' % (show(n)[:600], (' when ' + fs) if fs else '')
    r = go(a - b, facts)
    return Verdict(r is None, r or '', cnt[0])


def solve_eq(d, p):
    """use p == 0 to eliminate one symbol with unit coefficient from d"""
    cand = []
    for m, c in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            a = m[0][0]
            rest = P({k: v for k, v in p.d.items() if k != m})
            if a not in deep_atoms(rest):
                cand.append((atom_is_input(a), a, rest.scale(-1 / c)))
    if not cand:
        return d
    cand.sort(key=lambda x: (x[0], x[1]))
    _, a, val = cand[-1]
    return subst(d, {a: val})


def atom_is_input(a):
    t = _atom[a]
    return t[0] in ('draw', 'bv') or (t[0] == 'sym' and t[1].startswith('idx'))


def unify(n, f, rules):
    groups = {}
    for a in n.atoms():
        t = _atom[a]
        if t[0] == 'fn':
            groups.setdefault((t[1], len(t[2])), []).append(a)
        elif t[0] in ('sel', 'draw'):
            groups.setdefault((t[0], t[1], len(t[2]) if isinstance(t[2], tuple) else 0), []).append(a)
    m = {}
    for g, l in groups.items():
        l = sorted(l)
        reps = []
        for a in l:
            for b in reps:
                if args_equal(_atom[a], _atom[b], f, rules):
                    m[a] = P({((b, 1),): Q(1)})
                    break
            else:
                reps.append(a)
    if not m:
        return None
    return p_map(n, lambda a: m.get(a) or P({((a, 1),): Q(1)}))


def args_equal(t1, t2, f, rules):
    if len(t1) != len(t2):
        return False
    for x, y in zip(t1, t2):
        if isinstance(x, P) and isinstance(y, P):
            if x != y and not equal(x, y, f, rules, 60).ok:
                return False
        elif isinstance(x, tuple) and isinstance(y, tuple):
            if not args_equal(x, y, f, rules):
                return False
        elif x != y:
            return False
    return True
