"""Numerical interpretation of normal forms, used only to *confirm* that two different normal forms
really denote different functions before a difference is reported (a normal form that merely failed
to be recognised as equal is never reported).  It interprets expressions of the analysis, not the
program."""
import math
import struct
import random
import hashlib
import itertools
import alg
from alg import P, TRUE, FALSE
from fractions import Fraction


class Bad(Exception):
    pass


class NotFinite(Bad):
    """the expression is infinite or undefined in this environment"""


DIGITS = 9


def bitop(name, a, b):
    return a & b if name == 'band' else a | b if name == 'bor' else a ^ b if name == 'bxor' else a << min(b, 64) if name == 'shl' else a >> min(b, 64)


def positive(f):
    def g(x):
        if x <= 0:
            raise Bad('log')
        return f(x)
    return g


BITS = {'npow2': lambda x: 1 if x < 1 else 1 << (x - 1).bit_length(), 'ilog2': positive(lambda x: x.bit_length() - 1),
        'ilog10': positive(lambda x: len(str(x)) - 1), 'isqrt': lambda x: math.isqrt(max(x, 0)), 'popcnt': lambda x: bin(x).count('1'),
        'tz': positive(lambda x: (x & -x).bit_length() - 1)}
for _n in ('band', 'bor', 'bxor', 'shl', 'shr'):
    BITS[_n] = lambda a, b, _n=_n: bitop(_n, a, b)


def h01(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


def q(x):
    """stable key of a float"""
    if isinstance(x, float):
        if x == int(x) if abs(x) < 1e15 else False:
            return int(x)
        return float('%.*g' % (DIGITS, x))
    return x


class Env:
    scaled = False
    snap = 0.0              # values this close to zero count as zero in conditions

    def scale(self, *key):
        """scaled environments spread magnitudes over several decades"""
        if not self.scaled:
            return 1.0
        if self.scaled == 'zero':
            return 0.0 if key[0] == 'opq' and h01(self.seed, 'scale', *key) < 0.4 else 1.0
        if self.scaled == 'wide':
            return (1.0, 1.0, 1e-2, 30.0, 1e3, 1e5, 1e7)[int(7 * h01(self.seed, 'scale', *key))]
        return (1.0, 1.0, 0.1, 1e-2, 1e-3, 1e-5, 30.0)[int(7 * h01(self.seed, 'scale', *key))]

    def __init__(self, seed, ints=None, fixed=None, opq=True, enums=None):
        self.seed = seed
        self.r = random.Random(repr(seed))
        self.ints = ints or {}
        self.fixed = fixed or {}
        self.memo = {}
        self.bvs = {}
        self.opq = opq
        self.bools = {}
        self.over = {}          # values chosen on purpose, by the (evaluated) key of an input
        self.used = None        # keys of the inputs an evaluation depends on

    def key(self, x):
        if isinstance(x, P):
            return q(self.p(x))
        if isinstance(x, tuple):
            return tuple(self.key(y) for y in x)
        return x

    def real01(self, *key):
        return h01(self.seed, *key)

    def real(self, *key):
        if self.used is not None:
            self.used.add(key)
        if key in self.over:
            return self.over[key]
        return 3.0 * h01(self.seed, *key) - 1.5

    def p(self, p):
        s = 0.0
        for m, c in p.d.items():
            t = float(c)
            for a, e in m:
                v = self.a(a)
                if e != 1:
                    if v == 0 and e < 0:
                        raise NotFinite('division by zero')
                    v = v ** e
                t *= v
            s += t
        if s != s or abs(s) == math.inf:
            raise Bad('nan')
        return s

    def a(self, i):
        if i in self.fixed:
            return self.fixed[i]
        t = alg.atom_of(i)
        dep = bool(self.bvs)
        if not dep:
            r = self.memo.get(i)
            if r is not None:
                return r
        r = self.a2(i, t)
        if not dep:
            self.memo[i] = r
        return r

    def a2(self, i, t):
        k = t[0]
        if k == 'sym':
            if t[2] == 'int':
                if t[1] not in self.ints:
                    self.ints[t[1]] = self.r.randint(0, 9)
                return float(self.ints[t[1]])
            if i in alg.UNITSQ:
                v = self.p(alg.UNITSQ[i])
                if v < 0:
                    raise Bad('unit')
                return math.sqrt(v) * (1 if self.real('us', i) > 0 else -1)
            v = self.real('sym', t[1])
            if i in alg.POS:
                v = (abs(v) + 0.05) * self.scale('sym', t[1])
            elif any(i in p.atoms() for p in alg.UNITSQ.values()):
                v = v * 0.4
            else:
                v = v * self.scale('sym', t[1])
            return v
        if k == 'const':
            return math.pi
        if k == 'sel':
            if t[3] == 'int':
                if self.over:
                    v = self.over.get(('sel', t[1], self.key(t[2])))
                    if v is not None:
                        return float(v)
                return float(int(1 + 8 * self.real01('sel', t[1], self.key(t[2]))))
            return self.real('sel', t[1], self.key(t[2])) * self.scale('sel', t[1], self.key(t[2]))
        if k == 'fn':
            try:
                xs = [self.p(x) for x in t[2] if isinstance(x, P)]
            except NotFinite:
                if t[1] in ('sqrt', 'sin', 'cos') or t[1].startswith('rot'):
                    raise
                raise Bad('infinite argument')
            return self.fn(t[1], xs, t)
        if k == 'inv':
            v = self.p(t[1])
            if abs(v) < 1e-300:
                raise NotFinite('division by zero')
            return 1.0 / v
        if k == 'ite':
            return self.p(t[2]) if self.bv(t[1]) else self.p(t[3])
        if k == 'sum':
            n = self.p(t[2])
            n = int(round(n))
            if n > 20000:
                raise Bad('long sum')
            d = t[3]
            old = self.bvs.get(d)
            s = 0.0
            try:
                for j in range(max(n, 0)):
                    self.bvs[d] = float(j)
                    s += self.p(t[1])
            finally:
                if old is None:
                    self.bvs.pop(d, None)
                else:
                    self.bvs[d] = old
            return s
        if k == 'bv':
            if t[1] not in self.bvs:
                raise Bad('free bound variable')
            return self.bvs[t[1]]
        if k == 'draw':
            key = self.key(t[2:])
            u = self.real01('draw', t[1], key)
            if t[1] == 'unif':
                return u
            if t[1] == 'normal':
                return 3 * u - 1.5
            if t[1] == 'range':
                lo, hi = [self.p(x) for x in t[2][:2]]
                n = int(round(hi - lo))
                if n <= 0:
                    raise Bad('empty range')
                return float(int(lo) + min(n - 1, int(u * n)))
            if t[1] == 'bits':
                return float(int(u * 2 ** int(t[2][0].const())))
            return u
        if k == 'opq':
            if not self.opq:
                raise Bad('opaque')
            if len(t) > 3 and t[3] == 'int':
                if self.over:
                    v = self.over.get(('opq', self.key(t[1:])))
                    if v is not None:
                        return float(v)
                return float(int(9 * self.real01('opq', self.key(t[1:]))))
            return self.real('opq', self.key(t[1:])) * self.scale('opq', self.key(t[1:]))
        raise Bad('atom ' + str(k))

    def fn(self, name, x, t):
        try:
            if name == 'sqrt':
                if x[0] < 0:
                    if x[0] > -1e-9:
                        return 0.0
                    raise Bad('sqrt')
                return math.sqrt(x[0])
            if name in ('sin', 'cos', 'tan', 'tanh', 'atan', 'sinh', 'cosh', 'exp', 'floor', 'ceil', 'trunc', 'fabs'):
                v = getattr(math, name)(x[0])
                return float(v)
            if name in ('acos', 'asin'):
                if abs(x[0]) > 1:
                    raise Bad(name)
                return getattr(math, name)(x[0])
            if name == 'abs':
                return abs(x[0])
            if name == 'ln':
                if x[0] <= 0:
                    raise Bad('ln')
                return math.log(x[0])
            if name == 'atan2':
                return math.atan2(x[0], x[1])
            if name == 'round':
                return math.floor(abs(x[0]) + 0.5) * (1 if x[0] >= 0 else -1)
            if name in ('idiv', 'imod') and max(abs(x[0]), abs(x[1])) > 2 ** 53:
                u, v = (self.exact(q) for q in t[2])
                if v == 0:
                    raise Bad(name)
                return float(u // v if name == 'idiv' else u % v)
            if name in BITS:
                return float(BITS[name](*[int(q) for q in x]))
            if name == 'idiv':
                if x[1] == 0:
                    raise Bad('idiv')
                return float(int(x[0] / x[1]))
            if name == 'imod':
                if x[1] == 0:
                    raise Bad('imod')
                return float(int(x[0]) % int(x[1]))
            if name == 'itdiv':
                return float(int(x[0] / x[1]))
            if name == 'itrem':
                return math.fmod(x[0], x[1])
            if name == 'fmod':
                return math.fmod(x[0], x[1])
            if name == 'fmod_e':
                return x[0] % abs(x[1])
            if name == 'wrap':
                n = 2 ** int(x[1])
                v = int(x[0]) % n
                return float(v - n if x[2] and v >= n // 2 else v)
            if name == 'sat':
                n = 2 ** int(x[1])
                lo, hi = (-n // 2, n // 2 - 1) if x[2] else (0, n - 1)
                return float(min(max(int(x[0]), lo), hi))
            if name == 'rnd':
                n = 10.0 ** int(x[1])
                return math.copysign(math.floor(abs(x[0]) * n + 0.5) / n, x[0])
            if name == 'f32':
                return struct.unpack('f', struct.pack('f', float(x[0])))[0]
            if name == 'ftou':
                return float(max(0, int(x[0])))
            if name == 'powi' or name == 'powf':
                return float(x[0]) ** x[1]
            if name == 'signum':
                return math.copysign(1.0, x[0])
            if name == 'cbrt':
                return math.copysign(abs(x[0]) ** (1 / 3), x[0])
            if name == 'round_ties_even':
                return float(round(x[0]))
            if name == 'div0':
                raise NotFinite('division by zero')
            if name == 'max':
                return max(x)
            if name == 'min':
                return min(x)
        except (OverflowError, ValueError, ZeroDivisionError):
            raise Bad(name)
        # uninterpreted
        if name in ('rot0', 'rot1', 'rot2') and len(x) == 7:
            return precess(x[:3], x[3:6], x[6])[int(name[3])]
        return self.real('fn', name, self.key(t[2]))

    def exact(self, p):
        """value of an integer expression beyond the precision of a double"""
        s = Fraction(0)
        for m, c in p.d.items():
            q = Fraction(c)
            for a, e in m:
                t = alg.atom_of(a)
                if t[0] == 'fn' and t[1] == 'wrap':
                    n = 2 ** int(t[2][1].const())
                    v = int(self.exact(t[2][0])) % n
                    if t[2][2].const() and v >= n // 2:
                        v -= n
                elif t[0] == 'ite':
                    v = self.exact(t[2] if self.bv(t[1]) else t[3])
                else:
                    v = Fraction(float(self.a(a)))
                q *= Fraction(v) ** e
            s += q
        return int(s)

    def bv(self, v):
        t = alg._batom[v]
        if v in self.bools:
            return self.bools[v]
        if t[0] == 'lt0':
            return self.p(t[1]) < -self.snap
        if t[0] == 'le0':
            return self.p(t[1]) <= self.snap
        if t[0] == 'eq0':
            return abs(self.p(t[1])) < max(1e-12, self.snap)
        return self.real01('b', self.key(t)) < 0.5

    def b(self, b):
        while b is not TRUE and b is not FALSE:
            b = b.hi if self.bv(b.v) else b.lo
        return b is TRUE


def precess(s, b, dt):
    """Rodrigues' rotation of s by -|b| dt about b (what P02 requires of Spin::rotate)"""
    m = math.sqrt(sum(x * x for x in b))
    if m == 0 or not math.isfinite(m * dt):
        return s
    n = [x / m for x in b]
    c, sn = math.cos(m * dt), math.sin(m * dt)
    d = sum(x * y for x, y in zip(n, s))
    x = [n[1] * s[2] - n[2] * s[1], n[2] * s[0] - n[0] * s[2], n[0] * s[1] - n[1] * s[0]]
    return [s[i] * c + n[i] * d * (1 - c) - x[i] * sn for i in range(3)]


def has_opq(p):
    out = set()
    for a in alg.deep_atoms(p) if isinstance(p, P) else ():
        t = alg.atom_of(a)
        if t[0] == 'opq' or (t[0] == 'fn' and t[1] in ('bitnot',)) or (t[0] == 'fn' and str(t[1]).startswith('op')):
            out.add(a)
    return out


_bd = {}


def deep_b(x):
    """ids of the boolean atoms anywhere inside"""
    if isinstance(x, P):
        out = set()
        for a in x.atoms():
            k = ('a', a)
            r = _bd.get(k)
            if r is None:
                _bd[k] = frozenset()
                r = set()
                for y in alg.atom_of(a):
                    r |= deep_b(y)
                t = alg.atom_of(a)
                if t[0] == 'ite':
                    r |= deep_bv(t[1])
                r = _bd[k] = frozenset(r)
            out |= r
        return out
    if isinstance(x, alg.B):
        out = set()
        for v in alg.bsupport(x):
            out |= deep_bv(v)
        return out
    if isinstance(x, tuple):
        out = set()
        for y in x:
            out |= deep_b(y)
        return out
    return set()


def deep_bv(v):
    k = ('b', v)
    r = _bd.get(k)
    if r is None:
        _bd[k] = frozenset()
        r = _bd[k] = frozenset({v} | deep_b(alg._batom[v]))
    return r


def has_opqb(p):
    return {v for v in deep_b(p) if alg._batom[v][0] == 'opqb' and alg._batom[v][1] not in ('parses', 'more')}


def family(t):
    """inputs and carried values of which each argument gives an independent one: same name, different place"""
    if t[:1] != ('opq',):
        return None
    n = str(t[1])
    if n.startswith('phi:') and n.endswith((':el', ':len')):
        return n, len(t[2])
    if n == 'nth':
        return n, t[2][0]
    if n == 'parsed':
        return n, t[2][1]
    return None


def unresolved(got, want, facts=None):
    """values in got which the specification does not know"""
    w = has_opq(want)
    for p in [q[0] for q in facts.le] + list(facts.eqs) if facts else ():
        w = w | has_opq(p)
    fam = {family(alg.atom_of(a)) for a in w} - {None}
    r = {a for a in has_opq(got) - w if family(alg.atom_of(a)) not in fam}
    if r:
        return r
    b = has_opqb(got) - has_opqb(want)
    if b and facts:
        b = b - set(facts.bools)
        for q in facts.le:
            b = b - deep_b(q[0])
    return {Unknown(v) for v in b}


class Unknown:
    """a truth value the analysis does not resolve"""

    def __init__(self, v):
        self.v = v

    def show(self):
        return alg.bshow(alg.node(self.v, alg.TRUE, alg.FALSE))


def envs(facts, seed, n=12, tries=400, intvars=None):
    """environments satisfying the facts"""
    rng = random.Random(seed)
    names = set()
    rows = [(p, s) for p, s in facts.le] if facts else []
    eqs = list(facts.eqs) if facts else []
    for p, _ in rows:
        for a in p.atoms():
            t = alg.atom_of(a)
            if t[0] == 'sym' and t[2] == 'int':
                names.add(t[1])
    for p in eqs:
        for a in p.atoms():
            t = alg.atom_of(a)
            if t[0] == 'sym' and t[2] == 'int':
                names.add(t[1])
    names = sorted(names)
    got = 0
    for k in range(tries):
        hi = rng.choice([3, 5, 8, 12])
        ints = {x: rng.randint(0, hi) for x in names}
        e = Env((seed, k), dict(ints))
        try:
            ok = all((e.p(p) < 0) if s else (e.p(p) <= 1e-12) for p, s in rows) and \
                all(abs(e.p(p)) < 1e-9 for p in eqs)
            if ok and facts:
                for v, val in facts.bools.items():
                    if alg._batom[v][0] in ('lt0', 'le0', 'eq0'):
                        if e.bv(v) != val:
                            ok = False
                            break
                    else:
                        e.bools[v] = val
        except Bad:
            continue
        if ok:
            got += 1
            yield e
            if got >= n:
                return


def differ(a, b, facts, seed=1, n=40):
    """a witness environment where a and b are clearly different, or None"""
    global DIGITS
    try:
        d = a - b
        c = d.const() if d.is_const() else None
    except Exception:
        c = None
    if c is not None and c != 0:
        y = b.const()
        return Env(seed, {}), float(c + (y or 0)), float(y or 0)
    for e in envs(facts, seed, n):
        w = differ1(a, b, e)
        if w is None:
            continue
        # uninterpreted functions are hashed on rounded arguments: confirm with another rounding
        try:
            DIGITS = 7
            e2 = Env(e.seed, dict(e.ints))
            e2.bools = dict(e.bools)
            w2 = differ1(a, b, e2)
        finally:
            DIGITS = 9
        if w2 is not None:
            return w
    return differ_deep(a, b, facts, seed) or differ_big(a, b, facts, seed) or differ_aimed(a, b, facts, seed)


def thresholds(a, b):
    """sizes at which a distinguishes cases and b does not"""
    def of(x):
        out = set()

        def row(p):
            c = abs(p.const() if p.is_const() else p.d.get((), 0))
            if 9 <= c <= 10 ** 7 and not p.is_const():
                out.add(int(c))
        for i in alg.deep_atoms(x):
            t = alg.atom_of(i)
            if t[0] == 'fn' and t[1] in ('wrap', 'sat') and t[2][1].const() <= 16:
                out.add(2 ** int(t[2][1].const()))
            elif t[0] == 'fn' and t[1] in ('idiv', 'imod', 'itdiv', 'itrem', 'min', 'max'):
                for p in t[2]:
                    if p.is_const() and 9 <= abs(p.const()) <= 10 ** 7:
                        out.add(int(abs(p.const())))
                    elif not p.is_const():
                        row(p)
            elif t[0] == 'sum':
                row(t[2])
        for v in deep_b(x):
            t = alg._batom[v]
            if t[0] in ('lt0', 'le0', 'eq0'):
                row(t[1])
        return out
    return sorted(of(a) - of(b))[:6]


def differ_big(a, b, facts, seed):
    """sizes beyond the thresholds of a"""
    import time
    import mpeval
    ks = thresholds(a, b)
    stop = time.time() + 25
    for e0 in envs(facts, repr((seed, 'mp')), 3):
        # differences of relative size 1e-8 (single precision)
        if any(alg.atom_of(i)[:2] in (('fn', 'f32'), ('fn', 'rnd')) for i in alg.deep_atoms(a)):
            e = mpeval.MpEnv(e0.seed, dict(e0.ints))
            e.bools = dict(e0.bools)
            w = differ1(a, b, e, 1e-13)
            if w is not None:
                return w[0], float(w[1]), float(w[2])
    names = {intname(i) for i in alg.deep_atoms(a) | alg.deep_atoms(b)} - {None}
    for k in ks:
        got = 0
        for e in bigenvs(facts, repr((seed, 'big', k)), k, names):
            w = differ1(a, b, e)
            if w is not None:
                return w
            got += 1
            if got >= 12 or time.time() > stop:
                break
    return None


def bigenvs(facts, seed, k, more=(), tries=60):
    """environments satisfying the facts in which some sizes are about k"""
    rng = random.Random(seed)
    rows = [(p, s) for p, s in facts.le] if facts else []
    eqs = list(facts.eqs) if facts else []
    for n, e0 in enumerate(envs(facts, seed, tries)):
        names = sorted(set(e0.ints) | set(more), key=repr)
        if not names:
            return
        e = Env((seed, n), dict(e0.ints))
        e.bools = dict(e0.bools)
        for x in names:
            if not isinstance(x, tuple):
                e.ints.setdefault(x, rng.randint(0, 9))
        for x in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3]))):
            putint(e, x, k * rng.choice([1, 1, 1, 2]) + rng.randint(-1, 12))
        if repair(e, rows, eqs, rng) and holds(e, facts, rows, eqs):
            yield e


def holds(e, facts, rows, eqs):
    try:
        if not all((e.p(p) < 0) if s else (e.p(p) <= 1e-12) for p, s in rows) or not all(abs(e.p(p)) < 1e-9 for p in eqs):
            return False
        for v, val in facts.bools.items() if facts else ():
            if alg._batom[v][0] in ('lt0', 'le0', 'eq0') and e.bv(v) != val:
                return False
    except Bad:
        return False
    return True


def intname(i):
    t = alg.atom_of(i)
    if t[0] == 'sym' and t[2] == 'int':
        return t[1]
    if t[0] == 'sel' and t[3] == 'int' and all(isinstance(x, str) for x in t[2]):
        return ('sel', t[1], t[2])
    if t[0] == 'opq' and len(t) > 3 and t[3] == 'int':
        return ('opqatom', i)
    return None


def putint(e, name, x):
    if isinstance(name, tuple) and name[0] == 'opqatom':
        try:
            e.over[('opq', e.key(alg.atom_of(name[1])[1:]))] = x
        except Bad:
            pass
    elif isinstance(name, tuple):
        e.over[name] = x
    else:
        e.ints[name] = x
    e.memo.clear()


def repair(e, rows, eqs, rng):
    """shifts integers until the linear rows hold"""
    for _ in range(80):
        e.memo.clear()
        bad = []
        try:
            for p, s in rows:
                x = e.p(p)
                if x > 1e-12 or s and x >= 0:
                    bad.append((p, x + (1 if s else 0), False))
            for p in eqs:
                x = e.p(p)
                if abs(x) > 1e-9:
                    bad.append((p, x, True))
        except Bad:
            return False
        if not bad:
            return True
        p, excess, eq = rng.choice(bad)
        lin = []
        for m, c in p.d.items():
            if len(m) == 1 and m[0][1] == 1:
                x = intname(m[0][0])
                if x is not None:
                    lin.append((x, float(c), e.a(m[0][0])))
        if not lin:
            return False
        v, c, old = rng.choice(lin)
        d = excess / c
        d = math.copysign(math.ceil(abs(d) - 1e-9), d)
        putint(e, v, max(0, int(old - d)))
    e.memo.clear()
    return False


def conditions(a, b):
    """atomic conditions decided in a but not in b"""
    def conds(p):
        out = set()
        for x in alg.deep_atoms(p):
            t = alg.atom_of(x)
            if t[0] == 'ite':
                out |= set(bvars(t[1]))
        return out
    return sorted(conds(a) - conds(b))


def bvars(b):
    return [b]


def differ_deep(a, b, facts, seed, n=95):
    """high precision, magnitudes spread over decades, conditions hit on purpose"""
    try:
        import mpeval
    except ImportError:
        return None
    cs = conditions(a, b)
    k = 0
    for e0 in envs(facts, repr((seed, 'deep')), n):
        k += 1
        e = mpeval.MpEnv(e0.seed, dict(e0.ints))
        e.bools = dict(e0.bools)
        e.scaled = 'zero' if k > 80 else 'wide' if k > 60 else k % 4 != 0
        if cs and k % 3 == 0:
            aim(e, cs[(k // 3) % len(cs)])
        try:
            w = differ1(a, b, e, 1e-11)
        except Exception:
            continue
        if w is not None and not (e.scaled == 'zero' and w[1] != w[1]):
            return w[0], float(w[1]), float(w[2])
    return None


def differ_aimed(a, b, facts, seed):
    """looks for inputs in the very cases where the normal forms differ"""
    import random as rnd
    cases = []
    alg.equal(a, b, facts, collect=cases)
    ks = thresholds(a, b)
    names = {intname(i) for i in alg.deep_atoms(a) | alg.deep_atoms(b)} - {None}
    r = rnd.Random(repr((seed, 'aimed')))
    for f in cases:
        lits, free = literals(f)
        es = list(envs(facts, repr((seed, 'aimed')), 8))
        for k in ks:
            es += list(itertools.islice(bigenvs(facts, repr((seed, 'aimed', k)), k, names, 12), 3))
        for e0 in es:
            e = Env(e0.seed, dict(e0.ints))
            e.over = dict(e0.over)
            e.snap = 1e-8
            e.bools = dict(free)
            if not steer(e, lits, facts, r):
                continue
            w = differ1(a, b, e)
            if w is None:
                continue
            # the difference must not hinge on rounding
            exact = any(k == 'eq' for k, p in lits)
            e2 = Env(e0.seed, dict(e.ints))
            e2.snap, e2.bools = e.snap, e.bools
            e2.over = {k: x + 1e-11 * (r.random() - 0.5) * (1 + abs(x)) for k, x in e.over.items()} if not exact else dict(e.over)
            if exact:
                e2.snap = 3e-8
            if differ1(a, b, e2) is not None:
                return w
    return None


def literals(f):
    """what the inputs of a case must satisfy: ('lt'|'eq'|'ne', p); free truth values"""
    le, lits, free = [], [], {}
    for v, x in f.bools.items():
        k, p = alg._batom[v][:2]
        if k not in ('lt0', 'le0', 'eq0'):
            free[v] = x
        elif k == 'eq0':
            lits.append(('eq' if x else 'ne', p))
        else:
            le.append((p if x else -p, (k == 'lt0') == x))
    # p <= 0 and -p <= 0
    for p, strict in le:
        if not strict and any(not s and (p + q).is_zero() for q, s in le):
            lits.append(('eq', p))
        else:
            lits.append(('lt' if strict or not alg.is_int(p) else 'le', p))
    return lits, free


def loss(e, k, p):
    x = e.p(p)
    if k == 'eq':
        return abs(x) if abs(x) > 1e-10 else 0.0
    if k == 'ne':
        return max(0.0, 1e-3 - abs(x))
    if k == 'le':
        return max(0.0, x - 1e-9)
    return max(0.0, x + 1e-6)


def steer(e, lits, facts, r, rounds=400):
    """moves inputs of the environment until every literal (and fact) holds"""
    rows = [(p, s) for p, s in facts.le] if facts else []

    def total():
        e.memo.clear()
        s = 0.0
        bad = []
        for v, want in lits:
            x = loss(e, v, want)
            if x > 0:
                bad.append((v, want))
                s += min(x, 1e6)
        for p, st in rows:
            x = e.p(p)
            if x > 0 or st and x >= 0:
                s += x + 1
        return s, bad
    try:
        cur, bad = total()
    except Bad:
        return False
    for _ in range(rounds):
        if cur == 0:
            return True
        if not bad:
            return False
        k, p = r.choice(bad)
        e.used = set()
        e.memo.clear()
        try:
            x0 = e.p(p)
        except Bad:
            return False
        keys = sorted(e.used, key=repr)
        e.used = None
        if r.random() < 0.2 and e.ints:
            n = r.choice(sorted(e.ints))
            old = e.ints[n]
            step = r.choice([-1, 1, 2, -2])
            if r.random() < 0.5 and k != 'ne':
                try:
                    e.ints[n] = old + 1
                    e.memo.clear()
                    g = e.p(p) - x0
                    if g and abs(x0 / g) < 10 ** 7:
                        step = round(-x0 / g)
                except Bad:
                    pass
            e.ints[n] = max(0, old + step)
            undo = lambda: e.ints.__setitem__(n, old)
        elif keys:
            key = r.choice(keys)
            old = e.over.get(key)
            y0 = e.real(*key)
            h = 1e-4 * (1 + abs(y0))

            def undo():
                if old is None:
                    e.over.pop(key, None)
                else:
                    e.over[key] = old
            try:
                e.over[key] = y0 + h
                e.memo.clear()
                g = (e.p(p) - x0) / h
                goal = {'eq': 0.0, 'ne': 1.0, 'le': -round(2 * r.random()), 'lt': -r.random() * r.choice([1e-3, 1e-3, 0.1, 1.0, 30.0]) - 2e-6}[k]
                e.over[key] = y0 + (goal - x0) / g if g and r.random() < 0.8 else y0 * r.choice([0.0, 0.5, 2.0, -1.0]) + 0.1 * (r.random() - 0.5)
            except Bad:
                undo()
                continue
        else:
            return False
        try:
            new, nb = total()
        except Bad:
            undo()
            continue
        if new <= cur:
            cur, bad = new, nb
        else:
            undo()
    e.memo.clear()
    return cur == 0


def aim(e, v):
    """choose one input so that an equality condition holds"""
    t = alg._batom[v]
    if t[0] != 'eq0':
        return
    p = t[1]
    for x in sorted(p.atoms()):
        k = alg.atom_of(x)
        if k[0] not in ('sym', 'sel') or k[-1] == 'int' or (k[0] == 'sym' and k[2] == 'int'):
            continue
        if any(y == x and q != 1 for m in p.d for y, q in m):
            continue
        try:
            e.fixed = {x: e.num(0)}
            c0 = e.p(p)
            e.memo.clear()
            e.fixed = {x: e.num(1)}
            c1 = e.p(p)
            e.memo.clear()
            if c1 != c0:
                e.fixed = {x: -c0 / (c1 - c0)}
                return
        except Bad:
            pass
        e.fixed = {}
        e.memo.clear()


def differ1(a, b, e, tol=1e-6):
    try:
        y = e.p(b)
    except Bad:
        return None
    try:
        x = e.p(a)
    except NotFinite:
        return e, math.nan, y
    except Bad:
        return None
    if abs(x - y) > tol * (1 + abs(x) + abs(y)):
        return e, x, y
    return None


def bdiffer(a, b, facts, seed=1, n=40):
    for e in envs(facts, seed, n):
        try:
            x, y = e.b(a), e.b(b)
        except Bad:
            continue
        if x != y:
            return e, x, y
    return None
