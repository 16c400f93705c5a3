"""Effects of a function with where they happen: the loops and spawned threads around them, and under which condition."""
from .spec import *
from alg import band, bnot, bor
import core
import gsa
from gsa import Str, Seq, Clo, same
from . import chains


class Occ:
    """one effect in its context"""

    def __init__(self, e, path):
        self.e, self.path = e, path
        self.loops = [c for c in path if c.kind == 'loop']
        self.spawns = [c for c in path if c.kind == 'spawn']
        self.args = e.args
        self.callee = e.callee

    def pc(self, below=None):
        """the condition under which it happens, from the start of an iteration of `below` (or of the function) on"""
        c = self.e.pc
        for x in reversed(self.path):
            if x is below:
                return c
            c = band(x.pc, c)
        return c

    @property
    def seq(self):
        return self.e.info.get('seq', 0)

    def at(self):
        sp = self.e.sp or ['?', 0]
        return '%s:%s' % (sp[0], sp[1])

    def inside(self, l):
        return any(x is l for x in self.path)


def walk(evs, path=()):
    for e in evs:
        if e.kind != 'loop':
            yield Occ(e, path)
        if e.body is not None:
            yield from walk(e.body, path + (e,))


def loops_of(evs, path=()):
    for e in evs:
        if e.kind == 'loop':
            yield Occ(e, path)
        if e.body is not None:
            yield from loops_of(e.body, path + (e,))


def named(occs, *names):
    return [o for o in occs if o.callee in names]


def conf(name, kind='real'):
    return sel('conf', name, kind=kind)


def count(occs, below=None):
    """how many of the effects happen in one iteration"""
    t = ZERO
    for o in occs:
        t = t + ite(o.pc(below), ONE, ZERO)
    return t


def deep_repr(v):
    return repr(gsa.canon(v)) if not isinstance(v, (P,)) else repr(v)


def config_same(ctx, name, got, base='conf', skip=(), where='', facts=None):
    """every field of a configuration is the corresponding field of the one called base; one obligation"""
    if not isinstance(got, St):
        ctx.undecided(name, 'configuration not resolved: %s' % repr(got)[:100], where)
        return None
    I = None
    bad = None
    n = 0
    want = config_of(ctx, base)
    for k, w in want.f.items():
        if k in skip:
            continue
        g = got.f.get(k)
        if g is None:
            ctx.undecided(name, 'no field %s' % k, where)
            return None
        r = value_eq(ctx, g, w, facts)
        if r is None:
            ctx.undecided(name + ': ' + k, 'not resolved: %s' % repr(g)[:100], where)
            bad = bad or 'u'
        elif r is not True:
            ctx.violated(name + ': ' + k, '%s is %s, not %s%s' % (k, repr(g)[:100], repr(w)[:60], '' if r is False else '; ' + r), where)
            bad = 'v'
        n += 1
    if bad is None:
        ctx.proved(name, '%d field(s)' % n, where)
        return True
    return False


def config_of(ctx, base):
    I = gsa.Interp(ctx.prog)
    c, k = chains.config_type(ctx.prog)
    return I.symval(c, k, base, ())


def value_eq(ctx, g, w, facts=None):
    """True / reason (they differ) / None (not decided)"""
    if gsa.same(g, w):
        return True
    if isinstance(g, (gsa.B,)) and isinstance(w, gsa.B):
        g, w = ite(g, ONE, ZERO), ite(w, ONE, ZERO)
    gp, wp = core.as_num(g), core.as_num(w)
    if gp is not None and wp is not None:
        return num_eq(gp, wp, facts)
    if isinstance(g, (Tup, Arr)) and isinstance(w, (Tup, Arr)):
        lg, lw = gsa.arr_len(g), gsa.arr_len(w)
        r = num_eq(lg, lw, facts)
        if r is not True:
            return r
        if isinstance(g, Arr) or isinstance(w, Arr):
            i = sym('cmpidx', 'int')
            f = (facts or Facts())
            try:
                return value_eq(ctx, arr_at(g, i), arr_at(w, i), f)
            except Exception:
                return None
        rs = [value_eq(ctx, a, b, facts) for a, b in zip(g.v, w.v)]
        for r in rs:
            if r is not True:
                return r
        return True
    if isinstance(g, Str) and isinstance(w, Str):
        return str_eq(ctx, g, w, facts)
    if isinstance(g, gsa.Opq) and isinstance(w, gsa.Opq) and g.tag == w.tag == 'strin':
        return 'a different input'
    if isinstance(g, (gsa.St, gsa.SymEnum)) and isinstance(w, (gsa.SymEnum, gsa.St)):
        if isinstance(g, St) and isinstance(w, St) and g.path == w.path and g.var == w.var and g.f.keys() == w.f.keys():
            for k in g.f:
                r = value_eq(ctx, g.f[k], w.f[k], facts)
                if r is not True:
                    return r
            return True
        return 'a different value'
    return None


def num_eq(g, w, facts=None):
    facts = facts or Facts()
    try:
        with core.limit(40):
            if alg_equal(g, w, facts):
                return True
    except (core.Timeout, RecursionError):
        return None
    import neval
    if neval.unresolved(g, w, facts):
        return None
    try:
        with core.limit(20):
            d = neval.differ(g, w, facts)
    except (core.Timeout, RecursionError):
        d = None
    if d is None:
        return None
    e, x, y = d
    return 'with %s it is %.6g where %.6g is required' % (core.ints(e), x, y)


def alg_equal(g, w, facts):
    import alg
    return alg.equal(g, w, facts).ok


def str_eq(ctx, g, w, facts=None):
    a, b = norm_parts(g), norm_parts(w)
    if len(a) != len(b):
        if any(isinstance(x, gsa.Opq) and x.tag not in ('strin',) for x in a):
            return None
        return 'text %s instead of %s' % (show_str(g), show_str(w))
    for x, y in zip(a, b):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                if isinstance(x, gsa.Opq) and x.tag not in ('strin',):
                    return None
                return 'text %s instead of %s' % (show_str(g), show_str(w))
            continue
        r = value_eq(ctx, x, y, facts)
        if r is not True:
            return r
    return True


def norm_parts(s):
    """one part per literal run / displayed value"""
    return [p for p in s.parts]


def show_str(s):
    return ''.join(p if isinstance(p, str) else '{%s}' % repr(p)[:40] for p in s.parts)


def require(ctx, name, r, where, what=''):
    """record the outcome of value_eq"""
    if r is True:
        ctx.proved(name, what, where)
    elif r is None:
        ctx.undecided(name, 'not resolved' + (': ' + what if what else ''), where)
    else:
        ctx.violated(name, (what + ': ' if what else '') + str(r), where)
    return r is True


def fields(s):
    """the space-separated columns of a record: list of values; None if it is not of that form"""
    out, cur = [], []
    for p in s.parts:
        if isinstance(p, str):
            bits = p.split(' ')
            for i, b in enumerate(bits):
                if i:
                    out.append(cur)
                    cur = []
                if b:
                    cur.append(b)
        else:
            cur.append(p)
    out.append(cur)
    return out


def run_bin(ctx, path, **kw):
    """a function of the program itself: if it is gone the property may live elsewhere, which is not for this rule to decide"""
    if ctx.prog.find(path) is None:
        ctx.undecided('anchor ' + path, 'the function no longer exists under this name', path)
        return None
    kw.setdefault('mods', chains.chain_models())
    return ctx.run(path, **kw)
