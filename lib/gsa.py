"""Gated value numbering over MIR.

Every local, field and array element gets a symbolic value; control-flow joins are merged with
gates (no path is enumerated, no solver is called, nothing is run); counted loops are summarised by
scalar evolution (induction variables, additive accumulators as sums, element-wise stores and pushes
as maps); local callees and closures are inlined; externally visible effects (calls that are neither
inlined nor modelled) are recorded as an ordered effect tree with their gate and arguments.
Whatever is not understood becomes an opaque value, never a guess.
"""
import json
import math
import re
import os
from alg import *
import alg
import neval

# ------------------------------------------------------------------ program


class Fn:
    __slots__ = ('j', 'crate', 'path', 'succ', 'rpo', 'rpoi', 'loops', 'T', 'name')

    def __init__(self, j, crate, T):
        self.j = j
        self.crate = crate
        self.path = j['path']
        self.T = T
        self.succ = None

    def prep(self):
        if self.succ is not None:
            return
        bl = self.j['blocks']
        self.succ = [succs(b['term']) for b in bl]
        # rpo
        seen, order = set(), []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(n)
                st.pop()
        order.reverse()
        self.rpo = order
        self.rpoi = {b: i for i, b in enumerate(order)}
        # dominators
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                if s in preds:
                    preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, new, p)
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in idom and dom(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += preds[x]
        self.loops = loops

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpoi[a] > self.rpoi[b]:
                a = idom[a]
            while self.rpoi[b] > self.rpoi[a]:
                b = idom[b]
        return a


def succs(t):
    k = t['t']
    if k == 'goto':
        return [t['to']]
    if k == 'switch':
        return [x[1] for x in t['vals']] + [t['else']]
    if k in ('drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    return []


class Program:
    def __init__(self, factdir):
        self.fns = {}
        self.adts = {}
        self.files = {}
        for n in ('sc-lib', 'sc-bin'):
            p = os.path.join(factdir, n + '.json')
            d = json.load(open(p))
            self.files[n] = d
            for f in d['fns']:
                fn_ = Fn(f, n, d['types'])
                # lib first; bin functions must not shadow lib ones
                if f['path'] not in self.fns:
                    self.fns[f['path']] = fn_
            for a in d['adts']:
                p = norm_adt(a['path'])
                if a['local'] and (p not in self.adts or not self.adts[p][0]['local']):
                    self.adts[p] = (a, n)
                elif p not in self.adts:
                    self.adts[p] = (a, n)

    def find(self, path):
        return self.fns.get(path)

    def closures_of(self, path):
        return [f for p, f in self.fns.items() if p.startswith(path + '::{closure')]


def norm_adt(p):
    return p


# ------------------------------------------------------------------ values
class Tup:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.v)) + ')'


class St:
    """struct or enum variant"""
    __slots__ = ('path', 'var', 'vname', 'f')

    def __init__(self, path, var, vname, f):
        self.path, self.var, self.vname, self.f = path, var, vname, f

    def __repr__(self):
        return '%s%s{%s}' % (self.path.split('::')[-1], '::' + self.vname if self.vname else '',
                             ', '.join('%s: %r' % kv for kv in list(self.f.items())[:12]))


class SymEnum:
    __slots__ = ('adt', 'base', 'path', 'interp', 'args', 'crate')

    def __init__(self, adt, base, path, args=(), crate=None):
        self.adt, self.base, self.path, self.args, self.crate = adt, base, path, args, crate

    def __repr__(self):
        return 'enum %s.%s' % (self.base, pathshow(self.path))


class Gate:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return 'if{%r; %r; %r}' % (self.c, self.a, self.b)


class Arr:
    """array of symbolic length"""
    __slots__ = ('len', 'kind', 'x', 'memo')

    def __init__(self, ln, kind, *x):
        self.len, self.kind, self.x = ln, kind, x
        self.memo = {}

    def at(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self._at(i)
            self.memo[i] = r
        return r

    def _at(self, i):
        k = self.kind
        if k == 'map':
            return self.x[0](i)
        if k == 'store':
            base, j, v = self.x
            c = eq(i, j)
            if c is TRUE:
                return v
            if c is FALSE:
                return base.at(i)
            return gate(c, v, base.at(i))
        if k == 'concat':
            a, b = self.x
            n = arr_len(a)
            c = lt(i, n)
            if c is TRUE:
                return arr_at(a, i)
            if c is FALSE:
                return arr_at(b, i - n)
            return gate(c, arr_at(a, i), arr_at(b, i - n))
        if k == 'mapstore':
            base, kk, n, j, v = self.x
            # exists k in [0,n): j(k) == i
            c, kv = solve_index(j, kk, i)
            if c is None:
                return Opq('mapstore', (base, i))
            c = band(c, band(le(ZERO, kv), lt(kv, n)))
            c = simp_b(c)
            if c is FALSE:
                return base.at(i)
            val = vsubst(v, Subst({single(kk): kv}))
            if c is TRUE:
                return val
            return gate(c, val, base.at(i))
        raise Exception(k)

    def __repr__(self):
        return '[%s; len %s]' % (self.kind, show(self.len))


def simp_b(c):
    return Simp(Facts()).b(c)


def solve_index(j, kk, i):
    """k with j(k) == i for affine j; returns (condition, k) or (None, None)"""
    k = single(kk)
    a = j.d.get(((k, 1),))
    rest = P({m: x for m, x in j.d.items() if m != ((k, 1),)})
    if a is None or k in deep_atoms(rest):
        return None, None
    r = (i - rest)
    if a == 1:
        return TRUE, r
    if a == -1:
        return TRUE, -r
    if a.denominator != 1:
        return None, None
    q = r.scale(1 / a)
    # divisible?
    if all((c.denominator == 1) for m, c in q.d.items() if m != ()):
        return (TRUE, q) if q.const().denominator == 1 else (FALSE, ZERO)
    if a > 0:
        return eq(fn('imod', r, num(a)), ZERO), fn('idiv', r, num(a))
    return None, None


class Ref:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __eq__(self, o):
        return isinstance(o, Ref) and o.root == self.root and o.path == self.path

    def __hash__(self):
        return hash((self.root, self.path))

    def __repr__(self):
        return '&%s%s' % (self.root, list(self.path))


class Seq:
    """iterator: at(interp, k) gives the element produced at step k (k counted from the start)"""
    __slots__ = ('n', 'at', 'pos', 'tag', 'pred', 'back')

    def __init__(self, n, at, pos=None, tag=None, pred=None):
        self.n, self.at = n, at
        self.pos = ZERO if pos is None else pos
        self.tag = tag
        self.pred = pred

    def __repr__(self):
        return 'Seq(%s @%s)' % (self.n, self.pos)


class Clo:
    __slots__ = ('path', 'up')

    def __init__(self, path, up):
        self.path, self.up = path, up

    def __repr__(self):
        return '|%s|' % self.path.split('::')[-2:]


class Str:
    """string as a concatenation of literals and displayed values"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, Str):
                out += p.parts
            else:
                out.append(p)
        o2 = []
        for p in out:
            if isinstance(p, str) and o2 and isinstance(o2[-1], str):
                o2[-1] += p
            elif p != '':
                o2.append(p)
        self.parts = tuple(o2)

    def __repr__(self):
        return 'str(%s)' % ' ++ '.join(repr(p) for p in self.parts)


class Opq:
    __slots__ = ('tag', 'deps')

    def __init__(self, tag, deps=()):
        self.tag, self.deps = tag, deps

    def __repr__(self):
        return '?%s(%s)' % (self.tag, ', '.join(repr(x)[:80] for x in self.deps))


class FnV:
    __slots__ = ('j', 'path')

    def __init__(self, j):
        self.j = j
        self.path = j.get('res') or j.get('path')

    def __repr__(self):
        return 'fn ' + self.path


UNIT = Tup(())


def canon(v):
    """hashable canonical key of a value (for equality tests)"""
    if isinstance(v, P):
        return v
    if isinstance(v, B):
        return ('B', id(v))
    if isinstance(v, Tup):
        return ('T',) + tuple(canon(x) for x in v.v)
    if isinstance(v, St):
        return ('S', v.path, v.vname) + tuple((k, canon(x)) for k, x in v.f.items())
    if isinstance(v, Ref):
        return v
    if isinstance(v, Str):
        return ('str',) + tuple(p if isinstance(p, str) else canon(p) for p in v.parts)
    if isinstance(v, str):
        return v
    if isinstance(v, Opq):
        return ('O', v.tag) + tuple(canon(x) for x in v.deps)
    if isinstance(v, Gate):
        return ('G', id(v.c), canon(v.a), canon(v.b))
    if isinstance(v, SymEnum):
        return ('E', v.base, v.path)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, Clo):
        return ('C', v.path, canon(v.up))
    if isinstance(v, Arr):
        if v.kind == 'map' and len(v.x) > 1:
            return ('A', v.x[1])
        if v.len.is_const() and v.len.const() <= 8:
            return ('T',) + tuple(canon(v.at(num(i))) for i in range(int(v.len.const())))
        k = sym('canon_idx', 'int')
        try:
            return ('A', v.len, canon(v.at(k)))
        except RecursionError:
            return ('id', id(v))
    if isinstance(v, Seq):
        return ('Q', v.n, v.pos, v.tag if v.tag is not None else id(v.at))
    return ('id', id(v)) if v is not None else None


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b) and not ({type(a), type(b)} <= {Tup, Arr}):
        return False
    if isinstance(a, P):
        return a == b
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.kind == b.kind == 'map' and len(a.x) > 1 and len(b.x) > 1:
            return a.x[1] == b.x[1]
        return canon(a) == canon(b)
    if isinstance(a, Seq):
        return a.at is b.at and a.pos == b.pos and a.n == b.n
    return canon(a) == canon(b)


def arr_len(v):
    if isinstance(v, Tup):
        return num(len(v.v))
    if isinstance(v, Arr):
        return v.len
    if isinstance(v, Gate):
        a, b = arr_len(v.a), arr_len(v.b)
        if a is None or b is None:
            return None
        return ite(v.c, a, b)
    return None


def arr_at(v, i):
    if isinstance(v, Tup):
        if i.is_const():
            k = int(i.const())
            if 0 <= k < len(v.v):
                return v.v[k]
            return Opq('oob', (i,))
        if not v.v:
            return Opq('oob', (i,))
        r = v.v[-1]
        for k in range(len(v.v) - 2, -1, -1):
            r = gate(eq(i, num(k)), v.v[k], r)
        return r
    if isinstance(v, Arr):
        return v.at(i)
    if isinstance(v, Gate):
        return gate(v.c, arr_at(v.a, i), arr_at(v.b, i))
    return Opq('elem', (v, i))


def gate(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, P) and isinstance(b, P):
        return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, B):
        return bite(c, a, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
        return Tup([gate(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, St) and isinstance(b, St) and a.path == b.path and a.var == b.var and a.f.keys() == b.f.keys():
        return St(a.path, a.var, a.vname, {k: gate(c, x, b.f[k]) for k, x in a.f.items()})
    if isinstance(a, Clo) and isinstance(b, Clo) and a.path == b.path and len(a.up) == len(b.up):
        return Clo(a.path, tuple(gate(c, x, y) for x, y in zip(a.up, b.up)))
    if isinstance(a, (Arr, Tup)) and isinstance(b, (Arr, Tup)):
        la, lb = arr_len(a), arr_len(b)
        # a conditional store into the same base is a store of a gated element
        if isinstance(a, Arr) and a.kind == 'store' and a.x[0] is b:
            return Arr(b.len, 'store', b, a.x[1], gate(c, a.x[2], b.at(a.x[1])))
        if isinstance(b, Arr) and b.kind == 'store' and b.x[0] is a:
            return Arr(a.len, 'store', a, b.x[1], gate(c, a.at(b.x[1]), b.x[2]))
        r = gate_pushes(c, a, b)
        if r is not None:
            return r
        if same(a, b):
            return a
        return Arr(ite(c, la, lb), 'map', lambda i: gate(c, arr_at(a, i), arr_at(b, i)))
    if isinstance(a, Seq) and isinstance(b, Seq) and a.at is b.at and a.n == b.n:
        return Seq(a.n, a.at, ite(c, a.pos, b.pos), a.tag, a.pred)
    if type(a) is type(b) and same(a, b):
        return a
    if isinstance(a, Opq) and a.tag == 'uninit':
        return b
    if isinstance(b, Opq) and b.tag == 'uninit':
        return a
    return Gate(c, a, b)


def gate_pushes(c, a, b):
    """one vector grown in two ways: what was added is gated, the part in common is not"""
    sa, sb = spine(a), spine(b)
    for i, (x, _) in enumerate(sa):
        for j, (y, _) in enumerate(sb):
            if x is y and i + j:
                ta, tb = tail_of(sa[:i]), tail_of(sb[:j])
                la, lb = arr_len(ta), arr_len(tb)
                n = ite(c, la, lb)
                if n.is_zero():
                    return x
                only = ta if lb.is_zero() else tb if la.is_zero() else None
                if only is not None:
                    t = Arr(n, 'map', lambda k: arr_at(only, k))
                else:
                    t = gate(c, ta, tb)
                return Arr(arr_len(x) + n, 'concat', x, t)
    return None


def spine(a):
    """[(vector, what it adds to the next one)]"""
    out = []
    while isinstance(a, Arr) and a.kind == 'concat' and len(out) < 8:
        out.append((a, a.x[1]))
        a = a.x[0]
    return out + [(a, None)]


def tail_of(ps):
    t = Tup([])
    for _, x in reversed(ps):
        t = x if arr_len(t).is_zero() else Arr(arr_len(t) + arr_len(x), 'concat', t, x)
    return t


def vsubst(v, s):
    """apply an alg.Subst to every number in a value"""
    if isinstance(v, P):
        return s.p(v)
    if isinstance(v, B):
        return s.b(v)
    if isinstance(v, Tup):
        return Tup([vsubst(x, s) for x in v.v])
    if isinstance(v, St):
        return St(v.path, v.var, v.vname, {k: vsubst(x, s) for k, x in v.f.items()})
    if isinstance(v, Gate):
        return gate(s.b(v.c), vsubst(v.a, s), vsubst(v.b, s))
    if isinstance(v, Arr):
        if v.kind == 'map' and len(v.x) > 1:
            # input array: its path may mention indices
            ln = s.p(v.len)
            nk = s.any(v.x[1])
            if nk == v.x[1] and ln == v.len:
                return v
            f = v.x[0]
            return Arr(ln, 'map', lambda i: vsubst(f(i), s), nk)
        if v.kind == 'map':
            f = v.x[0]
            return Arr(s.p(v.len), 'map', lambda i: vsubst2(f, i, s))
        if v.kind == 'store':
            return Arr(s.p(v.len), 'store', vsubst(v.x[0], s), s.p(v.x[1]), vsubst(v.x[2], s))
        if v.kind == 'concat':
            a, b = vsubst(v.x[0], s), vsubst(v.x[1], s)
            return Arr(s.p(v.len), 'concat', a, b)
        if v.kind == 'mapstore':
            base, kk, n, j, val = v.x
            return Arr(s.p(v.len), 'mapstore', vsubst(base, s), kk, s.p(n), s.p(j), vsubst(val, s))
    if isinstance(v, Ref):
        return Ref(v.root, tuple((p[0],) + tuple(s.any(x) for x in p[1:]) for p in v.path))
    if isinstance(v, Str):
        return Str([p if isinstance(p, str) else vsubst(p, s) for p in v.parts])
    if isinstance(v, Opq):
        return Opq(v.tag, tuple(vsubst(x, s) for x in v.deps))
    if isinstance(v, Seq):
        if s_trivial(s, v.pos) and s_trivial(s, v.n):
            return v
        return Seq(s.p(v.n), v.at, s.p(v.pos), v.tag, v.pred)
    if isinstance(v, Clo):
        return Clo(v.path, tuple(vsubst(x, s) for x in v.up))
    if isinstance(v, tuple):
        return tuple(vsubst(x, s) for x in v)
    if isinstance(v, SymEnum):
        return SymEnum(v.adt, v.base, s.any(v.path), v.args, v.crate)
    return v


def vsubst2(f, i, s):
    """(f under substitution s) at i: protect i from the substitution"""
    if not any(a in s.m for a in deep_atoms(i)):
        return vsubst(f(i), s)
    t = sym('prot#%d' % fresh(), 'int')
    r = vsubst(f(t), s)
    return vsubst(r, Subst({single(t): i}))


def s_trivial(s, p):
    return not any(a in s.m for a in deep_atoms(p))


_fresh = [0]


def fresh():
    _fresh[0] += 1
    return _fresh[0]


def gmap(v, f):
    if isinstance(v, Gate):
        return gate(v.c, gmap(v.a, f), gmap(v.b, f))
    return f(v)


# ------------------------------------------------------------------ events
class Ev:
    """one externally visible effect"""
    __slots__ = ('callee', 'args', 'pc', 'sp', 'kind', 'body', 'info', 'fn')

    def __init__(self, kind, callee, args, pc, sp, body=None, info=None, fn=None):
        self.kind, self.callee, self.args, self.pc, self.sp = kind, callee, args, pc, sp
        self.body = body
        self.info = info or {}
        self.fn = fn

    def __repr__(self):
        return '%s %s @%s' % (self.kind, self.callee, self.sp)


def ev_print(evs, ind=0, out=None, maxargs=160):
    out = out if out is not None else []
    for e in evs:
        pre = '  ' * ind
        pc = '' if e.pc is TRUE else ' IF %r' % (e.pc,)
        if e.kind == 'loop':
            out.append('%sLOOP trip=%s %s%s' % (pre, e.info.get('trip'), e.sp, pc))
            for ph in e.info.get('phis', ()):
                out.append('%s   phi %s: init=%s next=%s solved=%s' % (
                    pre, ph.name, repr(ph.init)[:100], repr(ph.next)[:200], ph.solved))
            ev_print(e.body, ind + 1, out, maxargs)
        elif e.body is not None:
            out.append('%s%s %s%s' % (pre, e.kind, e.callee, pc))
            ev_print(e.body, ind + 1, out, maxargs)
        else:
            out.append('%s%s %s(%s) %s%s' % (pre, e.kind, e.callee, ', '.join(repr(a)[:maxargs] for a in e.args), e.sp, pc))
    return out


class Phi:
    __slots__ = ('root', 'path', 'name', 'init', 'next', 'sym', 'solved', 'closed', 'kind', 'mark', 'symarr')

    def __repr__(self):
        return 'phi ' + self.name


class Giveup(Exception):
    pass


def rd(v, path):
    """project a value"""
    for p in path:
        v = rd1(v, p)
    return v


def rd1(v, p):
    k = p[0]
    if isinstance(v, Gate):
        if k == 'dc':
            # reading a payload: the discriminant was tested, other variants are impossible here
            if isinstance(v.a, St) and v.a.var is not None and v.a.var != p[1]:
                return rd1(v.b, p)
            if isinstance(v.b, St) and v.b.var is not None and v.b.var != p[1]:
                return rd1(v.a, p)
        return gate(v.c, rd1(v.a, p), rd1(v.b, p))
    if k == 'f':
        name = p[1]
        if isinstance(v, St):
            if name in v.f:
                return v.f[name]
            if v.var is not None:
                return Opq('badvariant', (v,))
            return Opq('nofield', (v, name))
        if isinstance(v, Tup):
            try:
                return v.v[int(name)]
            except (ValueError, IndexError):
                return Opq('nofield', (v, name))
        if isinstance(v, Clo):
            return v.up[int(name)]
        if isinstance(v, Ref):
            return v            # Box/Unique/NonNull layers
        if isinstance(v, Opq):
            return Opq('field', (v, name))
        return Opq('field', (v, name))
    if k == 'i':
        return arr_at(v, p[1])
    if k == 'sl':
        lo, n = p[1], p[2]
        if isinstance(v, Tup) and lo.is_const() and n.is_const():
            return Tup(v.v[int(lo.const()):int(lo.const() + n.const())])
        return Arr(n, 'map', lambda i: arr_at(v, lo + i))
    if k == 'dc':
        if isinstance(v, SymEnum):
            return v_variant(v, p[1], p[2])
        if isinstance(v, St) and v.var is not None and v.var != p[1]:
            return Opq('badvariant', (v,))
        return v
    if k == 'pos':
        return v.pos
    return Opq('proj', (v, str(p)))


V_VARIANT = None


def v_variant(v, idx, name):
    return V_VARIANT(v, idx, name)


def upd(v, path, new):
    """v with the component at path replaced"""
    if not path:
        return new
    p, rest = path[0], path[1:]
    k = p[0]
    if isinstance(v, Gate) and k != 'pos':
        return gate(v.c, upd(v.a, path, vnone(new)), upd(v.b, path, new))
    if k == 'f':
        name = p[1]
        if isinstance(v, St):
            f = dict(v.f)
            f[name] = upd(v.f.get(name, Opq('uninit')), rest, new)
            return St(v.path, v.var, v.vname, f)
        if isinstance(v, Tup):
            l = list(v.v)
            l[int(name)] = upd(l[int(name)], rest, new)
            return Tup(l)
        if isinstance(v, Clo):
            l = list(v.up)
            l[int(name)] = upd(l[int(name)], rest, new)
            return Clo(v.path, tuple(l))
        if isinstance(v, Opq) and v.tag == 'uninit':
            if name in ('value', 'uninit') or True:
                if name == 'value':
                    return upd(v, rest, new)
                return upd(St('?', None, '', {}), path, new)
        return Opq('upd', (v, new))
    if k == 'i':
        i = p[1]
        if isinstance(v, Tup):
            l = list(v.v)
            if i.is_const():
                j = int(i.const())
                if 0 <= j < len(l):
                    l[j] = upd(l[j], rest, new)
                    return Tup(l)
                return Opq('oobstore', (v,))
            return Tup([gate(eq(i, num(j)), upd(x, rest, new), x) for j, x in enumerate(l)])
        if isinstance(v, Arr):
            old = v.at(i) if rest else None
            nv = upd(old, rest, new) if rest else new
            if v.kind == 'store' and v.x[1] == i:
                return Arr(v.len, 'store', v.x[0], i, nv)
            return Arr(v.len, 'store', v, i, nv)
        return Opq('upd', (v, i, new))
    if k == 'dc':
        return upd(v, rest, new)
    if k == 'sl':
        lo, n = p[1], p[2]
        if rest and rest[0][0] == 'i':
            return upd(v, (('i', lo + rest[0][1]),) + tuple(rest[1:]), new)
        return Opq('upd', (v, new))
    if k == 'pos':
        return Seq(v.n, v.at, new, v.tag, v.pred)
    return Opq('upd', (v, new))


def vnone(x):
    return x


RNG_RE = re.compile(r'rand::|ThreadRng|rngs::')
PROGRESS_RE = re.compile(r'^indicatif::')


NAN = A(('fn', 'div0', (ZERO,)))        # zero divided by zero


def is0(p):
    return not p.d


def isnan(p):
    """certainly no number: the algebra would cancel it, or take zero times it for zero"""
    for i in p.atoms():
        t = alg.atom_of(i)
        if t[0] == 'fn' and (t[1:] == ('div0', (ZERO,)) or any(isinstance(x, P) and isnan(x) for x in t[2])):
            return True
    return False


class Interp:
    def __init__(self, prog, overrides=None, stops=(), models=None, facts=None, inline_depth=40):
        self.frames = {}
        self.prog = prog
        self.mem = {}
        self.ov = overrides or {}
        self.stops = stops            # regexes: functions kept as events
        self.models = models or {}
        self.events = []
        self.seq = 0
        self.loopk = []
        self.fid = 0
        self.depth = inline_depth
        self.stack = []
        self.heap = 0
        self.dest = None
        self.notes = []
        self.facts = facts or Facts()
        self.analysed = set()
        self.nblocks = 0
        self.escaped = []
        self.pc = TRUE
        self.realphi = set()
        self.diverged = False
        self.at = None
        self.checked = False          # record what must not fail (indices, differences of unsigned numbers) as events
        global V_VARIANT
        V_VARIANT = self.variant

    # ---------------------------------------------------------------- symbolic inputs
    def lookup_ov(self, dotted):
        for k, v in self.ov.items():
            if dotted == k or dotted.endswith('.' + k):
                return v
        return None

    def symval(self, crate, tyid, base, path):
        T = self.prog.files[crate]['types']
        t = T[tyid]
        dotted = base + ('.' if path else '') + '.'.join(x for x in path if isinstance(x, str))
        if not any(isinstance(x, P) for x in path):
            o = self.lookup_ov(dotted)
            if o is not None:
                return o
        k = t['k']
        s = t['s']
        if k == 'prim':
            if s in ('f64', 'f32'):
                return A(('sel', base, path, 'real'))
            if s == 'bool':
                return bvar(('b', base, path))
            if s in ('str',):
                return Str([Opq('strin', (base, path))])
            if s in INTS:
                a = A(('sel', base, path, 'int'))
                if s.startswith('u'):
                    BOUNDS.setdefault(single(a), [-a])
                return a
            return Opq('in', (base, path))
        if k == 'ref':
            r = ('P', base + ('.' if path else '') + pathshow(path))
            if r not in self.mem:
                self.mem[r] = self.symval(crate, t['ty'], base, path)
            return Ref(r)
        if k == 'tuple':
            return Tup([self.symval(crate, x, base, path + (str(i),)) for i, x in enumerate(t['tys'])])
        if k == 'array':
            if t['len'] is not None and t['len'] <= 8:
                return Tup([self.symval(crate, t['ty'], base, path + (num(i),)) for i in range(t['len'])])
            ln = num(t['len'])
            et = t['ty']
            return Arr(ln, 'map', lambda i: self.symval(crate, et, base, path + (i,)), ('in', base, path))
        if k == 'slice':
            return self.symarr(crate, t['ty'], base, path)
        if k == 'adt':
            ap = t['path']
            if ap == 'std::vec::Vec':
                o = self.lookup_ov(dotted + '.$fixed')
                if o is not None:
                    return Tup([self.symval(crate, t['args'][0], base, path + (num(i),)) for i in range(o)])
                return self.symarr(crate, t['args'][0], base, path)
            if ap == 'std::string::String':
                return Str([Opq('strin', (base, path))])
            if ap in ('std::option::Option', 'std::result::Result'):
                return SymEnum(ap, base, path, tuple(t['args']), crate)
            ad = self.prog.adts.get(ap)
            if ad and ad[0]['local']:
                a, ac = ad
                if a['kind'] == 'struct':
                    return St(ap, None, '', {f['name']: self.symval(ac, f['ty'], base, path + (f['name'],))
                                             for f in a['variants'][0]['fields']})
                if a['kind'] == 'enum':
                    return SymEnum(ap, base, path, tuple(t['args']), ac)
            if ap in ('std::boxed::Box', 'std::sync::Arc', 'std::rc::Rc'):
                r = ('P', base + '.' + pathshow(path))
                if r not in self.mem:
                    self.mem[r] = self.symval(crate, t['args'][0], base, path)
                return Ref(r)
            return Opq('in:' + ap, (base, path))
        return Opq('in', (base, path))

    def symarr(self, crate, et, base, path):
        dotted = base + ('.' if path else '') + '.'.join(x if isinstance(x, str) else '[]' for x in path)
        ln = self.lookup_ov(dotted + '.len')
        if ln is None:
            a = A(('sel', base, path + ('len',), 'int'))
            BOUNDS.setdefault(single(a), [-a])
            ln = a
        return Arr(ln, 'map', lambda i: self.symval(crate, et, base, path + (i,)), ('in', base, path, ln))

    def enum_variants(self, v):
        if v.adt == 'std::option::Option':
            return ['None', 'Some']
        if v.adt == 'std::result::Result':
            return ['Ok', 'Err']
        return [x['name'] for x in self.prog.adts[v.adt][0]['variants']]

    def variant(self, v, idx, name):
        """payload view of a symbolic enum under variant idx"""
        if v.adt in ('std::option::Option', 'std::result::Result'):
            if not v.args:
                return St(v.adt, idx, name, {'0': Opq('payload', (v, name))})
            ti = v.args[0] if name in ('Some', 'Ok') else (v.args[1] if len(v.args) > 1 else v.args[0])
            if name == 'None':
                return St(v.adt, idx, name, {})
            return St(v.adt, idx, name, {'0': self.symval(v.crate, ti, v.base, v.path + (name,))})
        a, ac = self.prog.adts[v.adt]
        var = a['variants'][idx]
        return St(v.adt, idx, name, {f['name']: (self.symval(ac, f['ty'], v.base, v.path + (name, f['name'])))
                                     for f in var['fields']})

    # ---------------------------------------------------------------- frames
    def new_frame(self):
        self.fid += 1
        return self.fid

    def call(self, fnobj, args, sp=None):
        """inline a local function; returns its value"""
        if len(self.stack) > self.depth or fnobj.path in self.stack and self.stack.count(fnobj.path) > 2:
            return Opq('depth', (fnobj.path,))
        fnobj.prep()
        self.analysed.add(fnobj.path)
        fr = Frame(fnobj, self.new_frame())
        self.frames[fr.id] = fr
        j = fnobj.j
        for i, a in enumerate(args):
            self.mem[('L', fr.id, i + 1)] = a
        self.stack.append(fnobj.path)
        saved_pc = self.pc
        ev0 = len(self.events)
        try:
            backs, exits, rets = self.region(fr, set(fnobj.rpo), 0, (TRUE, self.mem), None)
        finally:
            self.stack.pop()
            self.pc = saved_pc
        if saved_pc is not TRUE:
            for e in self.events[ev0:]:
                e.pc = band(saved_pc, e.pc)
        if not rets:
            self.diverged = True
            self.mem = {k: v for k, v in self.mem.items()}
            return Opq('diverges', (fnobj.path,))
        pc, mem = self.merge(rets)
        r = mem.get(('L', fr.id, 0), UNIT)
        # drop the frame, unless something still refers to it
        keep = {}
        fid = fr.id
        for k, v in mem.items():
            if k[0] == 'L' and k[1] == fid:
                continue
            keep[k] = v
        refs = set()
        collect_roots(r, refs)
        for rt in refs:
            if rt[0] == 'L' and rt[1] == fid and rt in mem:
                keep[rt] = mem[rt]
        self.mem = keep
        if fr.retpc is not None and False:
            pass
        return r

    def merge(self, states):
        """join gated states [(pc, mem)]"""
        if len(states) == 1:
            return states[0]
        tot = FALSE
        for pc, _ in states:
            tot = bor(tot, pc)
        # later states first as the default
        pc0, mem0 = states[-1]
        acc = mem0
        for pc, mem in reversed(states[:-1]):
            c = brestrict(pc, tot)
            out = {}
            for k, v in mem.items():
                w = acc.get(k)
                if w is None:
                    if k[0] != 'L':
                        out[k] = v
                    else:
                        out[k] = v
                elif w is v:
                    out[k] = v
                else:
                    out[k] = gate(c, v, w)
            for k, w in acc.items():
                if k not in mem:
                    out[k] = w
            acc = out
        return (tot, acc)

    def region(self, fr, blocks, entry, state, loophead):
        """evaluate an acyclic region (inner loops collapsed)"""
        f = fr.fn
        pend = {entry: [state]}
        backs, exits, rets = [], [], []
        inner = {h: b for h, b in f.loops.items() if h in blocks and h != loophead and b <= blocks}
        order = sorted((b for b in blocks if b in f.rpoi), key=lambda b: f.rpoi[b])
        # a loop that exits to a block earlier in rpo than its last block: order collapsed loops by header
        skip = set()
        for h, b in inner.items():
            skip |= (b - {h})
        ordr = topo(f, blocks, inner, skip, entry, loophead)
        for b in ordr:
            sts = pend.pop(b, None)
            if not sts:
                continue
            sts = [s for s in sts if s[0] is not FALSE]
            if not sts:
                continue
            pc, mem = self.merge(sts)
            if b in inner:
                outs = self.loop(fr, b, inner[b], pc, mem, rets)
            else:
                outs = self.block(fr, b, pc, mem, rets)
            for (t, p2, m2) in outs:
                if p2 is FALSE:
                    continue
                if t == loophead:
                    backs.append((p2, m2))
                elif t not in blocks:
                    exits.append((t, p2, m2))
                else:
                    pend.setdefault(t, []).append((p2, m2))
        return backs, exits, rets

    # ---------------------------------------------------------------- blocks
    def block(self, fr, b, pc, mem, rets):
        self.mem = mem = dict(mem)
        self.nblocks += 1
        blk = fr.fn.j['blocks'][b]
        self.pc = pc
        for st in blk['st']:
            k = st['s']
            if k == 'assign':
                self.at = st.get('sp')
                self.dest = st['p']
                v = self.rvalue(fr, st['r'])
                self.assign(fr, st['p'], v)
            elif k == 'dead':
                pass
        t = blk['term']
        k = t['t']
        if k == 'goto':
            return [(t['to'], pc, self.mem)]
        if k == 'switch':
            d = self.operand(fr, t['o'])
            outs = []
            if isinstance(d, Gate) or isinstance(d, Opq):
                d = self.opaque_num(d, 'int', 'switch')
            rest = pc
            for val, tgt in t['vals']:
                if isinstance(d, B):
                    c = bnot(d) if val == 0 else d
                elif isinstance(d, P):
                    c = eq(d, num(val))
                else:
                    c = bvar(('opqb', 'switch', fresh()))
                c2 = band(rest, c)
                outs.append((tgt, c2, self.mem))
                rest = band(rest, bnot(c))
            eb = fr.fn.j['blocks'][t['else']]
            if eb['term']['t'] == 'unreachable' and not eb['st']:
                # exhaustive: the last listed case is the remainder
                if outs:
                    tgt, c2, m2 = outs[-1]
                    outs[-1] = (tgt, bor(c2, rest), m2)
            else:
                outs.append((t['else'], rest, self.mem))
            # merge duplicated targets
            return outs
        if k == 'return':
            rets.append((pc, self.mem))
            return []
        if k == 'drop':
            self.drop(fr, t)
            return [(t['to'], pc, self.mem)]
        if k == 'assert':
            if self.checked and t['msg'] != 'ptr':
                c = self.operand(fr, t['o'])
                self.must(t['msg'], bnot(c) if t['exp'] else c, t['sp'], fr.fn.path) if isinstance(c, B) else \
                    self.must(t['msg'], bvar(('opqb', t['msg'], fresh())), t['sp'], fr.fn.path)
            return [(t['to'], pc, self.mem)]
        if k == 'call':
            self.diverged = False
            f = self.operand(fr, t['f'])
            args = [self.operand(fr, a) for a in t['args']]
            r = self.do_call(fr, f, args, t)
            if t['to'] is None:
                if self.checked:
                    self.must('panic', TRUE, t['sp'], fr.fn.path)
                return []
            if self.diverged:
                self.diverged = False
                return []
            if isinstance(r, (Opq, Gate)):
                r = self.coerce(fr, t['dest'], r)
            self.assign(fr, t['dest'], r)
            return [(t['to'], pc, self.mem)]
        return []

    def coerce(self, fr, dest, r):
        ty = self.place_ty(fr, dest)
        if ty and ty['k'] == 'prim':
            if ty['s'] in ('f64', 'f32'):
                return self.opaque_num(r, 'real', 'res')
            if ty['s'] in INTS:
                return self.opaque_num(r, 'int', 'res')
            if ty['s'] == 'bool':
                return self.opaque_bool(r)
        return r

    def drop(self, fr, t):
        ty = fr.fn.T[t['ty']]
        if ty['k'] == 'adt' and re.search(r'mpsc::Sender|JoinHandle|ThreadPool|fs::File|mpsc::Receiver|MultiProgress', ty['path']):
            v = self.read_place(fr, t['p'])
            self.emit(Ev('drop', ty['path'], [v], self.pc, fr.fn.j['sp'], fn=fr.fn.path))

    def emit(self, e):
        self.events.append(e)

    def must(self, what, fails, sp, path):
        if self.checked and fails is not FALSE:
            self.emit(Ev('must', what, [fails], self.pc, sp, fn=path))
        elif self.checked:
            self.emit(Ev('must', what, [FALSE], self.pc, sp, fn=path))

    # ---------------------------------------------------------------- places
    def lplace(self, fr, p):
        """place -> value denoting its location (Ref or Gate of Ref)"""
        r = Ref(('L', fr.id, p['l']))
        for e in p['p']:
            k = e[0]
            if k == 'deref':
                v = self.load(r)
                r = self.as_ref(v)
            else:
                step = self.step(fr, e)
                r = gmap(r, lambda x: ref_ext(x, step))
        return r

    def as_ref(self, v):
        if isinstance(v, (Ref, Gate)):
            return gmap(v, lambda x: x if isinstance(x, Ref) else self.spill(x))
        return self.spill(v)

    def spill(self, v):
        if isinstance(v, Ref):
            return v
        # deref of a non reference (opaque): give it a home
        root = ('O', canon(v) if isinstance(v, (Opq, SymEnum)) else fresh())
        if root not in self.mem:
            self.mem[root] = Opq('deref', (v,)) if isinstance(v, Opq) and v.tag not in TEXT else v
        return Ref(root)

    def step(self, fr, e):
        k = e[0]
        if k == 'f':
            return ('f', e[2])
        if k == 'i':
            v = self.mem.get(('L', fr.id, e[1]))
            if not isinstance(v, P):
                v = self.opaque_num(v, 'int', 'index')
            return ('i', v)
        if k == 'ci':
            if e[2]:
                return ('cend', e[1])
            return ('i', num(e[1]))
        if k == 'dc':
            return ('dc', e[1], e[2])
        if k == 'sub':
            if e[3]:
                return ('subend', e[1], e[2])
            return ('sl', num(e[1]), num(e[2] - e[1]))
        return ('other',)

    def load(self, r):
        if isinstance(r, Gate):
            return gate(r.c, self.load(r.a), self.load(r.b))
        v = self.mem.get(r.root)
        if v is None:
            return Opq('uninit')
        for p in r.path:
            if p[0] == 'cend':
                n = arr_len(v)
                p = ('i', n - p[1]) if n is not None else ('other',)
            elif p[0] == 'subend':
                n = arr_len(v)
                p = ('sl', num(p[1]), n - p[1] - p[2]) if n is not None else ('other',)
            v = rd1(v, p)
        return v

    def store(self, r, v, cond=TRUE):
        if isinstance(r, Gate):
            self.store(r.a, v, band(cond, r.c))
            self.store(r.b, v, band(cond, bnot(r.c)))
            return
        if not isinstance(r, Ref):
            return
        old = self.mem.get(r.root, Opq('uninit'))
        new = upd(old, r.path, v)
        self.mem[r.root] = gate(cond, new, old) if cond is not TRUE else new

    def read_place(self, fr, p):
        if not p['p']:
            v = self.mem.get(('L', fr.id, p['l']))
            return v if v is not None else Opq('uninit')
        return self.load(self.lplace(fr, p))

    def assign(self, fr, p, v):
        if not p['p']:
            self.mem[('L', fr.id, p['l'])] = v
            return
        self.store(self.lplace(fr, p), v)

    # ---------------------------------------------------------------- operands
    def operand(self, fr, o):
        if 'copy' in o:
            return self.read_place(fr, o['copy'])
        if 'move' in o:
            return self.read_place(fr, o['move'])
        if 'const' in o:
            return self.const(fr, o['const'])
        return Opq('operand')

    def const(self, fr, c):
        k = c['c']
        if k == 'fn':
            if 'tys' not in c and fr is not None:
                c['tys'] = [fr.fn.T[a]['s'] if isinstance(a, int) and a < len(fr.fn.T) else '' for a in c.get('args') or []]
            return FnV(c)
        if k == 'int':
            return num(c['v'])
        if k == 'float':
            return float_const(c['v'])
        if k == 'bool':
            return TRUE if c['v'] else FALSE
        if k == 'str':
            r = ('K', c['v'])
            self.mem.setdefault(r, Str([c['v']]))
            return Ref(r)
        if k == 'char':
            return Str([c['v']])
        if k == 'bytes':
            r = ('KB', tuple(c['v']))
            self.mem.setdefault(r, Opq('bytes', (tuple(c['v']),)))
            t = fr.fn.T[c['ty']]
            if t['k'] == 'ref':
                return Ref(r)
            return self.mem[r]
        if k == 'zst':
            t = fr.fn.T[c['ty']]
            if t['k'] == 'closure':
                return Clo(t['path'], ())
            return UNIT
        if k == 'promoted':
            r = ('PR', fr.fn.crate, c['of'], c['idx'])
            t = fr.fn.T[c['ty']]
            owner = self.prog.fns.get(c['of'])
            if owner is None:
                return Opq('promoted')
            key = r
            if key not in self.mem:
                pj = owner.j['promoted'][c['idx']]
                pf = Fn(dict(pj, path=c['of'] + '::promoted%d' % c['idx'], sp=owner.j['sp']), owner.crate, owner.T)
                m0 = self.mem
                sv = self.events
                v = self.call(pf, [])
                self.events = sv
                self.analysed.discard(pf.path)
                self.mem = dict(self.mem)
                # promoted bodies return a reference to their local or a value
                self.mem[key] = v
            v = self.mem[key]
            return v
        if k == 'static':
            r = ('S', c['path'])
            sf = self.prog.fns.get(c['path'])
            if r not in self.mem:
                if sf is not None:
                    v = self.call(sf, [])
                else:
                    v = Opq('static:' + c['path'])
                self.mem[r] = v
            return Ref(r)
        if c.get('name'):
            return Opq('const:' + c['name'])
        return Opq('const', (str(c.get('v')),))

    def opaque_num(self, v, kind, tag):
        """turn a non-numeric value into a number (gates pushed down where possible)"""
        if isinstance(v, P):
            return v
        if isinstance(v, Gate):
            return ite(v.c, self.opaque_num(v.a, kind, tag), self.opaque_num(v.b, kind, tag))
        if isinstance(v, B):
            return ite(v, ONE, ZERO)
        return A(('opq', tag, canon_p(v), kind))

    def opaque_bool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Gate):
            return bite(v.c, self.opaque_bool(v.a), self.opaque_bool(v.b))
        return bvar(('opqb', canon_p(v)))

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, fr, r):
        k = r['r']
        if k == 'use':
            return self.operand(fr, r['o'])
        if k == 'ref':
            p = r['p']
            # &*x is x
            return self.lplace(fr, p)
        if k == 'bin':
            a, b = self.operand(fr, r['a']), self.operand(fr, r['b'])
            return self.binop(fr, r['op'], a, b, self.op_ty(fr, r['a']) or r['op'] not in SHIFTS and self.op_ty(fr, r['b']) or self.dest_ty(fr, r['op']))
        if k == 'un':
            v = self.operand(fr, r['o'])
            if r['op'] == 'Neg':
                if isinstance(v, P):
                    return -v
                return -self.opaque_num(v, 'real', 'neg')
            if r['op'] == 'Not':
                if isinstance(v, B):
                    return bnot(v)
                if isinstance(v, P):
                    return A(('fn', 'bitnot', (v,)))
                return bnot(self.opaque_bool(v))
            if r['op'] == 'PtrMetadata':
                x = self.load(v) if isinstance(v, (Ref, Gate)) else v
                n = arr_len(x)
                if n is not None:
                    return n
                return self.opaque_num(Opq('len', (x,)), 'int', 'len')
            return Opq('un' + r['op'], (v,))
        if k == 'cast':
            return self.cast(fr, r)
        if k == 'discr':
            return self.discr(self.read_place(fr, r['p']))
        if k == 'agg':
            ops = [self.operand(fr, o) for o in r['ops']]
            a = r['agg']
            if a in ('array', 'tuple'):
                return Tup(ops)
            if a == 'adt':
                if r.get('active') is not None:
                    return ops[0]
                ad = r['path']
                en = self.is_enum(ad)
                return St(ad, r['variant'] if en else None, r['vname'] if en else '',
                          dict(zip(r['names'], ops)))
            if a == 'closure':
                return Clo(r['path'], tuple(ops))
            return Opq('agg', tuple(ops))
        if k == 'repeat':
            v = self.operand(fr, r['o'])
            n = r['n']
            if n is not None and int(n) <= 16:
                return Tup([v] * int(n))
            return Arr(num(int(n)) if n is not None else A(('sym', 'replen', 'int')), 'map', lambda i: v)
        return Opq('rv:' + str(r.get('v'))[:40])

    def is_enum(self, path):
        if path in ('std::option::Option', 'std::result::Result'):
            return True
        a = self.prog.adts.get(path)
        return bool(a and a[0]['kind'] == 'enum')

    def op_ty(self, fr, o):
        if 'const' in o:
            return fr.fn.T[o['const']['ty']]['s']
        p = o.get('copy') or o.get('move')
        t = self.place_ty(fr, p) if p else None
        return t['s'] if t and t['s'] in ('f64', 'f32', 'bool', 'char') + tuple(INTS) else None

    def dest_ty(self, fr, op):
        if self.dest is None or op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return None
        t = self.place_ty(fr, self.dest)
        return t['s'] if t else None

    def discr(self, v):
        if isinstance(v, Gate):
            return ite(v.c, self.discr(v.a), self.discr(v.b))
        if isinstance(v, St) and v.var is not None:
            return num(v.var)
        if isinstance(v, SymEnum):
            names = self.enum_variants(v)
            for nm in names[:-1]:
                bvar(('isv', v.base, v.path, nm))
            r = num(len(names) - 1)
            for i in range(len(names) - 2, -1, -1):
                r = ite(bvar(('isv', v.base, v.path, names[i])), num(i), r)
            return r
        if isinstance(v, Ref):
            return self.discr(self.load(v))
        return self.opaque_num(Opq('discr', (v,)), 'int', 'discr')

    def cast(self, fr, r):
        v = self.operand(fr, r['o'])
        kind = r['kind']
        ty = fr.fn.T[r['ty']]['s']
        if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'BoxDerefTransmute') or 'FnPtr' in kind:
            return v
        if kind == 'Transmute':
            if isinstance(v, (Ref,)) and ty in INTS:
                return Opq('addr', ())
            return v
        if kind in ('IntToInt', 'IntToFloat', 'FloatToFloat'):
            if isinstance(v, B):
                return ite(v, ONE, ZERO)
            if isinstance(v, Str) or isinstance(v, SymEnum) or isinstance(v, St):
                return self.discr(v) if isinstance(v, (SymEnum, St)) else self.opaque_num(v, 'int', 'cast')
            v = self.opaque_num(v, 'int' if kind == 'IntToInt' else 'real', 'cast')
            if kind == 'FloatToFloat' and ty == 'f32' and not (v.is_const() and v.const().denominator & (v.const().denominator - 1) == 0):
                return A(('fn', 'f32', (v,)))
            if kind == 'IntToInt' and ty in NARROW and v is not None:
                src = self.operand_type(fr, r['o'])
                if src == ty or src in NARROW and NARROW[src][0] < NARROW[ty][0] and not NARROW[src][1]:
                    return v
                return self.narrow('wrap', v, *NARROW[ty])
            if kind == 'IntToInt' and ty in ('u32', 'u64', 'usize') and below_zero(v):
                return self.narrow('wrap', v, 32 if ty == 'u32' else 64, False)
            return v
        if kind == 'FloatToInt':
            p = self.opaque_num(v, 'real', 'cast')
            p = ftou(p) if ty.startswith('u') else trunc(p)
            return self.narrow('sat', p, *NARROW[ty]) if ty in NARROW else p
        return Opq('cast:' + kind, (v,))

    def operand_type(self, fr, o):
        return self.op_ty(fr, o)

    def narrow(self, how, v, bits, signed):
        """conversion of an integer to a type of 8 or 16 bits"""
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)
        if v.is_const():
            c = int(v.const())
            if how == 'wrap':
                c = (c - lo) % 2 ** bits + lo
            return num(min(max(c, lo), hi))
        s = Simp(self.facts)
        # sizes and counts are far below the range of a word
        if s.b(lt0(v - num(lo))) is FALSE and (bits >= 32 or s.b(lt0(num(hi) - v)) is FALSE):
            return v
        return A(('fn', how, (v, num(bits), num(int(signed)))))

    def binop(self, fr, op, a, b, ty=None):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return self.compare(op, a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and (isinstance(a, B) or isinstance(b, B)):
            a, b = self.opaque_bool(a), self.opaque_bool(b)
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            return bite(a, bnot(b), b)
        if op == 'Offset':
            return Opq('offset', (a, b))
        isf = ty in ('f64', 'f32')
        kind = 'real' if isf else 'int'
        a, b = self.opaque_num(a, kind, 'arith'), self.opaque_num(b, kind, 'arith')
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if isf and (o == 'Div' and is0(a) and is0(b) or isnan(a) or isnan(b)):
            r = NAN
        elif o == 'Add':
            r = a + b
        elif o == 'Sub':
            r = a - b
        elif o == 'Mul':
            r = a * b
        elif o in ('Div', 'Rem') and not isf and ty and ty[0] == 'i' and ty != 'isize' and \
                Simp(self.facts).b(lt0(a)) is not FALSE:
            r = A(('fn', 'itdiv' if o == 'Div' else 'itrem', (a, b)))
        elif o == 'Div':
            r = a / b if isf else fn('idiv', a, b)
        elif o == 'Rem':
            r = fn('fmod', a, b) if isf else fn('imod', a, b)
        elif o in ('Shl', 'Shr') and b.is_const() and b.const() < 40:
            m = num(2 ** int(b.const()))
            r = a * m if o == 'Shl' else fn('idiv', a, m)
        elif o == 'BitAnd' and b.is_const() and b.const() == 1:
            r = fn('imod', a, num(2))
        elif o == 'BitAnd' and b.is_const() and b.const() > 0 and int(b.const() + 1) & int(b.const()) == 0:
            r = fn('imod', a, b + 1)
        elif o in BITOP and a.is_const() and b.is_const() and a.const() >= 0 and b.const() >= 0:
            r = num(neval.bitop(BITOP[o], int(a.const()), int(b.const())))
        elif o in BITOP:
            r = A(('fn', BITOP[o], (a, b)))
        else:
            r = A(('fn', 'op' + op, (a, b)))
        if self.checked and o in ('Add', 'Sub', 'Mul') and not isf:
            c = self.overflows(o, ty, a, b, r)
            if c is not None:
                self.must('overflow', c, self.at, fr.fn.path)
        if op.endswith('WithOverflow'):
            return Tup([r, FALSE])
        return r

    def overflows(self, o, ty, a, b, r):
        """sizes and counts are far below the range of their type: only differences below zero and narrow types overflow"""
        if not ty:
            return None
        if ty[0] == 'u' and o == 'Sub':
            return lt(a, b)
        if ty in ('u8', 'u16'):
            return lt(num(2 ** int(ty[1:]) - 1), r)
        if ty in ('i8', 'i16'):
            h = 2 ** (int(ty[1:]) - 1)
            return bor(lt(num(h - 1), r), lt(r, num(-h)))
        return None

    def compare(self, op, a, b):
        if isinstance(a, Gate):
            return bite(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
        if isinstance(b, Gate):
            return bite(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
        if isinstance(a, B) and isinstance(b, B):
            if op == 'Eq':
                return bite(a, b, bnot(b))
            if op == 'Ne':
                return bite(a, bnot(b), b)
            if op == 'Lt':
                return band(bnot(a), b)
            if op == 'Gt':
                return band(a, bnot(b))
            if op == 'Le':
                return bor(bnot(a), b)
            return bor(a, bnot(b))
        if isinstance(a, (Ref, Str, Opq, St, SymEnum)) or isinstance(b, (Ref, Str, Opq, St, SymEnum)):
            if isinstance(a, Opq) and isinstance(b, P):
                a = self.opaque_num(a, 'real', 'cmp')
            elif isinstance(b, Opq) and isinstance(a, P):
                b = self.opaque_num(b, 'real', 'cmp')
            else:
                if op in ('Eq', 'Ne') and canon(a) == canon(b):
                    return TRUE if op == 'Eq' else FALSE
                if op in ('Eq', 'Ne') and isinstance(a, Str) and isinstance(b, Str) and all(isinstance(q, str) for q in a.parts + b.parts):
                    return FALSE if op == 'Eq' else TRUE
                c = bvar(('opqb', 'Eq' if op in ('Eq', 'Ne') else op, canon_p(a), canon_p(b)))
                return bnot(c) if op == 'Ne' else c
        if not (isinstance(a, P) and isinstance(b, P)):
            return bvar(('opqb', op, canon_p(a), canon_p(b)))
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return bnot(eq(a, b))
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        return le(b, a)

    # ---------------------------------------------------------------- loops
    def loop(self, fr, h, body, pc, mem, rets):
        # 1. constant trip count: unroll
        snap = (self.seq, list(self.events), self.heap, self.fid)
        cur = mem
        ok = False
        evs = []
        for it in range(14):
            b, e, r = self.region(fr, body, h, (TRUE, cur), h)
            b = [x for x in b if x[0] is not FALSE]
            e = [x for x in e if x[1] is not FALSE]
            if not b and not r and len(e) >= 1:
                ok = True
                break
            if e or r or not b:
                break
            _, cur = self.merge(b)
        if ok:
            if pc is not TRUE:
                for x in self.events[len(snap[1]):]:
                    x.pc = band(pc, x.pc)
            return [(t, band(pc, p) if p is not TRUE else pc, m) for t, p, m in e]
        self.seq, evs, self.heap, self.fid = snap
        self.events = evs
        # 2. summarise
        return self.summarise(fr, h, body, pc, mem, rets)

    def summarise(self, fr, h, body, pc, mem0, rets):
        sp = fr.fn.j['blocks'][h]['term'].get('sp') or fr.fn.j['sp']

        def run(mem):
            return self.region(fr, body, h, (TRUE, mem), h)
        res = self.solve(mem0, run, None, sp, pc, '%s:%d' % (fr.fn.path, h))
        outs = []
        for t, p, m in res['exits']:
            outs.append((t, band(pc, p), m))
        for p, m in res['rets']:
            rets.append((band(pc, p), m))
        return outs

    def solve(self, mem0, run, trip, sp, pc, name):
        """fixpoint of a loop body. run(mem)->(backs, exits, rets). Returns exit states."""
        # structural position in the loop tree, so that two evaluations of one loop agree
        k = sym('idx%d@%s' % (len(self.loopk), name), 'int')
        ka = single(k)
        self.loopcount = getattr(self, 'loopcount', 0) + 1
        lid = self.loopcount
        phis = {}
        snap = (self.seq, self.heap, self.fid)
        outer = self.events
        BOUNDS[ka] = [-k] + ([k - trip + 1] if trip is not None else [])
        tripv = trip
        self.loopk.append(k)
        pc_out, self.pc = self.pc, TRUE
        final = None
        skip_arr = set()
        scat = {}
        frozen = set()
        for rnd in range(18):
            self.seq, self.heap, self.fid = snap
            self.events = []
            mem = dict(mem0)
            hyp = {}
            for key, ph in phis.items():
                if ph.closed is not None:
                    v = ph.closed(k)
                elif ph.kind == 'arr' and key not in skip_arr:
                    rec = []
                    v = hyp_arr(ph.init, rec)
                    hyp[key] = (rec, v)
                elif scat.get(key) is not None:
                    v = scat[key]
                else:
                    v = ph.sym
                mem[key[0]] = upd(mem[key[0]], key[1], v)
            header = dict(mem)
            backs, exits, rets = run(mem)
            backs = [x for x in backs if x[0] is not FALSE]
            exits = [x for x in exits if x[1] is not FALSE]
            final = (backs, exits, rets, header)
            if not backs:
                break
            _, nm = self.merge(backs)
            # new changes
            changed = False
            moving = {ka}
            for ph in phis.values():
                moving |= ph.mark
            for root, v0 in header.items():
                v1 = nm.get(root)
                if v1 is None or v1 is v0:
                    continue
                for path, a, b in diff(v0, v1, (), lambda i: not deep_atoms(i) & moving):
                    key = (root, path)
                    import models
                    if isinstance(a, Opq) and isinstance(b, Seq) and models.ext_of(a) is not None:
                        # a source read for the first time inside the loop
                        mem0 = dict(mem0)
                        mem0[root] = upd(mem0[root], path, models.ext_of(a))
                        changed = True
                        continue
                    if any(key[0] == r2 and key[1][:len(p2)] == p2 for (r2, p2) in phis):
                        continue
                    # absorb finer phis
                    for (r2, p2) in list(phis):
                        if r2 == root and p2[:len(path)] == path:
                            del phis[(r2, p2)]
                    phis[key] = self.mkphi(root, path, rd(mem0[root], path), lid, k, name)
                    changed = True
            if changed:
                continue
            # try to solve
            for key, ph in list(phis.items()):
                ph.next = rd(nm[key[0]], key[1])
                if ph.kind == 'num' and isinstance(ph.next, P) and is_int(ph.sym) and not is_int(ph.next):
                    # a float accumulator that starts at an integral constant
                    self.realphi.add(alg._atom[single(ph.sym)][1])
                    phis[key] = self.mkphi(ph.root, ph.path, ph.init, lid, k, name)
                    changed = True
            if changed:
                continue
            solved = False
            unsolved = [ph for q, ph in phis.items() if ph.closed is None and q not in frozen]
            bad = set()
            for ph in unsolved:
                bad |= ph.mark
            # trip count, once the exit test is known
            if trip is None:
                t = self.trip_of(exits, rets, k, bad)
                tripv = t
                BOUNDS[ka] = [-k] + ([k - t + 1] if t is not None else [])
            for key, ph in phis.items():
                if ph.closed is not None or key in frozen:
                    continue
                if scat.get(key) is not None and scat[key] is ph.symarr:
                    c = None
                elif scat.get(key) is not None:
                    c = self.solve_scatter(ph, scat[key], k, bad)
                else:
                    c = self.solve_phi(ph, key, k, bad, hyp.get(key), tripv)
                if c is not None:
                    ph.closed = c
                    ph.solved = True
                    solved = True
            if not solved:
                # recurrences without a closed form become opaque functions of the iteration
                fz = [key for key, ph in phis.items()
                      if ph.closed is None and ph.kind in ('num', 'bool') and key not in frozen]
                if fz and any(ph.closed is None and ph.kind not in ('num', 'bool') for ph in phis.values()):
                    frozen |= set(fz)
                    continue
                more = [key for key, ph in phis.items()
                        if ph.closed is None and ph.kind == 'arr' and key not in skip_arr]
                if not more:
                    left = [key for key in scat if scat[key] is not None and phis.get(key) is not None and phis[key].closed is None
                            and scat[key] is not phis[key].symarr]
                    if not left:
                        break
                    for key in left:
                        scat[key] = None
                        if phis[key].symarr is None:
                            scat[key] = self.symbolic_arr(phis[key])
                    continue
                skip_arr |= set(more)
                for key in more:
                    v = self.scatter_arr(phis[key]) or self.symbolic_arr(phis[key])
                    if v is not None:
                        scat[key] = v
        self.loopk.pop()
        self.pc = pc_out
        backs, exits, rets, header = final
        body_events = self.events
        self.events = outer
        ev = Ev('loop', name, [], pc, sp, body=body_events,
                info={'phis': list(phis.values()), 'k': k, 'trip': tripv, 'exits': exits, 'rets': rets,
                      'backs': backs, 'name': name, 'depth': len(self.loopk)})
        self.emit(ev)
        if tripv is None:
            n = A(('sym', 'trip@%s#%d' % (name, len(self.loopk)), 'int')) if not self.loopk else \
                A(('opq', 'trip@%s' % name, tuple(self.loopk), 'int'))
            BOUNDS[single(n)] = [-n]
            ev.info['tripsym'] = n
        else:
            n = tripv
            if self_nonneg(tripv) is not True:
                n = tripv      # ranges are assumed ordered; recorded as an assumption
        ev.info['n'] = n
        s = Subst({ka: n})
        outs = []
        base = header
        # what holds on every exit taken at iteration n
        for (t, p, m) in exits:
            m2 = {}
            for root, v in m.items():
                v0 = mem0.get(root)
                m2[root] = v if v is v0 else vsubst(v, s)
            p2 = s.b(p)
            if len(exits) == 1 and not rets:
                p2 = TRUE
            outs.append((t, p2, m2))
        routs = [(s.b(p), {root: (v if v is mem0.get(root) else vsubst(v, s)) for root, v in m.items()})
                 for p, m in rets]
        return {'exits': outs, 'rets': routs, 'ev': ev, 'n': n, 'header': header, 'k': k,
                'phis': phis, 'subst': s}

    def trip_of(self, exits, rets, k, bad):
        if len(exits) != 1 or rets:
            return None
        c = exits[0][1]
        ka = single(k)
        return self.trip_cond(c, ka, bad, 0)

    def trip_cond(self, c, ka, bad, depth):
        """first k for which c holds"""
        if c is TRUE or c is FALSE:
            return ZERO if c is TRUE and depth else None
        if not ((c.hi is TRUE and c.lo is FALSE) or (c.hi is FALSE and c.lo is TRUE)):
            # a condition which is the same in every iteration selects the bound
            if depth > 4:
                return None
            for v in sorted(alg.bsupport(c)):
                if ka in batom_deep(v) or batom_deep(v) & bad:
                    continue
                x = self.trip_cond(alg.bcof(c, v, True), ka, bad, depth + 1)
                y = self.trip_cond(alg.bcof(c, v, False), ka, bad, depth + 1)
                if x is None or y is None:
                    return None
                return ite(alg.node(v, TRUE, FALSE), x, y)
            return None
        if batom_deep(c.v) & bad:
            return None
        t = alg._batom[c.v]
        pos = c.hi is TRUE
        if t[0] == 'lt0' and is_int(t[1]):
            p = t[1]
            a = p.d.get(((ka, 1),))
            rest = P({m: x for m, x in p.d.items() if m != ((ka, 1),)})
            if a is None or ka in deep_atoms(rest):
                return None
            if not pos and a > 0:
                # continue while a*k + rest < 0  => trip = ceil(-rest/a)
                if a == 1:
                    return -rest
                return fn('idiv', -rest + (a - 1), num(a)) if True else None
            if pos and a < 0:
                # exit when -a'k + rest < 0, continue while a'k <= rest  => trip = floor(rest/a')+1
                if a == -1:
                    return rest + 1
                return fn('idiv', rest, num(-a)) + 1
            return None
        if t[0] == 'eq0' and pos:
            p = t[1]
            a = p.d.get(((ka, 1),))
            rest = P({m: x for m, x in p.d.items() if m != ((ka, 1),)})
            if a is not None and abs(a) == 1 and ka not in deep_atoms(rest):
                return rest.scale(-1 / a)
        return None

    def mkphi(self, root, path, init, lid, k, name):
        ph = Phi()
        ph.root, ph.path, ph.init = root, path, init
        ph.next = None
        ph.solved = False
        ph.closed = None
        ph.name = '%s%s' % (root, ''.join('.' + str(p[1]) if len(p) > 1 else '.' + p[0] for p in path))
        nm = 'phi:%s:%s:%s' % (name, root[-1], ph.name.split(')', 1)[-1])
        kk = tuple(self.loopk)
        ph.symarr = None
        if isinstance(init, P):
            ph.kind = 'num'
            ph.sym = A(('opq', nm, kk, 'int' if is_int(init) and nm not in self.realphi else 'real'))
            ph.mark = {single(ph.sym)}
        elif isinstance(init, B):
            ph.kind = 'bool'
            mk_ = A(('opq', nm, kk, 'int'))
            ph.sym = bvar(('opqb', nm, mk_))
            ph.mark = {single(mk_)}
        elif isinstance(init, (Arr, Tup)):
            ph.kind = 'arr'
            ph.sym = Opq(nm, kk)
            ph.mark = {('opq', nm)}
        elif isinstance(init, Str):
            ph.kind = 'str'
            ph.sym = Str([Opq(nm, kk)])
            ph.mark = {('opq', nm)}
        else:
            ph.kind = 'other'
            ph.sym = Opq(nm, kk)
            ph.mark = {('opq', nm)}
        return ph

    def solve_phi(self, ph, key, k, bad, hyp, trip):
        nx = ph.next
        init = ph.init
        ka = single(k)
        if ph.kind == 'num':
            if not isinstance(nx, P):
                return None
            me = ph.sym
            ma = single(me)
            if nx == me:
                return lambda kk: init
            d = minus_phi(nx, ma)
            if d is not None and not (deep_atoms(d) & bad):
                if ka not in deep_atoms(d):
                    return lambda kk: init + d * kk

                def closed(kk):
                    j = sym('sumvar%d' % fresh(), 'int')
                    return init + mk_sum(subst(d, {ka: j}), j, kk)
                return closed
            if not (deep_atoms(nx) & bad):
                return lambda kk: ite(eq(kk, ZERO), init, Subst({ka: kk - 1}).p(nx))
            return None
        if ph.kind == 'bool':
            if not isinstance(nx, B):
                return None
            if nx is ph.sym:
                return lambda kk: init
            if not (any_deep(nx) & bad) and not (bsupport(nx) & bsupport(ph.sym)):
                return lambda kk: bite(eq(kk, ZERO), init, Subst({ka: kk - 1}).b(nx))
            return None
        if ph.kind == 'arr':
            if hyp is not None:
                rec, ha = hyp
                r = self.solve_arr(ph, nx, ha, rec, k, bad, trip)
                if r is not None:
                    return r
            elif not depends(nx, ph.sym) and not (any_deep_v(nx) & bad):
                return lambda kk: gate(eq(kk, ZERO), init, vsubst(nx, Subst({ka: kk - 1})))
            return None
        if ph.kind == 'str' and isinstance(nx, Str) and nx.parts and nx.parts[0] is ph.sym.parts[0]:
            rest = Str(nx.parts[1:])
            if not (any_deep_v(rest) & bad):
                d = 0
                used = {alg._atom[a][1] for a in any_deep_v(rest) if isinstance(a, int) and alg._atom[a][0] == 'sym'}
                while 'rep#%d' % d in used:
                    d += 1
                body = vsubst(rest, Subst({ka: sym('rep#%d' % d, 'int')}))
                return lambda kk: Str([init, Opq('rep', (num(d), kk, body))])
        # other kinds: value recomputed from scratch each iteration
        if not depends(nx, ph.sym) and not (any_deep_v(nx) & bad):
            return lambda kk: gate(eq(kk, ZERO), init, vsubst(nx, Subst({ka: kk - 1})))
        return None

    def scatter_arr(self, ph):
        """header value of an array of numbers whose elements are accumulated at computed positions"""
        ln = arr_len(ph.init)
        if ln is None or isinstance(ph.init, Tup):
            return None
        try:
            e = arr_at(ph.init, sym('scprobe', 'int'))
        except Exception:
            return None
        if not numeric(e):
            return None
        m = sym('mark:' + ph.sym.tag, 'int')
        ph.mark = ph.mark | {single(m)}
        nm = ph.sym.tag + ':el'

        def make(e, i, ix):
            if isinstance(e, P):
                return A(('opq', nm, (m, i) + ix, 'real'))
            if isinstance(e, Tup):
                return Tup([make(x, i, ix + (num(c),)) for c, x in enumerate(e.v)])
            return St(e.path, e.var, e.vname, {q: make(x, i, ix + (num(c),)) for c, (q, x) in enumerate(e.f.items())})
        return Arr(ln, 'map', lambda i: make(e, i, ()))

    def symbolic_arr(self, ph):
        """header value of a vector without closed form: unknown length and elements, so that at least its next value is an expression in them"""
        if ph.path or ph.root[0] != 'L' or ph.root[1] not in self.frames:
            return None
        fr = self.frames[ph.root[1]]
        T = fr.fn.T
        l = fr.fn.j['locals'][ph.root[2]]
        m = sym('mark:' + ph.sym.tag, 'int')
        nm, kk = ph.sym.tag, tuple(self.loopk) + (m,)

        def make(ty, ix):
            s = ty['s']
            if s in ('f64', 'f32'):
                return A(('opq', nm + ':el', kk + ix, 'real'))
            if s in INTS:
                return A(('opq', nm + ':el', kk + ix, 'int'))
            if ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec':
                n = A(('opq', nm + ':len', kk + ix, 'int'))
                BOUNDS.setdefault(single(n), [-n])
                et = T[ty['args'][0]]
                return Arr(n, 'map', lambda i: make(et, ix + (i,)))
            if ty['k'] == 'array' and ty['len'] and ty['len'] <= 8:
                return Tup([make(T[ty['ty']], ix + (num(i),)) for i in range(ty['len'])])
            return Opq(nm + ':el', kk + ix)
        v = make(T[l], ())
        if not isinstance(v, Arr):
            return None
        ph.mark = ph.mark | {single(m)}
        ph.symarr = v
        return v

    def solve_scatter(self, ph, ha, k, bad):
        """acc[i(k)] += d(k) in every iteration"""
        nx = ph.next
        if not (isinstance(nx, Arr) and nx.kind == 'store' and nx.x[0] is ha):
            return None
        i, v = nx.x[1], nx.x[2]
        if not isinstance(i, P) or deep_atoms(i) & bad:
            return None
        init, ka = ph.init, single(k)

        def parts(a, b, f):
            if isinstance(a, P):
                return f(a, b) if isinstance(b, P) else None
            if isinstance(a, Tup):
                r = [parts(x, y, f) for x, y in zip(a.v, b.v)] if isinstance(b, Tup) and len(a.v) == len(b.v) else [None]
                return Tup(r) if all(x is not None for x in r) else None
            if isinstance(a, St) and isinstance(b, St) and a.f.keys() == b.f.keys():
                r = {q: parts(x, b.f[q], f) for q, x in a.f.items()}
                return St(a.path, a.var, a.vname, r) if all(x is not None for x in r.values()) else None
            return None

        def gain(me, v):
            d = minus_phi(v, single(me))
            return None if d is None or deep_atoms(d) & bad else d
        me = ha.at(i)
        d = parts(me, v, gain)
        if d is None:
            return None

        def closed(kk):
            def f(x):
                j = sym('sumvar%d' % fresh(), 'int')
                return parts(arr_at(init, x), d, lambda a, d: a + mk_sum(subst(ite(eq(i, x), d, ZERO), {ka: j}), j, kk))
            return Arr(arr_len(init), 'map', f)
        return closed

    def some_pushed(self, init, c, el, ka):
        """vector that got an element in those iterations in which c holds"""
        d = 0
        names = {alg._atom[a][1] for a in any_deep(c) if alg._atom[a][0] == 'sym'}
        while 'nth#%d' % d in names:
            d += 1
        kd = sym('nth#%d' % d, 'int')
        BOUNDS.setdefault(single(kd), [-kd])
        cn = Subst({ka: kd}).b(c)

        def closed(kk):
            n = A(('opq', 'nfilt', (cn, kk), 'int'))
            BOUNDS.setdefault(single(n), [-n])

            def f(i):
                x = A(('opq', 'nth', (cn, i), 'int'))
                BOUNDS.setdefault(single(x), [-x])
                return vsubst(el, Subst({ka: x}))
            mp = Arr(n, 'map', f)
            if arr_len(init).is_zero():
                return mp
            return Arr(arr_len(init) + n, 'concat', init, mp)
        return closed

    def solve_arr(self, ph, nx, ha, rec, k, bad, trip):
        ka = single(k)
        init = ph.init
        # pushes
        if isinstance(nx, Arr) and nx.kind == 'concat' and nx.x[0] is ha:
            tail = nx.x[1]
            n = arr_len(tail)
            if n is None or rec:
                return None
            if not n.is_const():
                # pushes of some of the elements
                c = lt(ZERO, n)
                el = arr_at(tail, ZERO)
                if ite(c, ONE, ZERO) == n and ka in any_deep(c) and not any_deep_v(el) & bad and not (any_deep(c) | bsupport(c)) & bad:
                    return self.some_pushed(init, c, el, ka)
                return None
            m = int(n.const())
            els = [arr_at(tail, num(i)) for i in range(m)]
            if any(any_deep_v(e) & bad for e in els):
                return None
            il = arr_len(init)

            def closed(kk):
                def f(i):
                    if m == 1:
                        return vsubst(els[0], Subst({ka: i}))
                    q, r_ = fn('idiv', i, num(m)), fn('imod', i, num(m))
                    out = els[-1]
                    for x in range(m - 2, -1, -1):
                        out = gate(eq(r_, num(x)), els[x], out)
                    return vsubst(out, Subst({ka: q}))
                mp = Arr(kk * m, 'map', f)
                if il.is_zero():
                    return mp
                return Arr(il + kk * m, 'concat', init, mp)
            return closed
        # stores
        stores = []
        x = nx
        while isinstance(x, Arr) and x.kind == 'store':
            stores.append((x.x[1], x.x[2]))
            x = x.x[0]
        if x is not ha or not stores:
            return None
        stores.reverse()
        if any((deep_atoms(i) | any_deep_v(v)) & bad for i, v in stores):
            return None
        j2 = sym('hypj%d' % fresh(), 'int')
        for (i, v) in stores:
            a = i.d.get(((ka, 1),))
            rest = P({m: c for m, c in i.d.items() if m != ((ka, 1),)})
            if a is None or ka in deep_atoms(rest) or a.denominator != 1:
                return None
        # distinct stores within the loop must not collide across iterations
        BOUNDS[single(j2)] = [-j2, j2 - k + 1]
        fct = self.facts
        for (i, v) in stores:
            for (i2, v2) in stores:
                if i is i2:
                    continue
                if fct.feasible([], [subst(i2, {ka: j2}) - i]):
                    return None
        for e in rec:
            for (i, v) in stores:
                if fct.feasible([], [subst(i, {ka: j2}) - e]):
                    return None

        def closed(kk):
            out = init if isinstance(init, Arr) else Arr(arr_len(init), 'map', lambda i: arr_at(init, i))
            for (i, v) in stores:
                kv = sym('msk%d' % fresh(), 'int')
                s = Subst({ka: kv})
                out = Arr(out.len, 'mapstore', out, kv, kk, s.p(i), vsubst(v, s))
            return out
        return closed

    # ---------------------------------------------------------------- iterating sequences
    def drain(self, seq, acc, step, sp, name):
        """fold over the remaining elements: step(acc, elem) -> acc"""
        n = seq.n - seq.pos
        p0 = seq.pos
        n = Simp(self.facts).p(n)
        if n.is_const() and n.const() <= 16 and seq.pred is None:
            for i in range(int(n.const())):
                e = seq.at(self, p0 + i)
                acc = step(acc, e)
            return acc
        root = ('ACC', len(self.loopk), name)
        mem0 = dict(self.mem)
        mem0[root] = acc

        def run(mem):
            self.mem = dict(mem)
            k = self.loopk[-1]
            e = seq.at(self, p0 + k)
            a0 = self.mem[root]
            if seq.pred is not None:
                g = seq.pred(self, p0 + k, e)
                m_before = dict(self.mem)
                a1 = step(a0, e)
                self.mem[root] = a1
                m_after = self.mem
                self.mem = {q: (w if m_before.get(q) is w else gate(g, w, m_before[q]) if q in m_before else w)
                            for q, w in m_after.items()}
            else:
                a1 = step(a0, e)
                self.mem[root] = a1
            m = {q: w for q, w in self.mem.items()}
            return [(TRUE, m)], [(0, TRUE, dict(mem))], []
        res = self.solve(mem0, run, n, sp, self.pc, name)
        # state after the loop: header state at k = n
        hdr = res['header']
        s = res['subst']
        m2 = {}
        for r_, v in hdr.items():
            m2[r_] = v if v is mem0.get(r_) else vsubst(v, s)
        # memory created inside (heap) is dropped
        out = m2.pop(root)
        self.mem = m2
        ev = res['ev']
        if not ev.body:
            # no effects inside: not worth an effect node
            if self.events and self.events[-1] is ev:
                self.events.pop()
        return out

    def collect(self, seq, sp, name):
        if isinstance(seq, Gate):
            return gate(seq.c, self.collect(seq.a, sp, name), self.collect(seq.b, sp, name))
        n = Simp(self.facts).p(seq.n - seq.pos)
        p0 = seq.pos
        if seq.pred is None:
            # pure mapping?
            k = sym('probe', 'int')
            BOUNDS[single(k)] = [-k, k - n + 1]
            before = dict(self.mem)
            sq, ev, hp, fi = self.seq, list(self.events), self.heap, self.fid
            self.loopk.append(k)
            e = seq.at(self, p0 + k)
            self.loopk.pop()
            pure = self.seq == sq and len(self.events) == len(ev) and \
                all(self.mem.get(r) is v for r, v in before.items())
            after = self.mem
            self.mem = before
            self.seq, self.events, self.heap, self.fid = sq, ev, hp, fi
            if pure:
                # keep any promoted constants
                for r_, v in after.items():
                    if r_ not in self.mem and r_[0] in ('K', 'PR', 'KB', 'P', 'S'):
                        self.mem[r_] = v
                if n.is_const() and n.const() <= 16:
                    return Tup([seq.at(self, p0 + i) for i in range(int(n.const()))])
                frozen = dict(self.mem)

                def f(i, e=e, k=k):
                    return vsubst(e, Subst({single(k): i}))
                return Arr(n, 'map', f)
        r = self.drain(seq, Tup(()), lambda acc, e: push(acc, e), sp, name)
        return r

    # ---------------------------------------------------------------- calls
    def do_call(self, fr, f, args, t):
        sp = t['sp']
        if isinstance(f, Gate):
            return self.either(f, lambda g: self.do_call(fr, g, args, t))
        if not isinstance(f, FnV):
            if isinstance(f, Clo):
                return self.call_closure(f, args)
            return self.unknown('indirect', args, fr, t)
        path = f.j.get('path')
        res = f.j.get('res') or path
        return self.dispatch(fr, path, res, f.j, args, t)

    def dispatch(self, fr, path, res, j, args, t):
        for name in (res, path):
            for rx in self.stops:
                if re.search(rx, name):
                    return self.unknown(name, args, fr, t)
        m = self.models.get(res) or self.models.get(path)
        if m:
            return m(self, fr, path, j, args, t)
        target = self.prog.find(res)
        if target is not None and target.j['kind'] != 'Static' and not target.j['derived'] and (target.j['kind'] in ('Fn', 'AssocFn', 'Closure')):
            if target.j['kind'] == 'Closure' and len(args) == 2 and isinstance(args[1], Tup) and re.search(r'::Fn(Mut|Once)?::call(_mut|_once)?$', path):
                args = [args[0]] + list(args[1].v)
            return self.call(target, args, t['sp'])
        if target is None and len(args) == 2 and isinstance(args[1], Tup) and re.search(r'::Fn(Mut|Once)?::call(_mut|_once)?$', path):
            # a function passed to a generic one
            f = args[0]
            while isinstance(f, Ref) and isinstance(self.load(f), (Ref, FnV, Gate)):
                f = self.load(f)
            if isinstance(f, (Clo, FnV, Gate)) or isinstance(f, Ref) and isinstance(self.load(f), Clo):
                return self.call_value(f, list(args[1].v), t)
        import models
        r = models.model(self, fr, path, res, j, args, t)
        if r is not NotImplemented:
            return r
        return self.unknown(res, args, fr, t)

    def call_value(self, f, args, t=None):
        """call a closure or function value with a list of arguments"""
        if isinstance(f, Ref):
            f2 = self.load(f)
            if isinstance(f2, (Clo, FnV, Gate, Ref)):
                if isinstance(f2, Clo):
                    return self.call_closure(f2, args, f)
                f = f2
                if isinstance(f, Ref):
                    return self.call_value(f, args, t)
        if isinstance(f, Gate):
            return self.either(f, lambda g: self.call_value(g, args, t))
        if isinstance(f, Clo):
            return self.call_closure(f, args)
        if isinstance(f, FnV):
            tt = t or {'sp': ['?', 0], 'dest': None}
            return self.dispatch(None, f.j.get('path'), f.j.get('res') or f.j.get('path'), f.j, args, tt)
        if t is not None and 'sp' in t:
            return self.unknown('indirect', args, None, t)
        return Opq('callvalue', (f,))

    def either(self, f, call):
        """one of two functions is called"""
        d0, pc, before = self.diverged, self.pc, dict(self.mem)
        out = []
        for c, g in ((f.c, f.a), (bnot(f.c), f.b)):
            self.pc, self.mem, self.diverged = band(pc, c), dict(before), d0
            r = call(g)
            if not self.diverged:
                out.append((c, r, self.mem))
        self.pc, self.diverged = pc, not out
        if not out:
            return Opq('never')
        self.mem = out[0][2]
        if len(out) == 1:
            return out[0][1]
        _, self.mem = self.merge([(c, m) for c, _, m in out])
        return gate(f.c, out[0][1], out[1][1])

    def call_closure(self, clo, args, selfref=None):
        target = self.prog.find(clo.path)
        if target is None:
            return Opq('noclosure', (clo.path,))
        # closure self argument: by reference for Fn/FnMut bodies, by value for FnOnce ones
        t = target.T[target.j['locals'][1]]
        created = None
        if t['k'] == 'ref':
            if selfref is None:
                root = ('CL', id(clo))
                self.mem[root] = clo
                created = root
                selfv = Ref(root)
            else:
                selfv = selfref
        else:
            selfv = clo
        n = target.j['argc']
        return self.call(target, [selfv] + list(args))

    def unknown(self, name, args, fr, t):
        """effect: recorded, result opaque, mutable referents forgotten"""
        self.seq += 1
        sp = t['sp']
        vals = [self.snapshot(a) for a in args]
        e = Ev('call', name, vals, self.pc, sp, info={'raw': list(args), 'seq': self.seq, 'mem': self.mem, 'k': list(self.loopk)},
               fn=self.stack[-1] if self.stack else None)
        self.emit(e)
        # havoc through mutable references
        if fr is not None and 'args' in t:
            for a, o in zip(args, t['args']):
                ty = self.op_type(fr, o)
                if ty and ty['k'] == 'ref' and ty['mut']:
                    self.havoc(a, fr.fn.T, ty, name)
        import models
        models.perhaps(self, name, args, t)
        ret = None
        if fr is not None and t.get('dest') is not None:
            ret = self.place_ty(fr, t['dest'])
        r = self.opaque_of(fr, ret, name, vals)
        e.info['ret'] = r
        return r

    def opaque_ty(self, ty, name, key):
        s = ty['s']
        if s in ('f64', 'f32'):
            return A(('opq', name, key, 'real'))
        if s in INTS:
            return A(('opq', name, key, 'int'))
        if s == 'bool':
            return bvar(('opqb', name, key))
        return Opq(name, (('seq',) + tuple(key),))

    def opaque_of(self, fr, ty, name, vals):
        s = ty['s'] if ty else ''
        key = (name, self.seq) + tuple(self.loopk)
        if s in ('f64', 'f32'):
            return A(('opq', 'call:' + name, key, 'real'))
        if s in INTS:
            return A(('opq', 'call:' + name, key, 'int'))
        if s == 'bool':
            return bvar(('opqb', 'call:' + name, key))
        if s == '()':
            return UNIT
        if ty and ty['k'] == 'array' and ty['len'] and ty['len'] <= 8:
            et = fr.fn.T[ty['ty']]
            return Tup([self.opaque_el(fr, et, name, key, i) for i in range(ty['len'])])
        return Opq('call:' + name, tuple(vals) + (('seq', self.seq) + tuple(self.loopk),))

    def opaque_el(self, fr, et, name, key, i):
        if et['s'] in ('f64', 'f32'):
            return A(('opq', 'call:' + name, key + (i,), 'real'))
        return Opq('call:' + name, key + (i,))

    def havoc(self, a, T, ty, name):
        def hv(r):
            if isinstance(r, Ref):
                it = T[ty['ty']]
                if it['s'] in ('f64', 'f32'):
                    v = A(('opq', 'havoc:' + name, (self.seq,) + tuple(self.loopk), 'real'))
                elif it['s'] in INTS:
                    v = A(('opq', 'havoc:' + name, (self.seq,) + tuple(self.loopk), 'int'))
                elif it['s'] == 'bool':
                    v = bvar(('opqb', 'havoc:' + name, (self.seq,) + tuple(self.loopk)))
                else:
                    old = self.load(r)
                    v = self.havoc_val(old, name, ())
                self.store(r, v)
            return r
        gmap(a, hv)

    def havoc_val(self, old, name, path):
        tag = ('havoc:' + name, self.seq) + tuple(self.loopk)
        if isinstance(old, P):
            return A(('opq', 'havoc:' + name, (self.seq,) + tuple(self.loopk) + path, 'int' if is_int(old) else 'real'))
        if isinstance(old, B):
            return bvar(('opqb', 'havoc:' + name, (self.seq,) + tuple(self.loopk) + path))
        if isinstance(old, St) and old.var is None:
            return St(old.path, None, '', {k: self.havoc_val(x, name, path + (k,)) for k, x in old.f.items()})
        if isinstance(old, Tup):
            return Tup([self.havoc_val(x, name, path + (str(i),)) for i, x in enumerate(old.v)])
        if isinstance(old, Arr):
            def f(i):
                return self.havoc_val(old.at(i), name, path + (i,))
            tagk = (self.seq,) + tuple(self.loopk) + path
            hid = fresh()
            sq, lk = self.seq, list(self.loopk)
            # lazily havocked elements keep the sequence number of this call
            me = self

            def g(i):
                s2, l2 = me.seq, me.loopk
                me.seq, me.loopk = sq, lk
                try:
                    return me.havoc_val(old.at(i), name, path + (i,))
                finally:
                    me.seq, me.loopk = s2, l2
            return Arr(old.len, 'map', g)
        return Opq('havoc:' + name, (('seq', self.seq) + tuple(self.loopk) + path,))

    def op_type(self, fr, o):
        if 'const' in o:
            return fr.fn.T[o['const']['ty']]
        p = o.get('copy') or o.get('move')
        if p is None:
            return None
        return self.place_ty(fr, p)

    def place_ty(self, fr, p):
        T = fr.fn.T
        t = T[fr.fn.j['locals'][p['l']]]
        for e in p['p']:
            if t is None:
                return None
            k = e[0]
            if k == 'deref':
                if t['k'] in ('ref', 'ptr'):
                    t = T[t['ty']]
                else:
                    return None
            elif k == 'f':
                if t['k'] == 'tuple':
                    t = T[t['tys'][e[1]]]
                elif t['k'] == 'adt':
                    ad = self.prog.adts.get(t['path'])
                    if ad and ad[0]['local'] and ad[1] == fr.fn.crate and ad[0]['kind'] == 'struct':
                        t = T[ad[0]['variants'][0]['fields'][e[1]]['ty']]
                    else:
                        return None
                else:
                    return None
            elif k in ('i', 'ci'):
                if t['k'] in ('array', 'slice'):
                    t = T[t['ty']]
                else:
                    return None
            else:
                return None
        return t

    def snapshot(self, v, depth=0):
        """value with references replaced by what they point to (for effect arguments)"""
        if depth > 4:
            return v
        if isinstance(v, Ref):
            x = self.load(v)
            if isinstance(x, Opq) and x.tag == 'uninit':
                return v
            return self.snapshot(x, depth + 1)
        if isinstance(v, Gate):
            return gate(v.c, self.snapshot(v.a, depth), self.snapshot(v.b, depth))
        if isinstance(v, Tup):
            return Tup([self.snapshot(x, depth + 1) for x in v.v])
        return v

    # ---------------------------------------------------------------- entry
    def run(self, path, args=None, base='self', names=()):
        f = self.prog.find(path)
        if f is None:
            raise KeyError(path)
        if args is None:
            args = []
            # parameters are named by the rule or, for a configuration, by their type: their names in the
            # source are of no consequence
            names = dict(enumerate(names, 1))
            for i in range(1, f.j['argc'] + 1):
                ty = f.T[f.j['locals'][i]]
                if ty['k'] == 'ref':
                    ty = f.T[ty['ty']]
                if ty['k'] == 'adt' and ty['path'] == 'sc::config::Config':
                    names.setdefault(i, 'conf')
            given = set(names)
            for n, p in f.j['dbg']:
                if not p['p'] and 1 <= p['l'] <= f.j['argc'] and p['l'] not in given:
                    names[p['l']] = n
            for i in range(1, f.j['argc'] + 1):
                args.append(self.symval(f.crate, f.j['locals'][i], 'a%d' % i if i not in names else names[i], ()))
        self.ret = self.call(f, args)
        return self.ret


TEXT = ('token', 'wtoken', 'line', 'recv')


class Frame:
    __slots__ = ('fn', 'id', 'retpc')

    def __init__(self, fn_, i):
        self.fn, self.id = fn_, i
        self.retpc = None


INTS = {'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'u8', 'u16', 'u32', 'u64', 'u128', 'usize'}


def self_nonneg(p):
    return None


def push(acc, e):
    if isinstance(acc, Tup):
        if len(acc.v) < 16:
            return Tup(acc.v + (e,))
        return Arr(num(len(acc.v) + 1), 'concat', acc_arr(acc), Tup((e,)))
    if isinstance(acc, Arr):
        return Arr(acc.len + 1, 'concat', acc, Tup((e,)))
    if isinstance(acc, HypTup):
        return Arr(acc.len + 1, 'concat', acc, Tup((e,)))
    return Opq('push', (acc, e))


def acc_arr(t):
    return Arr(num(len(t.v)), 'map', lambda i: arr_at(t, i))


class HypTup:
    pass


def hyp_arr(init, rec):
    """header value of an array under the hypothesis that what is read was not yet written"""
    ln = arr_len(init)
    if ln is None:
        return Opq('hyp', (init,))

    def f(i):
        rec.append(i)
        return arr_at(init, i)
    return Arr(ln, 'map', f)


def ref_ext(x, step):
    if isinstance(x, Ref):
        if x.path and x.path[-1][0] == 'sl' and step[0] == 'i':
            lo = x.path[-1][1]
            return Ref(x.root, x.path[:-1] + (('i', lo + step[1]),))
        if x.path and x.path[-1][0] == 'sl' and step[0] == 'sl':
            lo = x.path[-1][1]
            return Ref(x.root, x.path[:-1] + (('sl', lo + step[1], step[2]),))
        return Ref(x.root, x.path + (step,))
    return x


def collect_roots(v, out, depth=0):
    if depth > 8:
        return
    if isinstance(v, Ref):
        out.add(v.root)
    elif isinstance(v, Tup):
        for x in v.v:
            collect_roots(x, out, depth + 1)
    elif isinstance(v, St):
        for x in v.f.values():
            collect_roots(x, out, depth + 1)
    elif isinstance(v, Gate):
        collect_roots(v.a, out, depth + 1)
        collect_roots(v.b, out, depth + 1)
    elif isinstance(v, Clo):
        for x in v.up:
            collect_roots(x, out, depth + 1)


def stores_on(b, a):
    """indices stored to on the way from a to b, last first; None if b is anything else"""
    out = []
    while isinstance(b, Arr) and b.kind == 'store' and b is not a and len(out) < 12:
        out.append(b.x[1])
        b = b.x[0]
    return out if b is a and out else None


def diff(a, b, path, inv=None):
    """finest differing components of two values"""
    if a is b:
        return []
    if inv is not None and isinstance(a, Arr) and isinstance(b, Arr):
        # elements at positions that do not change in the loop
        ix = stores_on(b, a)
        if ix is None and a.kind == 'store' and b.kind == 'store':
            ja, jb = stores_on(a, a.x[0]), stores_on(b, a.x[0])
            if jb is not None and set(jb) == set(ja):
                ix = jb
        ix = list(dict.fromkeys(ix or []))
        if ix and all(inv(i) for i in ix) and (len(ix) == 1 or all(i.is_const() for i in ix)):
            r = []
            for i in ix:
                r += diff(a.at(i), b.at(i), path + (('i', i),), inv)
            return r
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v):
        r = []
        for i, (x, y) in enumerate(zip(a.v, b.v)):
            r += diff(x, y, path + (('f', str(i)),), inv)
        return r
    if isinstance(a, St) and isinstance(b, St) and a.path == b.path and a.var == b.var and a.f.keys() == b.f.keys():
        r = []
        for k in a.f:
            r += diff(a.f[k], b.f[k], path + (('f', k),), inv)
        return r
    if isinstance(a, Clo) and isinstance(b, Clo) and a.path == b.path and len(a.up) == len(b.up):
        r = []
        for i, (x, y) in enumerate(zip(a.up, b.up)):
            r += diff(x, y, path + (('f', str(i)),), inv)
        return r
    if isinstance(a, Seq) and isinstance(b, Seq) and a.at is b.at:
        if a.pos == b.pos:
            return []
        return [(path + (('pos',),), a.pos, b.pos)]
    if isinstance(b, Arr) and b.kind in ('store', 'concat', 'mapstore') and b.x[0] is a:
        return [(path, a, b)]
    if same(a, b):
        return []
    return [(path, a, b)]


def numeric(e):
    """a number, or a tuple or structure of nothing but numbers"""
    if isinstance(e, Tup):
        return all(numeric(x) for x in e.v)
    if isinstance(e, St):
        return all(numeric(x) for x in e.f.values())
    return isinstance(e, P)


def minus_phi(nx, ma):
    """nx - phi, when nx is phi plus something not involving phi (gates lifted)"""
    me = P({((ma, 1),): alg.Q(1)})
    d = nx - me
    if ma not in deep_atoms(d):
        return d
    # gates that carry phi in their branches
    ga = [a for a in nx.atoms() if alg._atom[a][0] == 'ite' and ma in atom_deep(a)]
    if len(ga) == 1:
        g = ga[0]
        c = nx.d.get(((g, 1),))
        rest = P({m: x for m, x in nx.d.items() if m != ((g, 1),)})
        if c is not None and g not in rest.atoms():
            t = alg._atom[g]
            if ma in batom_deep(t[1]):
                return None
            x = minus_phi(rest + t[2].scale(c), ma)
            y = minus_phi(rest + t[3].scale(c), ma)
            if x is not None and y is not None:
                return ite_v(t[1], x, y)
    return None


def any_deep_v(v):
    if isinstance(v, (P, B)):
        return any_deep(v)
    if isinstance(v, Tup):
        s = set()
        for x in v.v:
            s |= any_deep_v(x)
        return s
    if isinstance(v, St):
        s = set()
        for x in v.f.values():
            s |= any_deep_v(x)
        return s
    if isinstance(v, Gate):
        return any_deep(v.c) | any_deep_v(v.a) | any_deep_v(v.b)
    if isinstance(v, Arr):
        if v.kind == 'map' and len(v.x) > 1:
            return any_deep(v.x[1])
        s = set(any_deep(v.len))
        if v.kind == 'store':
            return s | any_deep_v(v.x[0]) | any_deep(v.x[1]) | any_deep_v(v.x[2])
        if v.kind == 'concat':
            return s | any_deep_v(v.x[0]) | any_deep_v(v.x[1])
        if v.kind == 'mapstore':
            return s | any_deep_v(v.x[0]) | any_deep(v.x[3]) | any_deep_v(v.x[4])
        k = sym('dprobe', 'int')
        try:
            return s | any_deep_v(v.at(k))
        except RecursionError:
            return s
    if isinstance(v, Opq):
        s = set()
        for x in v.deps:
            s |= any_deep_v(x)
        s.add(('opq', v.tag))
        return s
    if isinstance(v, Str):
        s = set()
        for x in v.parts:
            if not isinstance(x, str):
                s |= any_deep_v(x)
        return s
    if isinstance(v, tuple):
        s = set()
        for x in v:
            s |= any_deep_v(x)
        return s
    if isinstance(v, Ref):
        s = set()
        for p in v.path:
            for x in p[1:]:
                if isinstance(x, P):
                    s |= any_deep(x)
        return s
    if isinstance(v, Clo):
        s = set()
        for x in v.up:
            s |= any_deep_v(x)
        return s
    if isinstance(v, Seq):
        return set(any_deep(v.n)) | set(any_deep(v.pos))
    return set()


def depends(v, symv):
    """does v mention the opaque phi value symv"""
    if isinstance(symv, Opq):
        return ('opq', symv.tag) in any_deep_v(v)
    return bool(any_deep_v(v) & any_deep_v(symv))


def canon_p(v):
    """canonical key usable inside atoms (keeps polynomials so substitution works)"""
    if isinstance(v, (P, B)):
        return v
    if isinstance(v, Opq):
        return (v.tag,) + tuple(canon_p(x) for x in v.deps)
    if isinstance(v, Tup):
        return ('T',) + tuple(canon_p(x) for x in v.v)
    if isinstance(v, St):
        return ('S', v.path, v.vname) + tuple((k, canon_p(x)) for k, x in v.f.items())
    if isinstance(v, Str):
        return ('str',) + tuple(p if isinstance(p, str) else canon_p(p) for p in v.parts)
    if isinstance(v, tuple):
        return tuple(canon_p(x) for x in v)
    if isinstance(v, Gate):
        return ('G', v.c, canon_p(v.a), canon_p(v.b))
    if isinstance(v, (str, int)):
        return v
    if isinstance(v, Ref):
        return ('R', v.root, v.path)
    if isinstance(v, SymEnum):
        return ('E', v.base, v.path)
    c = canon(v)
    try:
        hash(c)
        return c
    except TypeError:
        return ('id', id(v))


PIS = {}


def float_const(s):
    if s in ('inf', '-inf', 'NaN'):
        return A(('const', s))
    import math
    f = float(s)
    for n, m in ((1, 1), (2, 1), (1, 2), (1, 3), (1, 4), (1, 6), (1, 8), (3, 2), (4, 1), (3, 1)):
        if f == math.pi * n / m or f == -math.pi * n / m:
            return PI.scale(alg.Q(n, m) * (1 if f > 0 else -1))
    if f == 1 / math.pi:
        return inv(PI)
    if f == 2 / math.pi:
        return inv(PI) * 2
    if f == math.sqrt(2):
        return alg.fn('sqrt', num(2))
    if f == 1 / math.sqrt(2):
        return alg.fn('sqrt', num(2)).scale(alg.Q(1, 2))
    return num(alg.Q(s))


def int_draw(p):
    """the whole part of lo + n u for a number u uniform in [0, 1): an integer drawn uniformly from lo .. lo + n - 1"""
    us = [a for a in p.atoms() if alg.atom_of(a)[:2] == ('draw', 'unif')]
    if len(us) != 1:
        return None
    u, n, lo = us[0], {}, {}
    for m, q in p.d.items():
        e = dict(m)
        if u in e:
            if e.pop(u) != 1:
                return None
            n[tuple(sorted(e.items()))] = q
        else:
            lo[m] = q
    n, lo = P(n), P(lo)
    if not is_int(n) or not is_int(lo) or not (lo.is_zero() or lo.is_const() and lo.const() > 0) or u in alg.deep_atoms(n):
        return None
    t = alg.atom_of(u)
    a = A(('draw', 'range', (lo, lo + n), t[3], t[4]))
    BOUNDS.setdefault(single(a), [lo - a, a - lo - n + 1])
    return a


def trunc(p):
    x = int_draw(p)
    return x if x is not None else fn('trunc', p)


def below_zero(p):
    for a in p.atoms():
        k = alg.atom_of(a)
        if k[0] == 'fn' and k[1] in ('round', 'floor', 'trunc', 'ceil'):
            q = k[2][0]
            if any(c < 0 for c in q.d.values()) or any(alg.atom_of(b)[0] == 'opq' for b in q.atoms()):
                return True
    return False


def ftou(p):
    if is_int(p):
        # a rounded quantity which may be below zero (a time): the conversion saturates at zero
        return ite(lt(p, ZERO), ZERO, p) if below_zero(p) else p
    x = int_draw(p)
    if x is not None:
        return x
    if p.is_const():
        return num(max(0, int(p.const())))
    # an integer (a size: not negative) over an integer: the truncating division
    d = 1
    for q in p.d.values():
        d = d * q.denominator // math.gcd(d, q.denominator)
    if d > 1 and all(q > 0 for q in p.d.values()) and is_int(p.scale(d)):
        return fn('idiv', p.scale(d), num(d))
    a = A(('fn', 'ftou', (p,)))
    BOUNDS.setdefault(single(a), [-a])
    return a


alg.INTFN.add('ftou')
alg.INTFN.add('wrap')
alg.INTFN.add('sat')
SHIFTS = ('Shl', 'Shr', 'ShlUnchecked', 'ShrUnchecked')
BITOP = {'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor', 'Shl': 'shl', 'Shr': 'shr'}
NARROW = {'u8': (8, False), 'u16': (16, False), 'i8': (8, True), 'i16': (16, True)}


def topo(f, blocks, inner, skip, entry, loophead):
    """topological order of the region with inner loops collapsed into their headers"""
    rep = {}
    for h, b in inner.items():
        for x in b:
            # outermost inner loop wins
            if x not in rep or len(inner[rep[x]]) < len(b):
                rep[x] = h
    succ = {}
    nodes = set()
    for b in blocks:
        r = rep.get(b, b)
        nodes.add(r)
        for s in f.succ[b]:
            if s not in blocks or s == loophead:
                continue
            rs = rep.get(s, s)
            if rs != r:
                succ.setdefault(r, set()).add(rs)
    seen, order = set(), []
    e = rep.get(entry, entry)
    st = [(e, iter(sorted(succ.get(e, ()))))]
    seen.add(e)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(sorted(succ.get(s, ())))))
                break
        else:
            order.append(n)
            st.pop()
    order.reverse()
    return order
