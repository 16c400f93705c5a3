"""Transfer functions for the library functions the program calls (std, rand, fmt, threads).

Anything without an entry here is reported to the caller as NotImplemented and becomes a recorded
effect with an opaque result.
"""
import re
from alg import *
import alg
from gsa import *
import gsa

OPT, RES = 'std::option::Option', 'std::result::Result'


def some(v):
    return St(OPT, 1, 'Some', {'0': v})


NONE = St(OPT, 0, 'None', {})


def ok(v):
    return St(RES, 0, 'Ok', {'0': v})


def err(v):
    return St(RES, 1, 'Err', {'0': v})


def is_pos(I, v):
    """boolean: v is Some / Ok"""
    if isinstance(v, Ref):
        v = I.load(v)
    if isinstance(v, Gate):
        return bite(v.c, is_pos(I, v.a), is_pos(I, v.b))
    if isinstance(v, St) and v.var is not None:
        return TRUE if v.vname in ('Some', 'Ok') else FALSE
    if isinstance(v, SymEnum):
        names = I.enum_variants(v)
        if names[0] == 'None':
            return bnot(bvar(('isv', v.base, v.path, 'None')))
        return bvar(('isv', v.base, v.path, 'Ok'))
    return bvar(('opqb', 'ispos', canon_p(v)))


def payload(I, v, name=None):
    if isinstance(v, Gate):
        pa, pb = is_pos(I, v.a), is_pos(I, v.b)
        if pa is FALSE and name is None:
            return payload(I, v.b)
        if pb is FALSE and name is None:
            return payload(I, v.a)
        return gate(v.c, payload(I, v.a, name), payload(I, v.b, name))
    if isinstance(v, St) and v.var is not None:
        return v.f.get('0', Opq('nopayload', (v,)))
    if isinstance(v, SymEnum):
        n = I.enum_variants(v)
        if n[0] == 'None':
            return I.variant(v, 1, 'Some').f['0']
        return I.variant(v, 0, 'Ok').f['0']
    return Opq('ok', (v,))


def deref_all(I, v):
    n = 0
    while isinstance(v, (Ref,)) and n < 6:
        v = I.load(v)
        n += 1
    if isinstance(v, Gate):
        return gate(v.c, deref_all(I, v.a), deref_all(I, v.b))
    return v


def real(I, v):
    v = deref_all(I, v)
    return I.opaque_num(v, 'real', 'arg')


def integer(I, v):
    v = deref_all(I, v)
    return I.opaque_num(v, 'int', 'arg')


# ------------------------------------------------------------------ sequences
def rng_len(I, a, b):
    d = Simp(I.facts).p(b - a)
    if d.is_const():
        return d if d.const() >= 0 else ZERO
    c = Simp(I.facts).b(lt0(d))
    if c is FALSE:
        return d
    if c is TRUE:
        return ZERO
    return d


def range_bounds(I, v, n=None):
    """(lo, len) of a range value"""
    if isinstance(v, St):
        p = v.path.split('::')[-1]
        if p == 'Range':
            lo, hi = integer(I, v.f['start']), integer(I, v.f['end'])
            return lo, rng_len(I, lo, hi)
        if p == 'RangeInclusive':
            lo, hi = integer(I, v.f['start']), integer(I, v.f['end']) + 1
            return lo, rng_len(I, lo, hi)
        if p == 'RangeTo':
            return ZERO, integer(I, v.f['end'])
        if p == 'RangeToInclusive':
            return ZERO, integer(I, v.f['end']) + 1
        if p == 'RangeFrom':
            lo = integer(I, v.f['start'])
            return lo, (rng_len(I, lo, n) if n is not None else None)
        if p == 'RangeFull':
            return ZERO, n
    if isinstance(v, Tup) and not v.v and n is not None:
        return ZERO, n
    return None


def ref_elem(r, k):
    return gmap(r, lambda x: ref_ext(x, ('i', k)))


def seq_of_ref(I, r):
    x = I.load(r)
    if isinstance(x, Ref):
        return seq_of_ref(I, x)
    n = arr_len(x)
    if n is None:
        if isinstance(x, (Seq,)):
            return None
        return Opq('iter', (x,))
    return Seq(n, lambda I2, k: ref_elem(r, k), tag=('ref', canon_p(r)))


def to_seq(I, v):
    if isinstance(v, Seq):
        return v
    if isinstance(v, Gate):
        a, b = to_seq(I, v.a), to_seq(I, v.b)
        return gate(v.c, a, b)
    if isinstance(v, St):
        rb = range_bounds(I, v)
        if rb is not None:
            lo, n = rb
            if n is None:
                n = sym('infinity', 'int')
                BOUNDS.setdefault(single(n), [-n + 1000000])
            return Seq(n, lambda I2, k: lo + k, tag=('range', lo, n))
        if v.path == OPT and v.var is not None:
            if v.var == 0:
                return Seq(ZERO, lambda I2, k: Opq('none'), tag=('none',))
            x = v.f['0']
            return Seq(ONE, lambda I2, k: x, tag=('once', canon_p(x)))
        return Opq('iter', (v,))
    if isinstance(v, (Tup, Arr)):
        n = arr_len(v)
        return Seq(n, lambda I2, k: arr_at(v, k), tag=('val', fresh()))
    if isinstance(v, Ref):
        x = I.load(v)
        if isinstance(x, (Seq, Opq)) and not isinstance(x, Arr):
            return x
        if isinstance(x, St):
            return to_seq(I, x)
        s = seq_of_ref(I, v)
        return s if s is not None else Opq('iter', (v,))
    if isinstance(v, Opq):
        e = ext_of(v)
        return e if e is not None else v
    return Opq('iter', (v,))


# ------------------------------------------------------------------ sequences from outside: files, lines, words, channels
def ext_seq(name, deps, wrap=None):
    """an unknown number of unknown elements, named by where they come from"""
    n = A(('opq', 'n:' + name, tuple(canon_p(d) for d in deps), 'int'))
    BOUNDS.setdefault(single(n), [-n])

    def at(I, k):
        e = Opq(name, tuple(deps) + (k,))
        return wrap(e) if wrap else e
    return Seq(n, at, tag=('ext', name))


def opened_path(v, depth=0):
    """the path whose contents a reader yields"""
    if not isinstance(v, Opq) or depth > 12:
        return None
    if v.tag in ('call:std::fs::File::open', 'call:std::fs::read_to_string') and v.deps:
        return v.deps[0]
    for d in v.deps:
        r = opened_path(d, depth + 1)
        if r is not None:
            return r
    return None


def single_opq(n):
    """the channel whose number of records n is"""
    i = single(n)
    t = atom_of(i) if i is not None else None
    return t[2] if t is not None and t[:2] == ('opq', 'n:recv') else repr(n)


def ext_of(v):
    if v.tag == 'receiver':
        return ext_seq('recv', v.deps)
    if v.tag == 'ok' and isinstance(v.deps[0], Opq) and v.deps[0].tag == 'call:glob::glob':
        return ext_seq('entry', (v.deps[0].deps[0],))
    if v.tag == 'call:std::io::BufRead::lines':
        p = opened_path(v)
        return ext_seq('line', (p if p is not None else v,), ok)
    if v.tag == 'str:lines':
        p = opened_path(v)
        return ext_seq('line', (p if p is not None else v,))
    if v.tag == 'str:split':
        return ext_seq('token', v.deps)
    if v.tag in ('str:split_whitespace', 'str:split_ascii_whitespace'):
        return ext_seq('wtoken', v.deps)
    return None


def is_ext(s):
    return isinstance(s, Seq) and s.pred is None and isinstance(s.tag, tuple) and s.tag[:1] == ('ext',)


def nth_seq(I, s, test, f, t):
    """the elements f(e) of a sequence from outside whose test holds: element k is that at position nth(k)"""
    kb = sym('nth#tmp', 'int')
    BOUNDS.setdefault(single(kb), [-kb])
    e = s.at(I, s.pos + kb)
    c = test(I, e)
    if c is TRUE:
        return Seq(s.n - s.pos, lambda I2, k: f(I2, s.at(I2, s.pos + k)), tag=s.tag)
    d = 0
    import alg
    names = {alg._atom[a][1] for a in alg.any_deep(c) if alg._atom[a][0] == 'sym'}
    while 'nth#%d' % d in names:
        d += 1
    kd = sym('nth#%d' % d, 'int')
    BOUNDS.setdefault(single(kd), [-kd])
    c = Subst({single(kb): kd}).b(c)
    n = A(('opq', 'nfilt', (c, s.n - s.pos), 'int'))
    BOUNDS.setdefault(single(n), [-n])

    def at(I2, k):
        i = A(('opq', 'nth', (c, k), 'int'))
        BOUNDS.setdefault(single(i), [-i])
        return f(I2, s.at(I2, s.pos + i))
    return Seq(n, at, tag=s.tag)


def gated(I, c, f):
    """run f under condition c: effects gated, memory merged"""
    if c is TRUE:
        return f()
    pc = I.pc
    before = dict(I.mem)
    I.pc = band(pc, c)
    I.mem = dict(before)
    r = f()
    after = I.mem
    I.mem = {q: (w if before.get(q) is w else gate(c, w, before[q]) if q in before else w)
             for q, w in after.items()}
    for q, w in before.items():
        if q not in I.mem:
            I.mem[q] = w
    I.pc = pc
    return r


def perhaps(I, name, args, t):
    """functions handed to something not modelled: each may be called, on anything"""
    fs = [a for a in args if isinstance(a, (Clo, Ref))]
    fs = [a for a in fs if isinstance(a, Clo) or isinstance(I.load(a), Clo)]
    if not fs or getattr(I, 'inperhaps', 0) >= 2:
        return
    seqs = [s for s in args if isinstance(s, Seq)]
    I.inperhaps = getattr(I, 'inperhaps', 0) + 1
    try:
        for a in fs:
            f = a if isinstance(a, Clo) else I.load(a)
            g = I.prog.find(f.path)
            if g is None:
                continue
            I.seq += 1
            key = (name, I.seq) + tuple(I.loopk)
            c = bvar(('opqb', 'perhaps', key))
            vals = []
            for k in range(g.j['argc'] - 1):
                ty = g.T[g.j['locals'][2 + k]]
                vals.append(I.opaque_ty(ty, 'given:' + name, key + (k,)))
            if vals and seqs and seqs[-1].pred is None and not is_ext(seqs[-1]):
                s = seqs[-1]
                vals[-1] = s.at(I, s.pos + A(('opq', 'whichever', key, 'int')))
            gated(I, c, lambda: I.call_value(a, vals, t))
    finally:
        I.inperhaps -= 1


def next_of(I, r, fr, t):
    """Iterator::next through a mutable reference"""
    def one(x):
        v = I.load(x)
        if isinstance(v, Ref):
            return one(v)
        if isinstance(v, St) or isinstance(v, Opq) and ext_of(v) is not None:
            s = to_seq(I, v)
            if isinstance(s, Seq):
                I.store(x, s)
                v = s
        if isinstance(v, Gate):
            return Opq('gatednext')
        if isinstance(v, Seq) and v.pred is None:
            c = Simp(I.facts).b(lt(v.pos, v.n))
            if c is FALSE:
                return NONE
            I.store(x, Seq(v.n, v.at, v.pos + 1, v.tag, v.pred))
            e = gated(I, c, lambda: v.at(I, v.pos))
            return gate(c, some(e), NONE) if c is not TRUE else some(e)
        return None
    if isinstance(r, Ref):
        o = one(r)
        if o is not None:
            return o
    I.seq += 1
    v = I.snapshot(r)
    I.emit(Ev('call', 'Iterator::next', [v], I.pc, t['sp'], info={'seq': I.seq, 'k': list(I.loopk)},
              fn=I.stack[-1] if I.stack else None))
    return Opq('next', (v, ('seq', I.seq) + tuple(I.loopk)))


def seq_map(s, f):
    if isinstance(s, Gate):
        return gate(s.c, seq_map(s.a, f), seq_map(s.b, f))
    return Seq(s.n - s.pos, lambda I, k: f(I, k, s.at(I, s.pos + k)), tag=None,
               pred=(None if s.pred is None else (lambda I, k, e: s.pred(I, s.pos + k, e)))) if s.pred is None else None


def drain_acc(I, s, acc, step, t, what):
    nm = '%s@%s:%s' % (what, t['sp'][0], t['sp'][1])
    if isinstance(s, Gate):
        m0 = dict(I.mem)
        a = drain_acc(I, s.a, acc, step, t, what)
        ma = I.mem
        I.mem = m0
        b = drain_acc(I, s.b, acc, step, t, what)
        mb = I.mem
        out = dict(mb)
        for q, w in ma.items():
            if q in mb and mb[q] is not w:
                out[q] = gate(s.c, w, mb[q])
            elif q not in mb:
                out[q] = w
        I.mem = out
        return gate(s.c, a, b)
    return I.drain(s, acc, step, t['sp'], nm)


INF = sym('infinity', 'int')


def endless(n):
    return single(INF) in n.atoms() and all(len(m) <= 1 and (c == 1 or not m or m[0][0] != single(INF)) for m, c in n.d.items())


def shorter(I, a, b):
    if endless(a) or endless(b):
        return b if endless(a) else a
    return Simp(I.facts).p(fn('min', a, b))


def iter_method(I, m, fr, args, t):
    """methods of std::iter::Iterator taking self by value"""
    s = to_seq(I, args[0])
    if not isinstance(s, Seq):
        if isinstance(s, Gate) and m in ('sum', 'fold', 'collect', 'count', 'for_each', 'map', 'enumerate'):
            pass
        else:
            if m in ('map', 'enumerate', 'zip', 'skip', 'take', 'filter', 'flat_map', 'rev', 'chain', 'cloned', 'copied',
                     'step_by', 'peekable', 'fuse', 'by_ref', 'filter_map', 'skip_while', 'take_while', 'flatten', 'map_while'):
                perhaps(I, m, args[1:], t)
                return Opq('it:' + m, (s,) + tuple(args[1:]))
            return None
    simple = isinstance(s, Seq) and s.pred is None
    if m == 'by_ref':
        return args[0]
    if m in ('fuse', 'peekable'):
        return s
    if m == 'map':
        f = args[1]
        if simple:
            return Seq(s.n - s.pos, lambda I2, k: I2.call_value(f, [s.at(I2, s.pos + k)], t), tag=s.tag if is_ext(s) else None)
        if isinstance(s, Gate):
            return gate(s.c, iter_method(I, m, fr, [s.a, f], t), iter_method(I, m, fr, [s.b, f], t))
        # filtered
        return Seq(s.n - s.pos, lambda I2, k: I2.call_value(f, [s.at(I2, s.pos + k)], t),
                   pred=lambda I2, k, e: s.pred(I2, s.pos + k, s.at(I2, s.pos + k)))
    if m in ('cloned', 'copied'):
        if simple:
            return Seq(s.n - s.pos, lambda I2, k: load1(I2, s.at(I2, s.pos + k)))
        if isinstance(s, Seq):
            return Seq(s.n - s.pos, lambda I2, k: load1(I2, s.at(I2, s.pos + k)),
                       pred=lambda I2, k, e: s.pred(I2, s.pos + k, s.at(I2, s.pos + k)))
    if m == 'enumerate' and isinstance(s, Gate):
        return gate(s.c, iter_method(I, m, fr, [s.a], t), iter_method(I, m, fr, [s.b], t))
    if m == 'enumerate' and simple:
        return Seq(s.n - s.pos, lambda I2, k: Tup([k, s.at(I2, s.pos + k)]), tag=s.tag if is_ext(s) else None)
    if m == 'zip' and simple:
        o = to_seq(I, args[1])
        if isinstance(o, Seq) and o.pred is None:
            n1, n2 = s.n - s.pos, o.n - o.pos
            n = shorter(I, n1, n2)
            return Seq(n, lambda I2, k: Tup([s.at(I2, s.pos + k), o.at(I2, o.pos + k)]))
        return Opq('it:zip', (s, o))
    if m == 'take' and simple:
        n = integer(I, args[1])
        return Seq(shorter(I, s.n - s.pos, n), lambda I2, k: s.at(I2, s.pos + k))
    if m == 'skip' and simple:
        q = integer(I, args[1])
        n = rng_len(I, q, s.n - s.pos)
        return Seq(n, lambda I2, k: s.at(I2, s.pos + k + q), tag=s.tag if is_ext(s) else None)
    if m == 'rev' and simple:
        return Seq(s.n - s.pos, lambda I2, k: s.at(I2, s.n - 1 - k))
    if m == 'step_by' and simple:
        q = integer(I, args[1])
        n = fn('idiv', s.n - s.pos + q - 1, q)
        return Seq(n, lambda I2, k: s.at(I2, s.pos + k * q))
    if m == 'chain' and simple:
        o = to_seq(I, args[1])
        if isinstance(o, Seq) and o.pred is None:
            n1 = s.n - s.pos

            def at(I2, k):
                c = Simp(I2.facts).b(lt(k, n1))
                if c is TRUE:
                    return s.at(I2, s.pos + k)
                if c is FALSE:
                    return o.at(I2, o.pos + k - n1)
                return gate(c, s.at(I2, s.pos + k), o.at(I2, o.pos + k - n1))
            return Seq(n1 + o.n - o.pos, at)
        return Opq('it:chain', (s, o))
    if m == 'cycle' and simple:
        n0 = s.n - s.pos
        n = INF
        BOUNDS.setdefault(single(n), [-n + 1000000])
        return Seq(n, lambda I2, k: s.at(I2, s.pos + fn('imod', k, n0)))
    if m == 'filter' and isinstance(s, Seq):
        f = args[1]
        if is_ext(s):
            def test(I2, e):
                root = ('FE', I2.heap)
                I2.heap += 1
                I2.mem[root] = e
                return I2.opaque_bool(I2.call_value(f, [Ref(root)], t))
            return nth_seq(I, s, test, lambda I2, e: e, t)

        def pred(I2, k, e):
            root = ('FE', I2.heap)
            I2.heap += 1
            I2.mem[root] = e
            r = I2.call_value(f, [Ref(root)], t)
            r = I2.opaque_bool(r)
            if s.pred is not None:
                r = band(r, s.pred(I2, s.pos + k, e))
            return r
        return Seq(s.n - s.pos, lambda I2, k: s.at(I2, s.pos + k), pred=pred)
    if m == 'fold':
        f = args[2]
        return drain_acc(I, s, args[1], lambda acc, e: I.call_value(f, [acc, e], t), t, 'fold')
    if m in ('sum', 'product'):
        add = m == 'sum'

        def step(acc, e):
            x = deref_all(I, e)
            if not isinstance(x, P):
                x = I.opaque_num(x, 'real', m)
            return acc + x if add else acc * x
        return drain_acc(I, s, ZERO if add else ONE, step, t, m)
    if m == 'for_each':
        f = args[1]

        def step(acc, e):
            I.call_value(f, [e], t)
            return acc
        drain_acc(I, s, UNIT, step, t, 'for_each')
        return UNIT
    if m == 'count':
        if simple:
            return s.n - s.pos
        return drain_acc(I, s, ZERO, lambda acc, e: acc + 1, t, 'count')
    if m == 'collect':
        return collect_m(I, s, fr, t)
    if m == 'last' and simple:
        n = s.n - s.pos
        return gate(Simp(I.facts).b(lt0(-n)), some(s.at(I, s.n - 1)), NONE)
    if m in ('all', 'any', 'find', 'position', 'find_map') and simple and (s.n - s.pos).is_const() and 0 <= (s.n - s.pos).const() <= 16:
        return search(I, m, s, args[1], int((s.n - s.pos).const()), t)
    if m in ('all', 'any') and isinstance(s, Seq):
        return None
    if m in ('flat_map', 'filter_map', 'flatten') and is_ext(s):
        g = (lambda I2, e: e) if m == 'flatten' else (lambda I2, e: I2.call_value(args[1], [e], t))
        return nth_seq(I, s, lambda I2, e: is_pos(I2, g(I2, e)), lambda I2, e: payload(I2, g(I2, e)), t)
    if m == 'filter_map' and simple:
        last = {}

        def option(I2, k):
            e = s.at(I2, s.pos + k)
            e = I2.call_value(args[1], [e], t)
            last['k'], last['e'] = k, e
            return e

        return Seq(s.n - s.pos, lambda I2, k: payload(I2, option(I2, k)),
                   pred=lambda I2, k, e: is_pos(I2, last['e'] if last.get('k') is k else option(I2, k)))
    if m in ('flat_map', 'filter_map', 'skip_while', 'take_while', 'flatten', 'map_while'):
        return Opq('it:' + m, (Opq('seq'),) + tuple(args[1:]))
    return None


def search(I, m, s, f, n, t):
    """a search through a short list of known length"""
    found, out = FALSE, None
    for i in range(n):
        def step(i=i):
            e = s.at(I, s.pos + i)
            a = e
            if m == 'find':
                root = ('FE', I.heap)
                I.heap += 1
                I.mem[root] = e
                a = Ref(root)
            return e, I.call_value(f, [a], t)
        e, r = gated(I, bnot(found), step)
        c = is_pos(I, r) if m == 'find_map' else I.opaque_bool(r)
        if m == 'all':
            c = bnot(c)
        hit = band(bnot(found), c)
        if m in ('find', 'position', 'find_map'):
            v = {'find': e, 'position': num(i), 'find_map': r}[m]
            v = r if m == 'find_map' else some(v)
            out = gate(hit, v, out) if out is not None else gate(hit, v, NONE)
        found = bor(found, c)
        if found is TRUE:
            break
    if m == 'any':
        return found
    if m == 'all':
        return bnot(found)
    return out if out is not None else NONE


def load1(I, v):
    if isinstance(v, Ref):
        return I.load(v)
    if isinstance(v, Gate):
        return gate(v.c, load1(I, v.a), load1(I, v.b))
    return v


def collect_m(I, s, fr, t):
    ty = I.place_ty(fr, t['dest']) if fr is not None and t.get('dest') else None
    if ty and ty['k'] == 'adt' and ty['path'] == 'std::string::String' and isinstance(s, Seq) and s.pred is None:
        k = sym('rep#tmp', 'int')
        b = deref_all(I, s.at(I, s.pos + k))
        if isinstance(b, Str):
            d = 0
            used = {alg._atom[a][1] for a in gsa.any_deep_v(b) if isinstance(a, int) and alg._atom[a][0] == 'sym'}
            while 'rep#%d' % d in used:
                d += 1
            b = gsa.vsubst(b, Subst({single(k): sym('rep#%d' % d, 'int')}))
            return Str([Opq('rep', (num(d), s.n - s.pos, b))])
        return None
    if ty and ty['k'] == 'adt' and ty['path'] not in ('std::vec::Vec',):
        return None
    return I.collect(s, t['sp'], 'collect@%s:%s' % tuple(t['sp'][:2]))


# ------------------------------------------------------------------ randomness
def draw(I, kind, params):
    I.seq += 1
    a = A(('draw', kind, tuple(params), I.seq, tuple(I.loopk)))
    if kind == 'range':
        lo, hi = params
        BOUNDS.setdefault(single(a), [lo - a, a - hi + 1])
    if kind == 'bits':
        BOUNDS.setdefault(single(a), [-a])
    return a


def sample(I, d):
    d = deref_all(I, d)
    if isinstance(d, Gate):
        return gate(d.c, sample(I, d.a), sample(I, d.b))
    if isinstance(d, St):
        n = d.path.split('::')[-1]
        if n == 'Uniform':
            lo, hi = d.f['lo'], d.f['hi']
            if d.f.get('int') is TRUE:
                return draw(I, 'range', (lo, hi))
            # affine image of the unit draw
            u = draw(I, 'unif', (ZERO, ONE))
            return lo + (hi - lo) * u
        if n == 'Normal':
            return d.f['mean'] + d.f['sd'] * draw(I, 'normal', (ZERO, ONE))
    if isinstance(d, Tup) and not d.v:
        return None
    return None


def uniform(lo, hi, isint):
    return St('rand_distr::Uniform', None, '', {'lo': lo, 'hi': hi, 'int': TRUE if isint else FALSE})


def int_ty(I, fr, t, j):
    for a in j.get('args') or []:
        if a in INTS:
            return True
        if a in ('f64', 'f32'):
            return False
    return None


# ------------------------------------------------------------------ formatting
def decode_template(b, args):
    parts = []
    i = 0
    ai = 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            parts.append(bytes(b[i:i + n]).decode('utf8', 'replace'))
            i += n
        elif n == 0x80:
            ln = b[i] | b[i + 1] << 8
            i += 2
            parts.append(bytes(b[i:i + ln]).decode('utf8', 'replace'))
            i += ln
        else:
            spec = []
            if n & 1:
                fl = int.from_bytes(bytes(b[i:i + 4]), 'little')
                # other than the usual filling and alignment
                if fl & 0x0fffffff != 0x20:
                    spec.append(('flags', fl))
                i += 4
            if n & 2:
                spec.append(('width', int.from_bytes(bytes(b[i:i + 2]), 'little')))
                i += 2
            if n & 4:
                spec.append(('prec', int.from_bytes(bytes(b[i:i + 2]), 'little')))
                i += 2
            elif n & 1 and fl & 1 << 28:
                spec.append(('prec', 0))
            if n & 8:
                ai = int.from_bytes(bytes(b[i:i + 2]), 'little')
                i += 2
            if n & 16:
                spec.append(('dynw', 1))
            if n & 32:
                spec.append(('dynp', 1))
            v = args[ai] if ai < len(args) else Opq('fmtarg?')
            ai += 1
            if isinstance(v, St) and v.path == 'fmtarg':
                if v.f['k'] != 'display':
                    spec.append((v.f['k'], 1))
                v = v.f['v']
            if len(spec) == 1 and spec[0][0] == 'prec' and isinstance(v, P):
                parts.append(v if is_int(v) else A(('fn', 'rnd', (v, num(spec[0][1])))))
            elif spec:
                parts.append(Opq('fmt', (v, tuple(spec))))
            else:
                parts.append(disp(v))
    return Str(parts)


def disp(v):
    if isinstance(v, P) and v.is_const() and v.const().denominator == 1:
        return str(v.const())
    return v


# ------------------------------------------------------------------ the table
F1 = {'sin', 'cos', 'tan', 'tanh', 'sqrt', 'exp', 'ln', 'acos', 'asin', 'atan', 'floor', 'ceil', 'round', 'trunc',
      'abs', 'sinh', 'cosh', 'log10', 'log2', 'cbrt', 'exp2', 'exp_m1', 'ln_1p', 'signum', 'round_ties_even'}

IDENT = {
    'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref', 'std::convert::AsMut::as_mut',
    'std::borrow::Borrow::borrow', 'std::hint::must_use', 'std::hint::black_box', 'std::string::String::as_str', 'std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::string::String::into_bytes', 'core::str::<impl str>::as_ref',
    'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::string::String::as_mut_str',
    'core::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_slice',
    'std::convert::identity', 'std::boxed::Box::<T>::new', 'std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new',
}


def model(I, fr, path, res, j, args, t):
    last = path.split('::')[-1]
    # ---- transparent
    if path in IDENT:
        if path.startswith('std::sync::Arc') or path.startswith('std::rc::Rc') or path.startswith('std::boxed::Box'):
            I.heap += 1
            root = ('H', I.heap)
            I.mem[root] = args[0]
            return Ref(root)
        if path.endswith('Deref::deref') or path.endswith('deref_mut'):
            # deref(&Box/Arc) -> the inner reference; deref(&Vec/&String) -> itself
            v = I.load(args[0]) if isinstance(args[0], Ref) else None
            if isinstance(v, Ref):
                return v
        return args[0]
    if path == 'std::clone::Clone::clone' or last in ('to_owned', 'to_vec') or path == 'std::clone::Clone::clone_from':
        if last == 'clone' and 'mpsc::Sender' in (res or ''):
            v = I.snapshot(args[0])
            I.emit(Ev('call', 'Sender::clone', [v], I.pc, t['sp'], info={'k': list(I.loopk)}, fn=cur(I)))
            return v
        if last == 'clone' and re.search(r'Arc<|Rc<', res or ''):
            return load1(I, args[0])
        v = load1(I, args[0])
        if isinstance(v, Ref) and last != 'clone':
            v = load1(I, v)
        return v
    if path in ('std::convert::From::from', 'std::convert::Into::into', 'std::convert::TryFrom::try_from', 'std::convert::TryInto::try_into'):
        if 'Uniform' in (res or ''):
            rb = args[0]
            if isinstance(rb, St):
                ty = I.place_ty(fr, t['dest']) if fr is not None else None
                it = not re.search(r'f64|f32', (ty or {}).get('s', '') + ' '.join(map(str, j.get('args') or [])))
                return uniform(rb.f['start'], rb.f['end'] + (1 if it and rb.path.endswith('Inclusive') else 0), it)
            return NotImplemented
        if 'String' in (res or ''):
            return deref_all(I, args[0])
        v = args[0]
        if isinstance(v, B):
            v = ite(v, ONE, ZERO)
        if isinstance(v, P):
            return ok(v) if last.startswith('try') else v
        if last in ('from', 'into'):
            v2 = deref_all(I, v)
            if isinstance(v2, (Str, Arr, Tup)):
                return v2
        return NotImplemented
    # ---- float / int inherent functions
    m = re.search(r'<impl (f64|f32)>::(\w+)$', path)
    if m:
        return float_fn(I, m.group(2), args)
    m = re.search(r'<impl ([iu](?:8|16|32|64|128|size))>::(\w+)$', path)
    if m:
        return int_fn(I, m.group(1), m.group(2), args)
    # ---- operator traits
    m = re.match(r'(?:std|core)::ops::(?:arith::)?(Add|Sub|Mul|Div|Rem|Neg|Not|BitAnd|BitOr|BitXor)::\w+$', path)
    if m:
        op = m.group(1)
        if op == 'Neg':
            return -real(I, args[0])
        if op == 'Not':
            return bnot(I.opaque_bool(deref_all(I, args[0])))
        a, b = deref_all(I, args[0]), deref_all(I, args[1])
        if isinstance(a, Str):
            return Str([a, b])
        isf = 'f64' in (res or '') or 'f32' in (res or '') or 'f64' in ' '.join(map(str, j.get('args') or []))
        if isinstance(a, (St, Opq)) and not isf:
            return NotImplemented
        return I.binop(fr, op, a, b, 'f64' if isf else 'usize')
    m = re.match(r'(?:std|core)::ops::(?:arith::)?(Add|Sub|Mul|Div|Rem)Assign::\w+$', path)
    if m:
        a, b = deref_all(I, args[0]), deref_all(I, args[1])
        if isinstance(a, Str):
            I.store(args[0], Str([a, b]))
            return UNIT
        isf = 'f64' in (res or '') or 'f32' in (res or '') or 'f64' in ' '.join(map(str, j.get('args') or []))
        if isinstance(a, (St, Opq)) and not isf:
            return NotImplemented
        r = args[0]
        while isinstance(r, Ref) and isinstance(I.load(r), Ref):
            r = I.load(r)
        I.store(r, I.binop(fr, m.group(1), a, b, 'f64' if isf else 'usize'))
        return UNIT
    m = re.match(r'(?:std|core)::cmp::(?:PartialEq|PartialOrd)::(eq|ne|lt|le|gt|ge)$', path)
    if m:
        a, b = deref_all(I, args[0]), deref_all(I, args[1])
        return I.compare(m.group(1).capitalize(), a, b)
    m = re.match(r'(?:std|core)::cmp::Ord::(max|min|clamp)$', path)
    if m:
        if m.group(1) == 'clamp':
            return fn('min', fn('max', integer(I, args[0]), integer(I, args[1])), integer(I, args[2]))
        return fn(m.group(1), integer(I, args[0]), integer(I, args[1]))
    m = re.match(r'(?:std|core)::cmp::(max|min)$', path)
    if m:
        return fn(m.group(1), integer(I, args[0]), integer(I, args[1]))
    # ---- iterators
    if path == 'std::iter::IntoIterator::into_iter':
        s = to_seq(I, args[0])
        return s
    if path == 'std::iter::Iterator::next' or path.endswith('Iterator::next'):
        return next_of(I, args[0], fr, t)
    if path.startswith('std::iter::Iterator::') or path.startswith('std::iter::DoubleEndedIterator::rev'):
        r = iter_method(I, last, fr, args, t)
        if r is not None:
            return r
        return NotImplemented
    if path in ('std::iter::once', 'std::iter::repeat', 'std::iter::empty', 'std::iter::zip', 'std::iter::repeat_n'):
        if last == 'once':
            v = args[0]
            return Seq(ONE, lambda I2, k: v)
        if last == 'empty':
            return Seq(ZERO, lambda I2, k: Opq('none'))
        if last == 'zip':
            return iter_method(I, 'zip', fr, [to_seq(I, args[0]), args[1]], t) or NotImplemented
        v = args[0]
        if last == 'repeat_n':
            return Seq(integer(I, args[1]), lambda I2, k: v)
        n = INF
        BOUNDS.setdefault(single(n), [-n + 1000000])
        return Seq(n, lambda I2, k: v)
    if path.endswith('RangeInclusive::<Idx>::new'):
        return St('std::ops::RangeInclusive', None, '', {'start': args[0], 'end': args[1]})
    # ---- slices, vectors
    m = re.search(r'slice::<impl \[T\]>::(\w+)$', path) or re.search(r'(?:core|std)::array::<impl \[T; N\]>::(\w+)$', path)
    if m:
        return slice_fn(I, m.group(1), fr, args, t)
    m = re.match(r'std::ops::Index(?:Mut)?::index(?:_mut)?$', path)
    if m:
        if I.checked:
            within(I, args[0], args[1], t)
        return index_fn(I, args[0], args[1])
    m = re.match(r'std::vec::Vec::<T(?:, A)?>::(\w+)$', path)
    if m:
        return vec_fn(I, m.group(1), fr, args, t)
    if path in ('std::array::from_fn', 'core::array::from_fn'):
        ty = I.place_ty(fr, t['dest'])
        if ty and ty.get('k') == 'array' and isinstance(ty.get('len'), int) and ty['len'] <= 16:
            return Tup([I.call_value(args[0], [num(i)], t) for i in range(ty['len'])])
        return NotImplemented
    if path == 'std::vec::from_elem' or path == 'std::vec::from_elem_in':
        v, n = args[0], integer(I, args[1])
        if n.is_const() and n.const() <= 16:
            return Tup([v] * int(n.const()))
        return Arr(n, 'map', lambda i: v)
    if path == 'std::iter::Extend::extend':
        s = to_seq(I, args[1])
        if isinstance(s, Seq) and isinstance(args[0], Ref):
            c = I.collect(s, t['sp'], 'extend@%s:%s' % tuple(t['sp'][:2]))
            old = I.load(args[0])
            I.store(args[0], concat(old, c))
            return UNIT
        return NotImplemented
    if path in ('core::bool::<impl bool>::then', 'core::bool::<impl bool>::then_some', 'std::bool::<impl bool>::then', 'std::bool::<impl bool>::then_some'):
        c = I.opaque_bool(deref_all(I, args[0]))
        v = args[1] if path.endswith('some') else gated(I, c, lambda: I.call_value(args[1], [], t))
        return gate(c, some(v), NONE)
    if path.startswith('std::boxed::Box::<T>::new_uninit'):
        I.heap += 1
        root = ('H', I.heap) + tuple(I.loopk)
        I.mem[root] = Opq('uninit')
        return Ref(root)
    if path.startswith('std::boxed::box_assume_init_into_vec'):
        return load1(I, args[0])
    if path == 'std::mem::swap':
        a, b = load1(I, args[0]), load1(I, args[1])
        I.store(args[0], b)
        I.store(args[1], a)
        return UNIT
    if path == 'std::mem::replace':
        a = load1(I, args[0])
        I.store(args[0], args[1])
        return a
    if path == 'std::mem::drop':
        ty = I.op_type(fr, t['args'][0]) if fr is not None and 'args' in t else None
        if ty and ty['k'] == 'adt' and DROPRE.search(ty['path']):
            I.emit(Ev('drop', ty['path'], [args[0]], I.pc, t['sp'], fn=cur(I)))
        return UNIT
    if path == 'std::mem::forget':
        return UNIT
    if path.endswith('default::Default::default'):
        ty = I.place_ty(fr, t['dest']) if fr is not None else None
        s = ty['s'] if ty else ''
        if s in ('f64', 'f32') or s in INTS:
            return ZERO
        if s == 'bool':
            return FALSE
        if ty and ty['k'] == 'adt' and ty['path'] == 'std::vec::Vec':
            return Tup(())
        if s == 'std::string::String':
            return Str([])
        return NotImplemented
    # ---- randomness
    if re.search(r'(^|::)(thread_rng|rng)$', path) and path.startswith('rand'):
        return Opq('rng')
    if path.startswith('rand::') and last in ('seed_from_u64', 'from_entropy', 'from_rng', 'from_os_rng'):
        return Opq('rng')
    if re.match(r'rand(_core)?::', path) and last in ('gen_range', 'random_range'):
        if len(args) == 2:
            v = deref_all(I, args[1])
            rb = v if isinstance(v, St) else None
            if rb is None or 'start' not in rb.f:
                return NotImplemented
            lo, hi = rb.f['start'], rb.f['end']
            incl = rb.path.endswith('Inclusive')
        else:
            lo, hi, incl = args[1], args[2], False
        it = int_ty(I, fr, t, j)
        if it is None:
            ty = I.place_ty(fr, t['dest']) if fr is not None else None
            it = bool(ty and ty['s'] in INTS)
        if it:
            lo, hi = integer(I, lo), integer(I, hi)
            if I.checked:
                I.must('range', lt(hi, lo) if incl else le(hi, lo), t['sp'], cur(I))
            return draw(I, 'range', (lo, hi + 1 if incl else hi))
        lo, hi = real(I, lo), real(I, hi)
        return lo + (hi - lo) * draw(I, 'unif', (ZERO, ONE))
    if re.match(r'rand(_core)?::', path) and last in ('gen_bool', 'random_bool'):
        return alg.lt(draw(I, 'unif', (ZERO, ONE)), real(I, args[1]))
    if re.match(r'rand(_core)?::', path) and last in ('gen', 'random'):
        ty = I.place_ty(fr, t['dest']) if fr is not None else None
        if ty and ty['s'] in ('f64', 'f32'):
            return draw(I, 'unif', (ZERO, ONE))
        if ty and ty['s'] in ('u8', 'u16', 'u32', 'u64', 'usize'):
            return draw(I, 'bits', (num({'u8': 8, 'u16': 16, 'u32': 32}.get(ty['s'], 64)),))
        return NotImplemented
    if re.match(r'rand(_core)?::', path) and last == 'sample':
        r = sample(I, args[1])
        return r if r is not None else NotImplemented
    if re.search(r'Distribution::sample$', path):
        r = sample(I, args[0])
        if r is None and re.search(r'Standard', res or ''):
            if 'StandardNormal' in res:
                return draw(I, 'normal', (ZERO, ONE))
            return draw(I, 'unif', (ZERO, ONE))
        return r if r is not None else NotImplemented
    if re.search(r'Uniform::<\w+>::(new|new_inclusive)$', path):
        it = int_ty(I, fr, t, j)
        a, b = deref_all(I, args[0]), deref_all(I, args[1])
        if it is None:
            it = isinstance(a, P) and isinstance(b, P) and is_int(a) and is_int(b) and False
        return uniform(a, b + (1 if it and last == 'new_inclusive' else 0), bool(it))
    if re.search(r'Normal::<\w+>::new$', path):
        return ok(St('rand_distr::Normal', None, '', {'mean': real(I, args[0]), 'sd': real(I, args[1])}))
    # ---- options and results
    m = re.match(r'std::(?:option::Option|result::Result)::<[^>]*>::(\w+)$', path)
    if m:
        r = opt_fn(I, m.group(1), path, fr, args, t)
        return r
    if path == 'std::ops::Try::branch':
        v = args[0]
        c = is_pos(I, v)
        CF = 'std::ops::ControlFlow'
        return gate(c, St(CF, 0, 'Continue', {'0': payload(I, v)}), St(CF, 1, 'Break', {'0': v}))
    if path == 'std::ops::FromResidual::from_residual':
        return args[0]
    # ---- formatting and strings
    m = re.search(r'fmt::rt::Argument::<.*>::(new_(\w+)|from_usize)$', path)
    if m:
        return St('fmtarg', None, '', {'v': deref_all(I, args[0]), 'k': m.group(2) or 'usize'})
    if re.search(r'fmt::Arguments::<.*>::(new|new_v1|new_const)$', path):
        tm = deref_all(I, args[0])
        av = deref_all(I, args[1]) if len(args) > 1 else Tup(())
        al = list(av.v) if isinstance(av, Tup) else []
        if isinstance(av, Arr) and av.len.is_const():
            al = [av.at(num(i)) for i in range(int(av.len.const()))]
        if isinstance(tm, Opq) and tm.tag == 'bytes':
            return decode_template(list(tm.deps[0]), al)
        return Str([Opq('fmt?', (tm,) + tuple(al))])
    if re.search(r'fmt::Arguments::<.*>::(from_str|from_str_nonconst)$', path):
        return deref_all(I, args[0])
    if path in ('std::fmt::format', 'alloc::fmt::format'):
        return args[0]
    if path == 'std::string::ToString::to_string' or path == 'std::string::String::to_string':
        v = deref_all(I, args[0])
        return v if isinstance(v, Str) else Str([disp(v)])
    if path == 'std::string::String::new' or path.startswith('std::string::String::with_capacity'):
        return Str([])
    if path in ('std::string::String::push_str', 'std::string::String::push'):
        old = deref_all(I, args[0])
        x = deref_all(I, args[1])
        if isinstance(old, Str):
            I.store(args[0], Str([old, x]))
            return UNIT
        I.store(args[0], Str([Opq('strof', (old,)), x]))
        return UNIT
    if re.search(r'<impl str>::parse$', path):
        x = deref_all(I, args[0])
        ty = ''
        try:
            ty = j['tys'][-1] if 'tys' in j else fr.fn.T[j['args'][-1]]['s']
        except Exception:
            pass
        if re.match(r'[iuf](\d+|size)$', ty):
            key = (canon_p(x), ty)
            return gate(bvar(('opqb', 'parses', key)), ok(A(('opq', 'parsed', key, 'real' if ty[0] == 'f' else 'int'))),
                        err(Opq('err', (x,))))
        return Opq('parse', (x, ','.join(map(str, j.get('args') or []))))
    if path == 'std::string::String::is_empty':
        x = deref_all(I, args[0])
        if isinstance(x, Opq) and x.tag == 'line':
            return bvar(('opqb', ('str:is_empty', canon_p(x))))
    if path in ('std::string::String::len', 'std::string::String::is_empty'):
        x = deref_all(I, args[0])
        if isinstance(x, Opq) and x.tag == 'recv':
            v = A(('opq', 'len', (canon_p(x),), 'int'))
            return v if last == 'len' else eq(v, ZERO)
    if re.search(r'<impl str>::(split|trim|lines|chars|split_whitespace|starts_with|ends_with|contains|is_empty|len|to_string|to_lowercase|trim_start|trim_end|trim_start_matches|strip_prefix)$', path):
        return Opq('str:' + last, tuple(deref_all(I, a) for a in args))
    if re.search(r'slice::<impl \[\w+\]>::(join|concat)$', path) or last == 'join' and 'slice' in path:
        al, sep = deref_all(I, args[0]), (deref_all(I, args[1]) if len(args) > 1 else Str([]))
        if isinstance(al, Arr) and al.len.is_const() and al.len.const() <= 64:
            al = Tup([al.at(num(i)) for i in range(int(al.len.const()))])
        if isinstance(al, Tup) and isinstance(sep, Str):
            el = [deref_all(I, x) for x in al.v]
            if all(isinstance(x, Str) for x in el):
                out = []
                for i, x in enumerate(el):
                    if i:
                        out.append(sep)
                    out.append(x)
                return Str(out)
        return Str([Opq('join', tuple(deref_all(I, a) for a in args))])
    if path == 'std::fmt::Write::write_str' or path == 'std::fmt::Formatter::<\'_>::write_fmt':
        return NotImplemented
    if path in ('std::io::Write::write_fmt', 'std::io::Write::write_all', 'std::io::Write::flush'):
        # rules look at what happens when output succeeds; that failures are not passed over is P44
        emit(I, path, args, t)
        return ok(UNIT)
    if path in ('std::io::Write::write', 'std::fs::File::create', 'std::fs::OpenOptions::open'):
        return ok(Opq('ok', (emit(I, path, args, t),)))
    if path == 'std::fs::write':
        emit(I, path, args, t)
        return ok(UNIT)
    if path in ('std::io::_print', 'std::io::_eprint'):
        emit(I, path, args, t)
        return UNIT
    # ---- threads, channels
    if path == 'std::sync::mpsc::channel' or path == 'std::sync::mpsc::sync_channel':
        I.seq += 1
        cid = ('chan', I.seq) + tuple(I.loopk)
        I.emit(Ev('call', 'channel', [cid], I.pc, t['sp'], info={'k': list(I.loopk)}, fn=cur(I)))
        return Tup([Opq('sender', (cid,)), Opq('receiver', (cid,))])
    if path in ('std::thread::spawn',):
        return spawn(I, path, [], args[0], t)
    if path == 'threadpool::ThreadPool::execute':
        return spawn(I, path, [I.snapshot(args[0])], args[1], t)
    if re.match(r'std::sync::mpsc::(Sync)?Sender::<T>::send$', path):
        emit(I, 'Sender::send', args, t)
        return ok(UNIT)
    if re.match(r'std::sync::mpsc::Receiver::<T>::(recv|iter|recv_timeout|try_recv|try_iter)$', path) and isinstance(args[0], Ref):
        x = I.load(args[0])
        r = args[0]
        while isinstance(x, Ref):
            r, x = x, I.load(x)
        if isinstance(x, Opq) and x.tag == 'receiver':
            x = ext_of(x)
            I.store(r, x)
        if is_ext(x):
            if last == 'iter':
                return r
            if last == 'try_iter':
                return Seq(A(('opq', 'n:late', (single_opq(x.n),), 'int')), x.at, x.pos, x.tag)
            c = Simp(I.facts).b(lt(x.pos, x.n))
            if last != 'recv':
                # there may be no record yet
                there = eq(A(('opq', 'late', (single_opq(x.n), x.pos), 'int')), ZERO)
                I.store(r, Seq(x.n, x.at, x.pos + ite(there, ONE, ZERO), x.tag))
                ep = 'std::sync::mpsc::' + ('TryRecvError' if last == 'try_recv' else 'RecvTimeoutError')
                return gate(c, gate(there, ok(x.at(I, x.pos)), err(St(ep, 0, 'Empty' if last == 'try_recv' else 'Timeout', {}))),
                            err(St(ep, 1, 'Disconnected', {})))
            I.store(r, Seq(x.n, x.at, x.pos + 1, x.tag))
            return gate(c, ok(x.at(I, x.pos)), err(Opq('RecvError')))
    if re.match(r'std::thread::JoinHandle::<T>::join$', path):
        return ok(Opq('ok', (emit(I, 'JoinHandle::join', args, t),)))
    if path.startswith('threadpool::'):
        if last == 'new':
            I.seq += 1
            return Opq('pool', (I.seq, args[0]))
        return emit(I, path, args, t)
    # ---- progress bars: no observable result
    if path.startswith('indicatif::'):
        if last == 'join':
            return emit(I, path, args, t)
        if last.startswith(('finish', 'abandon')):
            emit(I, 'bar:finish', args, t)
            return UNIT
        if last in ('new', 'add', 'default_bar', 'template', 'progress_chars', 'default_spinner'):
            return Opq('progress', ('added',)) if path.endswith('MultiProgress::add') or path.endswith('MultiProgress::insert') else Opq('progress')
        return UNIT
    # ---- files and processes: recorded, arguments by value
    if re.match(r'std::fs::|std::io::|toml::|clap::|glob::|std::process::|std::env::', path) or 'clap' in path:
        return emit(I, path, args, t)
    return NotImplemented


DROPRE = re.compile(r'mpsc::Sender|mpsc::SyncSender|JoinHandle|ThreadPool|fs::File|mpsc::Receiver|MultiProgress|ProgressBar')


def cur(I):
    return I.stack[-1] if I.stack else None


def emit(I, name, args, t):
    """effect whose mutable arguments keep their identity (handles)"""
    I.seq += 1
    vals = [I.snapshot(a) for a in args]
    r = Opq('call:' + name, tuple(vals) + (('seq', I.seq) + tuple(I.loopk),))
    I.emit(Ev('call', name, vals, I.pc, t['sp'],
              info={'raw': list(args), 'seq': I.seq, 'mem': I.mem, 'k': list(I.loopk), 'ret': r}, fn=cur(I)))
    return r


def spawn(I, name, pre, clo, t):
    I.seq += 1
    sid = I.seq
    ev0, I.events = I.events, []
    mem0 = I.mem
    I.mem = dict(mem0)
    pc = I.pc
    I.pc = TRUE
    r = I.call_value(clo, [], t)
    I.diverged = False
    I.pc = pc
    body, I.events = I.events, ev0
    # the closure owns what it captured; its stores are not visible here
    I.mem = mem0
    h = Opq('JoinHandle', (sid,) + tuple(I.loopk))
    I.emit(Ev('spawn', name, pre + [clo], I.pc, t['sp'], body=body,
              info={'seq': sid, 'k': list(I.loopk), 'ret': h, 'value': r}, fn=cur(I)))
    return h if name == 'std::thread::spawn' else UNIT


# ------------------------------------------------------------------ families
def float_fn(I, n, args):
    x = real(I, args[0])
    if n in F1:
        if n == 'signum':
            return A(('fn', 'signum', (x,)))
        if n == 'exp_m1':
            return fn('exp', x) - 1
        if n == 'ln_1p':
            return fn('ln', x + 1)
        if n == 'exp2':
            return fn('exp', x * fn('ln', num(2)))
        if n in ('log10', 'log2'):
            return fn('ln', x) * inv(fn('ln', num(10 if n == 'log10' else 2)))
        if n in ('floor', 'trunc'):
            k = gsa.int_draw(x)
            if k is not None:
                return k
        return fn(n, x)
    if n == 'fract':
        return x - fn('trunc', x)
    if n == 'powi':
        k = integer(I, args[1])
        if k.is_const() and abs(k.const()) <= 12:
            return x ** int(k.const())
        return A(('fn', 'powi', (x, k)))
    if n == 'powf':
        k = real(I, args[1])
        if k.is_const():
            c = k.const()
            if c.denominator == 1 and abs(c) <= 12:
                return x ** int(c)
            if c.denominator == 2 and abs(c) <= 6:
                return fn('sqrt', x) ** int(c * 2)
        return A(('fn', 'powf', (x, k)))
    if n == 'recip':
        return inv(x)
    if n == 'sin_cos':
        return Tup([fn('sin', x), fn('cos', x)])
    if n == 'mul_add':
        return x * real(I, args[1]) + real(I, args[2])
    if n == 'hypot':
        y = real(I, args[1])
        return fn('sqrt', x * x + y * y)
    if n == 'atan2':
        return A(('fn', 'atan2', (x, real(I, args[1]))))
    if n in ('max', 'min', 'maximum', 'minimum'):
        return fn(n[:3], x, real(I, args[1]))
    if n == 'clamp':
        return fn('min', fn('max', x, real(I, args[1])), real(I, args[2]))
    if n == 'to_radians':
        return x * PI / 180
    if n == 'to_degrees':
        return x * 180 / PI
    if n == 'rem_euclid':
        return A(('fn', 'fmod_e', (x, real(I, args[1]))))
    if n in ('is_sign_negative', 'is_sign_positive'):
        c = lt0(x)
        return c if n.endswith('negative') else bnot(c)
    if n in ('is_nan', 'is_infinite', 'is_finite') and finite(x):
        return TRUE if n == 'is_finite' else FALSE
    return NotImplemented


def finite(x):
    """a real number in every environment: nothing in it can divide by zero or leave its domain"""
    for p in [x]:
        for a in alg.deep_atoms(p) | set(p.atoms()):
            t = alg.atom_of(a)
            if t[0] in ('sym', 'const', 'sel', 'draw', 'bv', 'ite', 'sum') or t[:2] == ('opq', 'parsed'):
                continue
            if t[0] == 'fn' and (t[1] in ('sin', 'cos', 'tanh', 'atan', 'atan2', 'exp', 'abs', 'min', 'max', 'floor', 'ceil', 'round', 'trunc') or t[1].startswith(('obs:', 'spin'))):
                continue
            return False
        if not sized(p):
            return False
    return True


def sized(p, seen=None):
    """divides by sizes and positive constants only"""
    seen = set() if seen is None else seen
    for m in p.d:
        for a, e in m:
            if e < 0 and not (alg.atom_of(a)[0] == 'sym' and alg.atom_of(a)[2] == 'int'):
                return False
            if a in seen:
                continue
            seen.add(a)
            for y in alg.atom_of(a)[1:]:
                for q in ([y] if isinstance(y, P) else y if isinstance(y, tuple) else ()):
                    if isinstance(q, P) and not sized(q, seen):
                        return False
    return True


def nonneg(I, x):
    return Simp(I.facts).b(lt0(x)) is FALSE


WORD = {'usize': 64, 'u64': 64, 'u32': 32}
BITFN = {'next_power_of_two': 'npow2', 'is_power_of_two': 'npow2', 'ilog2': 'ilog2', 'ilog10': 'ilog10', 'isqrt': 'isqrt',
         'count_ones': 'popcnt', 'trailing_zeros': 'tz', 'leading_zeros': 'ilog2'}
alg.INTFN.update(set(BITFN.values()) | {'band', 'bor', 'bxor', 'shl', 'shr'})


def int_fn(I, ty, n, args):
    if not args:
        return NotImplemented
    a = deref_all(I, args[0])
    if not isinstance(a, P):
        a = I.opaque_num(a, 'int', 'arg')
    b = integer(I, args[1]) if len(args) > 1 else None
    if n == 'rem_euclid':
        return fn('imod', a, b)
    if n == 'div_euclid':
        return fn('idiv', a, b)
    if n == 'pow':
        if b.is_const() and 0 <= b.const() <= 12:
            return a ** int(b.const())
        return A(('fn', 'ipow', (a, b)))
    if n == 'abs':
        return fn('abs', a)
    if n == 'abs_diff':
        return fn('abs', a - b)
    if n == 'wrapping_sub' and ty in WORD:
        return I.narrow('wrap', a - b, WORD[ty], False)
    if n in BITFN and b is None:
        if n == 'is_power_of_two':
            return eq(fn('npow2', a), a) if Simp(I.facts).b(lt(ZERO, a)) is TRUE else band(lt(ZERO, a), eq(fn('npow2', a), a))
        if n == 'leading_zeros':
            return num(WORD.get(ty, 64) - 1) - fn('ilog2', a)
        return fn(BITFN[n], a)
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'saturating_add', 'saturating_mul'):
        return a + b if n.endswith('add') else a - b if n.endswith('sub') else a * b
    if n == 'saturating_sub':
        if ty[0] == 'i':
            return a - b
        return ite(lt(a, b), ZERO, a - b)
    if n == 'checked_sub' and ty[0] == 'u':
        return gate(lt(a, b), NONE, some(a - b))
    if n in ('checked_add', 'checked_mul'):
        return some(a + b if n.endswith('add') else a * b)
    if n in ('checked_rem', 'checked_div'):
        return gate(eq(b, ZERO), NONE, some(fn('imod' if n.endswith('rem') else 'idiv', a, b)))
    if n == 'is_multiple_of':
        return eq(fn('imod', a, b), ZERO)
    if n == 'div_ceil':
        return fn('idiv', a + b - 1, b)
    if n in ('max', 'min'):
        return fn(n, a, b)
    return NotImplemented


def concat(a, b):
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) + len(b.v) <= 16:
        return Tup(a.v + b.v)
    if isinstance(a, Tup) and not a.v:
        return b
    la, lb = arr_len(a), arr_len(b)
    if la is None or lb is None:
        return Opq('concat', (a, b))
    aa = a if isinstance(a, Arr) else Arr(la, 'map', lambda i: arr_at(a, i))
    return Arr(la + lb, 'concat', aa, b)


def slen(I, r):
    x = deref_all(I, r)
    n = arr_len(x)
    if n is None:
        if isinstance(x, Str) and all(isinstance(p, str) for p in x.parts):
            return num(len(''.join(x.parts)))
        n = I.opaque_num(Opq('len', (x,)), 'int', 'len')
        BOUNDS.setdefault(single(n), [-n])
    return n


def base_ref(I, r):
    while isinstance(r, Ref):
        x = I.load(r)
        if isinstance(x, Ref):
            r = x
        else:
            break
    return r


def slice_fn(I, n, fr, args, t):
    r = base_ref(I, args[0])
    if n in ('iter', 'iter_mut'):
        if isinstance(r, Ref):
            s = seq_of_ref(I, r)
            return s if s is not None else NotImplemented
        if isinstance(r, Gate):
            return gmap_seq(I, r)
        return to_seq(I, r)
    if n == 'len':
        return slen(I, r)
    if n == 'is_empty':
        return eq(slen(I, r), ZERO)
    if n == 'to_vec' or n == 'into_vec':
        return deref_all(I, r)
    if n == 'as_slice':
        return r
    if n == 'swap' and isinstance(r, Ref):
        i, k = integer(I, args[1]), integer(I, args[2])
        if I.checked:
            within(I, r, i, t)
            within(I, r, k, t)
        ra, rb = ref_elem(r, i), ref_elem(r, k)
        a, b = I.load(ra), I.load(rb)
        I.store(ra, b)
        I.store(rb, a)
        return UNIT
    if n == 'fill' and isinstance(r, Ref):
        v = args[1]
        ln = slen(I, r)
        if ln.is_const() and ln.const() <= 16:
            I.store(r, Tup([v] * int(ln.const())))
        else:
            I.store(r, Arr(ln, 'map', lambda i: v))
        return UNIT
    if n in ('copy_from_slice', 'clone_from_slice') and isinstance(r, Ref):
        I.store(r, deref_all(I, args[1]))
        return UNIT
    if n in ('first', 'last', 'first_mut', 'last_mut') and isinstance(r, Ref):
        ln = slen(I, r)
        i = ZERO if n.startswith('first') else ln - 1
        return gate(Simp(I.facts).b(lt0(-ln)), some(ref_elem(r, i)), NONE)
    if n in ('get', 'get_mut') and isinstance(r, Ref):
        ix = deref_all(I, args[1])
        if isinstance(ix, P):
            return gate(Simp(I.facts).b(lt(ix, slen(I, r))), some(ref_elem(r, ix)), NONE)
        return NotImplemented
    if n in ('get_unchecked', 'get_unchecked_mut') and isinstance(r, Ref):
        if I.checked:
            within(I, r, args[1], t)
        return index_fn(I, r, args[1])
    if n == 'windows' and isinstance(r, Ref):
        w = integer(I, args[1])
        ln = slen(I, r)
        return Seq(rng_len(I, w, ln + 1), lambda I2, k: gmap(r, lambda x: ref_ext(x, ('sl', k, w))))
    if n in ('chunks_exact', 'chunks', 'chunks_exact_mut', 'chunks_mut') and isinstance(r, Ref):
        w = integer(I, args[1])
        ln = slen(I, r)
        if fn('imod', ln, w).is_zero() or 'exact' in n:
            return Seq(fn('idiv', ln, w), lambda I2, k: gmap(r, lambda x: ref_ext(x, ('sl', k * w, w))))
        return NotImplemented
    if n in ('split_at', 'split_at_mut') and isinstance(r, Ref):
        m = integer(I, args[1])
        ln = slen(I, r)
        if I.checked:
            I.must('bounds', bor(lt(m, ZERO), lt(ln, m)), t['sp'], cur(I))
        return Tup([gmap(r, lambda x: ref_ext(x, ('sl', ZERO, m))), gmap(r, lambda x: ref_ext(x, ('sl', m, ln - m)))])
    if n in ('join', 'concat'):
        al, sep = deref_all(I, args[0]), (deref_all(I, args[1]) if len(args) > 1 else Str([]))
        if isinstance(al, Arr) and al.len.is_const() and al.len.const() <= 64:
            al = Tup([al.at(num(i)) for i in range(int(al.len.const()))])
        if isinstance(al, Tup) and isinstance(sep, Str):
            el = [deref_all(I, x) for x in al.v]
            if all(isinstance(x, Str) for x in el):
                out = []
                for i, x in enumerate(el):
                    if i:
                        out.append(sep)
                    out.append(x)
                return Str(out)
        return Str([Opq('join', tuple(deref_all(I, a) for a in args))])
    if n == 'map':
        v = deref_all(I, args[0])
        if isinstance(v, Tup):
            return Tup([I.call_value(args[1], [x], t) for x in v.v])
    return NotImplemented


def gmap_seq(I, r):
    if isinstance(r, Gate):
        return gate(r.c, gmap_seq(I, r.a), gmap_seq(I, r.b))
    return seq_of_ref(I, r) or Opq('iter', (r,))


def within(I, base, ix, t):
    """what an index operation requires"""
    r = base_ref(I, base) if isinstance(base, Ref) else base
    if isinstance(r, Gate):
        pc = I.pc
        try:
            I.pc = band(pc, r.c)
            within(I, r.a, ix, t)
            I.pc = band(pc, bnot(r.c))
            within(I, r.b, ix, t)
        finally:
            I.pc = pc
        return
    if not isinstance(r, Ref):
        r = I.spill(r)
    ix = deref_all(I, ix)
    n = slen(I, r)
    if isinstance(n, P) and isinstance(ix, P):
        fails = bor(lt(ix, ZERO), le(n, ix))
    else:
        rb = range_bounds(I, ix, n) if isinstance(n, P) else None
        if rb is not None:
            lo, ln = rb
            fails = bor(lt(ln, ZERO), lt(n, lo + ln))
        else:
            fails = bvar(('opqb', 'index', fresh()))
    I.must('bounds', fails, t['sp'], cur(I))


def index_fn(I, base, ix):
    r = base
    if isinstance(r, Ref):
        r = base_ref(I, r)
    elif isinstance(r, Gate):
        return gate(r.c, index_fn(I, r.a, ix), index_fn(I, r.b, ix))
    else:
        r = I.spill(r)
    ix = deref_all(I, ix)
    if isinstance(ix, P):
        return gmap(r, lambda x: ref_ext(x, ('i', ix)))
    n = slen(I, r)
    rb = range_bounds(I, ix, n)
    if rb is not None:
        lo, ln = rb
        if isinstance(ix, (St, Tup)) and (ix.path.endswith('RangeFull') if isinstance(ix, St) else True):
            return r
        return gmap(r, lambda x: ref_ext(x, ('sl', lo, ln)))
    if isinstance(ix, Opq) or isinstance(ix, Gate):
        q = I.opaque_num(ix, 'int', 'index')
        return gmap(r, lambda x: ref_ext(x, ('i', q)))
    return NotImplemented


def vec_fn(I, n, fr, args, t):
    if n in ('new', 'with_capacity'):
        return Tup(())
    r = base_ref(I, args[0])
    if n == 'len':
        return slen(I, r)
    if n == 'is_empty':
        return eq(slen(I, r), ZERO)
    if n == 'push' and isinstance(r, Ref):
        I.store(r, push(I.load(r), args[1]))
        return UNIT
    if n == 'clear' and isinstance(r, Ref):
        I.store(r, Tup(()))
        return UNIT
    if n in ('reserve', 'shrink_to_fit', 'reserve_exact'):
        return UNIT
    if n == 'extend_from_slice' and isinstance(r, Ref):
        I.store(r, concat(I.load(r), deref_all(I, args[1])))
        return UNIT
    if n == 'append' and isinstance(r, Ref):
        I.store(r, concat(I.load(r), deref_all(I, args[1])))
        I.store(args[1], Tup(()))
        return UNIT
    if n == 'pop' and isinstance(r, Ref):
        v = I.load(r)
        if isinstance(v, Tup):
            if not v.v:
                return NONE
            I.store(r, Tup(v.v[:-1]))
            return some(v.v[-1])
        return NotImplemented
    if n in ('into_boxed_slice',):
        return args[0]
    if n == 'truncate' and isinstance(r, Ref):
        v = I.load(r)
        m = integer(I, args[1])
        ln = arr_len(v)
        if ln is None:
            return NotImplemented
        I.store(r, Arr(Simp(I.facts).p(fn('min', ln, m)), 'map', lambda i: arr_at(v, i)))
        return UNIT
    if n == 'resize' and isinstance(r, Ref):
        v, m, x = I.load(r), integer(I, args[1]), args[2]
        ln = arr_len(v)
        if ln is None:
            return NotImplemented
        if ln.is_zero():
            I.store(r, Arr(m, 'map', lambda i: x))
        else:
            I.store(r, Arr(m, 'map', lambda i: gate(lt(i, ln), arr_at(v, i), x)))
        return UNIT
    if n == 'drain' and isinstance(r, Ref):
        v = I.load(r)
        ix = deref_all(I, args[1])
        if isinstance(ix, St) and ix.path.endswith('RangeFull'):
            I.store(r, Tup(()))
            return to_seq(I, v)
    return NotImplemented


def opt_fn(I, n, path, fr, args, t):
    v = args[0]
    isopt = 'Option' in path
    if n in ('unwrap', 'expect', 'unwrap_unchecked', 'unwrap_or_default'):
        if n == 'unwrap_or_default':
            return NotImplemented
        if I.checked and isopt:
            c = is_pos(I, v)
            I.must('unwrap', bnot(c) if isinstance(c, B) else bvar(('opqb', 'unwrap', fresh())), t['sp'], cur(I))
        return payload(I, v)
    if n in ('is_some', 'is_ok', 'is_none', 'is_err'):
        c = is_pos(I, v)
        return c if n in ('is_some', 'is_ok') else bnot(c)
    if n == 'unwrap_or':
        c = is_pos(I, v)
        p = payload(I, v)
        d = args[1]
        if isinstance(d, P) and not isinstance(p, P):
            p = I.opaque_num(p, 'int' if is_int(d) else 'real', 'unwrap_or')
        if isinstance(d, B) and not isinstance(p, B):
            p = I.opaque_bool(p)
        return gate(c, p, d)
    if n == 'unwrap_or_else':
        c = is_pos(I, v)
        d = gated(I, bnot(c), lambda: I.call_value(args[1], [] if isopt else [payload_err(v)], t))
        return gate(c, payload(I, v), d)
    if n in ('as_ref', 'as_mut', 'as_deref'):
        r = args[0]
        x = I.load(r) if isinstance(r, Ref) else r
        c = is_pos(I, x)
        name = 'Some' if isopt else 'Ok'
        if isinstance(r, Ref) and not isinstance(x, Opq):
            pr = Ref(r.root, r.path + (('dc', 1 if isopt else 0, name), ('f', '0')))
        else:
            pr = payload(I, x)
        pos = some(pr) if isopt else ok(pr)
        neg = NONE if isopt else err(Opq('err', (x,)))
        return gate(c, pos, neg)
    if n == 'map':
        c = is_pos(I, v)
        r = gated(I, c, lambda: I.call_value(args[1], [payload(I, v)], t))
        return gate(c, some(r) if isopt else ok(r), NONE if isopt else err(Opq('err', (v,))))
    if n == 'map_or':
        c = is_pos(I, v)
        r = gated(I, c, lambda: I.call_value(args[2], [payload(I, v)], t))
        return gate(c, r, args[1])
    if n == 'map_or_else':
        c = is_pos(I, v)
        r = gated(I, c, lambda: I.call_value(args[2], [payload(I, v)], t))
        d = gated(I, bnot(c), lambda: I.call_value(args[1], [] if isopt else [payload_err(v)], t))
        return gate(c, r, d)
    if n == 'and_then':
        c = is_pos(I, v)
        r = gated(I, c, lambda: I.call_value(args[1], [payload(I, v)], t))
        return gate(c, r, NONE if isopt else err(Opq('err', (v,))))
    if n == 'ok':
        c = is_pos(I, v)
        return gate(c, some(payload(I, v)), NONE)
    if n == 'or':
        return gate(is_pos(I, v), v, args[1])
    if n == 'and':
        return gate(is_pos(I, v), args[1], NONE if isopt else err(Opq('err', (v,))))
    if n in ('filter', 'is_some_and', 'is_ok_and', 'is_none_or', 'is_err_and') and not isinstance(v, Ref):
        c = is_pos(I, v)
        if n == 'is_err_and':
            return NotImplemented
        p = payload(I, v)
        if n == 'filter':
            p = cell(I, p)
        r = gated(I, c, lambda: I.call_value(args[1], [p], t))
        if isinstance(r, Gate):
            r = bite(r.c, I.opaque_bool(r.a), I.opaque_bool(r.b))
        r = I.opaque_bool(r)
        if n == 'is_none_or':
            return bor(bnot(c), r)
        r = band(c, r)
        return gate(r, v, NONE) if n == 'filter' else r
    if n == 'inspect' and not isinstance(v, Ref):
        c = is_pos(I, v)
        p = cell(I, payload(I, v))
        gated(I, c, lambda: I.call_value(args[1], [p], t))
        return v
    if n == 'xor' and isopt:
        w = args[1]
        a, b = is_pos(I, v), is_pos(I, w)
        return gate(a, gate(b, NONE, v), gate(b, w, NONE))
    if n == 'zip' and isopt:
        w = args[1]
        return gate(band(is_pos(I, v), is_pos(I, w)), some(Tup([payload(I, v), payload(I, w)])), NONE)
    if n == 'or_else':
        c = is_pos(I, v)
        r = gated(I, bnot(c), lambda: I.call_value(args[1], [] if isopt else [payload_err(v)], t))
        return gate(c, v, r)
    if n in ('copied', 'cloned'):
        c = is_pos(I, v)
        return gate(c, some(load1(I, payload(I, v))), NONE)
    if n in ('ok_or', 'ok_or_else'):
        c = is_pos(I, v)
        return gate(c, ok(payload(I, v)), err(Opq('err', (v,))))
    if n == 'take' and isinstance(v, Ref):
        x = I.load(v)
        I.store(v, NONE)
        return x
    return NotImplemented


def cell(I, x):
    root = ('FE', I.heap)
    I.heap += 1
    I.mem[root] = x
    return Ref(root)


def payload_err(v):
    if isinstance(v, St) and v.vname == 'Err':
        return v.f['0']
    return Opq('err', (v,))
