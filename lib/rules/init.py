"""Construction of chains."""
from .spec import *
from .physics import *
from .sampler import patom, uniforms, check_proposal, Samp
from alg import PI, Simp, deep_atoms, atom_of, single
import alg
import core
import gsa
import neval
import models


def rp_model(I, fr, path, j, args, t):
    """rotation of a spin (given by angles) by an angle about an axis: an abstract result, the arguments recorded"""
    old = [arr_at(models.deref_all(I, args[0]), num(c)) for c in range(2)]
    ax = [arr_at(models.deref_all(I, args[1]), num(c)) for c in range(3)]
    I.seq += 1
    r = Tup([A(('draw', 'rotperp%d' % c, (), I.seq, tuple(I.loopk))) for c in range(2)])
    models.emit(I, 'rot_perp', [Tup(old), Tup(ax), args[2], r], t)
    return r


def flat_events(evs, loops=()):
    for e in evs:
        if e.kind == 'loop':
            yield from flat_events(e.body, loops + (e,))
        elif e.body is not None:
            yield e, loops
            yield from flat_events(e.body, loops + (e,))
        else:
            yield e, loops


def new_chain(ctx, which, **more):
    H, s = sym('H', 'int'), sym('S', 'int')
    f = Facts().add_le(num(4) - H).add_le(num(1) - s).add_le(s - H)
    pre = dict(CHAINS)[which]
    ov = {'conf.hsize': H, 'conf.ssize': s, 'conf.hs.len': num(3), 'conf.hfield.len': num(3)}
    ov.update(('conf.' + k, v) for k, v in more.items())
    I = ctx.run(pre + 'new', ov=ov, facts=f, mods={SPIN + 'rot_perp': rp_model}, names=('conf', 'num', 'gamma'))
    return H, s, f, I, ctx.where(pre + 'new')


def cv(name, *p, kind='real'):
    return sel('conf', name, *p, kind=kind)


def disorder(ctx, name, got, mean, sd, f, w):
    """got = mean + sd * (one standard normal)"""
    ds = sorted(a for a in deep_atoms(got) if atom_of(a)[0] == 'draw')
    ns = [a for a in ds if atom_of(a)[1] == 'normal']
    if neval.has_opq(got):
        ctx.undecided(name, 'not resolved', w)
        return None
    d = patom(ns[0]) if len(ns) == 1 else A(('draw', 'normal', (ZERO, ONE), 'missing', ()))
    sg = 1
    co = got.d and sum(1 for m, q in got.d.items() if ns and any(a == ns[0] for a, _ in m) and q < 0)
    if co:
        sg = -1
    ctx.eq(name, got, mean + sd * d * sg, f, w)
    return ns[0] if len(ns) == 1 else None


def P17(ctx):
    ctx.rule('couplings are (1,1,lambda) plus independent N(0,jvar) disorder; static fields hfield (+hs on the subsystem) plus N(0,hvar); sizes, clock and settings as configured')
    for which in ('spinchain', 'langevin'):
        H, s, f, I, w = new_chain(ctx, which)
        if I is None or not isinstance(I.ret, St):
            if I is not None:
                ctx.undecided(which + '::new', 'result not resolved', w)
            continue
        r = I.ret
        i = sym('idxi', 'int')
        fi = f.add_le(-i).add_le(i - H + 1)
        seen = {}
        for c in range(3):
            g = core.as_num(arr_at(arr_at(r.f['j_couple'], i), num(c)))
            if g is None:
                ctx.undecided('%s: coupling %d' % (which, c), 'not resolved', w)
                continue
            seen['J%d' % c] = disorder(ctx, '%s: coupling component %d' % (which, c), g, ONE if c < 2 else cv('lambda'), cv('jvar'), fi, w)
        for c in range(3):
            g = core.as_num(arr_at(arr_at(r.f['static_h'], i), num(c)))
            if g is None:
                ctx.undecided('%s: field %d' % (which, c), 'not resolved', w)
                continue
            for side, b in (('subsystem', True), ('rest', False)):
                fs = assume(fi, lt(i, s), b)
                gg = Simp(fs).p(g)
                seen['H%d%s' % (c, side)] = disorder(ctx, '%s: static field component %d on the %s' % (which, c, side), gg,
                                                     cv('hfield', c) + (cv('hs', c) if b else ZERO), cv('hvar'), fs, w)
        ks = [k for k, v in seen.items() if v is not None]
        for grp in (('J0', 'J1', 'J2', 'H0subsystem', 'H1subsystem', 'H2subsystem'), ('J0', 'J1', 'J2', 'H0rest', 'H1rest', 'H2rest')):
            vals = [seen[k] for k in grp if seen.get(k) is not None]
            if len(vals) != len(set(vals)):
                ctx.violated('%s: disorder components are independent' % which, 'one random number is used for two components', w)
            elif len(vals) == 6:
                # one number per site
                per = all(depends_on(v, i) for v in vals)
                (ctx.proved if per else ctx.violated)('%s: disorder components are independent (%s)' % (which, grp[3][2:]),
                                                      'six draws per site' if per else 'the same random number is used on every site', w)
        for fld in ('spins', 'j_couple', 'static_h'):
            ctx.eq('%s: number of %s' % (which, fld), arr_len(r.f[fld]), H, f, w)
        ctx.eq('%s: clock starts at -trel' % which, r.f['t'], -cv('trel'), f, w)
        if which == 'langevin':
            ctx.eq('langevin: gamma', r.f['gamma'], sel('gamma') if False else A(('sel', 'gamma', (), 'real')), f, w)
        vars_kept(ctx, which, r.f['vars'], H, s, f, w)


CONF_NUM = ['t', 'dt', 'trel', 'tau', 'lambda', 'jvar', 'hvar', 'ednsty', 'beta', 'e']


def vars_kept(ctx, which, v, H, s, f, w):
    for k in CONF_NUM:
        ctx.eq('%s: setting %s kept' % (which, k), rd(v, (('f', k),)), cv(k), f, w)
    ctx.eq('%s: setting hsize kept' % which, rd(v, (('f', 'hsize'),)), H, f, w)
    ctx.eq('%s: setting ssize kept' % which, rd(v, (('f', 'ssize'),)), s, f, w)


def assume(f, b, val):
    """facts extended by the truth value of a one-variable condition"""
    if b.hi is alg.TRUE and b.lo is alg.FALSE:
        return f.with_(b.v, val)
    assert b.hi is alg.FALSE and b.lo is alg.TRUE
    return f.with_(b.v, not val)


def depends_on(a, i):
    return any(x == single(i) for t in [atom_of(a)] for q in flat(t) for x in deep_atoms(q))


def flat(t):
    for x in t:
        if isinstance(x, P):
            yield x
        elif isinstance(x, tuple):
            yield from flat(x)


def arr_len(v):
    import gsa
    return gsa.arr_len(v)


def P04(ctx):
    ctx.rule('gs: component of the second vector orthogonal to the first, normalised')
    o, p = [sym('o%d' % c) for c in range(3)], [sym('p%d' % c) for c in range(3)]
    path = SPIN + 'gs'
    mem = {('P', 'o'): Tup(o), ('P', 'p'): Tup(p)}
    I = ctx.run(path, [Ref(('P', 'o')), Ref(('P', 'p'))], mem=mem)
    w = ctx.where(path)
    if I is not None:
        oo = dot3(o, o)
        d = [p[c] - o[c] * dot3(p, o) * inv(oo) for c in range(3)]
        ctx.vec('gs', I.ret, [x * inv(fn('sqrt', dot3(d, d))) for x in d], None, w)
    ctx.rule('rot_perp: precession of the old spin by the given angle about the axis orthogonalised against it')
    path = SPIN + 'rot_perp'
    th, ph, an = sym('th'), sym('ph'), sym('angle')
    mem = {('P', 'a'): Tup([th, ph]), ('P', 'd'): Tup(p)}

    def gs_model(I, fr, path, j, args, t):
        a = [arr_at(models.deref_all(I, args[0]), num(c)) for c in range(3)]
        b = [arr_at(models.deref_all(I, args[1]), num(c)) for c in range(3)]
        return Tup([A(('fn', 'gs%d' % c, tuple(a + b))) for c in range(3)])
    s0 = [fn('cos', th) * fn('sin', ph), fn('sin', th) * fn('sin', ph), fn('cos', ph)]
    w = ctx.where(path)
    I = ctx.run(path, [Ref(('P', 'a')), Ref(('P', 'd')), an], mem=mem,
                mods={SPIN + 'gs': gs_model, SPIN + 'rotate': rot_model, SPIN + 'theta': theta_model, SPIN + 'phi': phi_model})
    if I is not None:
        ax = [A(('fn', 'gs%d' % c, tuple(s0 + p))) for c in range(3)]
        # the sense of rotation about a randomly chosen axis is immaterial
        cands = [[A(('fn', n, tuple(rot(s0, ax, an * sg)))) for n in ('theta', 'phi')] for sg in (1, -1)]
        got = [core.as_num(arr_at(I.ret, num(c))) for c in range(2)]
        k = 0
        for q, cd in enumerate(cands):
            if got[0] is not None and alg.equal(got[0], cd[0]).ok:
                k = q
        for c in range(2):
            ctx.eq('rot_perp[%d]' % c, got[c], cands[k][c], None, w)
    ctx.rule('initial spins: each is the previous one turned by an angle with cos = ln(e^b - u (e^b - e^-b))/b about an axis uniform on the sphere')
    for which in ('spinchain', 'langevin'):
        H, s, f, I, w = new_chain(ctx, which)
        if I is None:
            continue
        fb = assume(f, alg.eq(cv('beta'), ZERO), False)
        evs = [(e, l) for e, l in flat_events(I.events) if e.callee == 'rot_perp']
        if len(evs) != 1 or not isinstance(I.ret, St):
            ctx.undecided(which + ': initial spins', '%d rotations found' % len(evs), w)
            continue
        e, loops = evs[0]
        old, ax, ang, res = e.args
        ang = Simp(fb).p(ang)
        # uniform axis
        r = Samp()
        r.nm, r.w, r.f = which + ': rotation axis', w, f
        r.new = [core.as_num(arr_at(ax, num(c))) for c in range(3)]
        if any(x is None for x in r.new):
            ctx.undecided(r.nm, 'not resolved', w)
            continue
        check_proposal(ctx, r)
        au = set(sum((uniforms(x) for x in r.new), []))
        us = uniforms(ang)
        if len(us) != 1 or us[0] in au:
            ctx.violated(which + ': rotation angle uses its own random number', 'it uses %d (shared: %s)' % (len(us), bool(set(us) & au)), w)
            continue
        b = cv('beta')
        signs(ctx, which, ang, b, f, fb, w)
        # at infinite temperature, the limit: flat in the cosine
        I0 = new_chain(ctx, which, beta=ZERO)[3]
        e0 = [e for e, l in flat_events(I0.events) if e.callee == 'rot_perp'] if I0 is not None else []
        if len(e0) != 1:
            ctx.undecided(which + ': initial spins at infinite temperature', '%d rotations found' % len(e0), w)
        else:
            angle(ctx, which + ': distribution of the rotation angle at infinite temperature', e0[0].args[2], lambda x: x * 2 - 1, f, w)
        # each spin is the rotated one, built from the two angles
        k = e.info['k'][-1] if e.info['k'] else None
        i = sym('idxi', 'int')
        fi = f.add_le(-i).add_le(i - H + 1)
        if k is None:
            ctx.undecided(which + ': initial spins', 'rotation not inside the site loop', w)
            continue
        t_, p_ = [subst(arr_at(res, num(c)), {single(k): i}) for c in range(2)]
        want = [fn('cos', t_) * fn('sin', p_), fn('sin', t_) * fn('sin', p_), fn('cos', p_)]
        ctx.vec(which + ': initial spin', rd(arr_at(I.ret.f['spins'], i), (('f', 'dir'),)), want, fi, w)
        # the chain of rotations: the spin turned is the previous result
        for c in range(2):
            prev = subst(arr_at(res, num(c)), {single(k): k - 1})
            g = core.as_num(arr_at(old, num(c)))
            fk = f.add_le(num(1) - k).add_le(k - H + 1)
            if g is None:
                ctx.undecided('%s: rotated spin is the previous one [%d]' % (which, c), 'not resolved', w)
            else:
                ctx.eq('%s: rotated spin is the previous one [%d]' % (which, c), g, prev, fk, w)


def signs(ctx, which, ang, b, f, fb, w):
    """the turn at a finite temperature, for positive and for negative temperatures: as one function if it is written as one"""
    nm = which + ': distribution of the rotation angle'
    def raw(x):
        return fn('ln', fn('exp', b) - x * (fn('exp', b) - inv(fn('exp', b)))) * inv(b)
    us = uniforms(ang)
    u = patom(us[0])
    c = fn('cos', ang)
    if any(alg.equal(c, raw(x), fb).ok for x in (u, ONE - u)):
        angle(ctx, nm, ang, raw, fb, w)
    else:
        at = single(b)
        for sg, word in ((1, 'positive'), (-1, 'negative')):
            x0 = sym('bmod')
            alg.POS.add(single(x0))
            fs = assume(assume(fb, alg.lt(b, ZERO), sg < 0), alg.lt(ZERO, b), sg > 0)
            g = Simp(fs).p(ang)
            g = subst(g, {at: x0 * sg})
            g = subst(g, {single(fn('abs', x0)): x0}) if len(fn('abs', x0).d) == 1 and not fn('abs', x0).is_const() else g
            g = signed(g, x0)
            E = fn('exp', x0)
            def near(x):     # with the exponentials of one sign only
                return (ONE + fn('ln', ONE - x + x * inv(E * E)) * inv(x0)) * sg
            def near2(x):
                return (fn('ln', E * E * (ONE - x) + x) * inv(x0) - 1) * sg
            def one(x):
                return fn('ln', E - x * (E - inv(E))) * inv(x0) * sg
            c = fn('cos', g)
            ws = [q for q in (near, near2, one) for x in (u, ONE - u) if alg.equal(c, q(x), f).ok]
            angle(ctx, '%s, %s temperature' % (nm, word), g, ws[0] if ws else one, f, w)
    # every finite temperature gives an angle
    n, bad = 0, None
    for beta in (1e-3, 1.0, 30.0, 354.5, 700.0, 720.0, 1e3, 1e5, 1e9):
        for sg in (1, -1):
            for uv in (0.001, 0.3, 0.77, 0.999):
                try:
                    v = ieee(ang, {single(b): beta * sg, us[0]: uv}, {})
                except KeyError:
                    v = None
                if v is None:
                    ctx.undecided(which + ': rotation angle at every temperature', 'not resolved', w)
                    return
                n += 1
                if v != v and bad is None:
                    bad = (beta * sg, uv)
    if bad:
        ctx.violated(which + ': rotation angle at every temperature',
                     'no number (overflow) at inverse temperature %g, with random number %g' % bad, w)
    else:
        ctx.proved(which + ': rotation angle at every temperature', 'no overflow into NaN from |beta| = 1e-3 to 1e9 (%d points)' % n, w)


def signed(p, x0):
    """signum and abs of a positive symbol"""
    m = {}
    for a in alg.deep_atoms(p):
        t = atom_of(a)
        if t[0] == 'fn' and t[1] in ('signum', 'abs') and t[2][0] in (x0, -x0):
            m[a] = x0 if t[1] == 'abs' else (ONE if t[2][0] == x0 else -ONE)
    return subst(p, m) if m else p


def ieee(p, at, memo):
    """value with the overflow of floats: infinities, and NaN from their differences and from functions outside their domain"""
    import math
    nan, inf_ = math.nan, math.inf

    def power(a, e):
        t = atom_of(a)
        if t[0] == 'fn' and t[1] == 'exp':
            return expo(go(t[2][0]) * e)
        v = atom(a)
        if v == 0 and e < 0:
            return inf_
        try:
            return v ** e
        except OverflowError:
            return inf_

    def expo(x):
        try:
            return math.exp(x)
        except OverflowError:
            return inf_

    def go(p):
        s = 0.0
        for m, c in p.d.items():
            t = float(c)
            for a, e in m:
                t *= power(a, e)
            s += t
        return s

    def cond(c):
        while c is not alg.TRUE and c is not alg.FALSE:
            t = alg.batom_of(c.v)
            if t[0] not in ('lt0', 'le0', 'eq0'):
                raise KeyError(t[0])
            x = go(t[1])
            v = x < 0 if t[0] == 'lt0' else x <= 0 if t[0] == 'le0' else x == 0
            c = c.hi if v else c.lo
        return c is alg.TRUE

    def atom(a):
        if a in at:
            return at[a]
        t = atom_of(a)
        if t[0] == 'const':
            return math.pi
        if t[0] == 'inv':
            v = go(t[1])
            return inf_ if v == 0 else 1.0 / v
        if t[0] == 'ite':
            b = alg.bvar_i(t[1]) if isinstance(t[1], int) else t[1]
            return go(t[2]) if cond(b) else go(t[3])
        if t[0] != 'fn':
            raise KeyError(t[0])
        x = [go(q) for q in t[2]]
        n = t[1]
        if any(v != v for v in x) and n not in ('max', 'min'):
            return nan
        if n == 'exp':
            return expo(x[0])
        if n == 'ln':
            return nan if x[0] < 0 else -inf_ if x[0] == 0 else math.log(x[0])
        if n in ('acos', 'asin'):
            if abs(x[0]) > 1 and abs(x[0]) < 1 + 1e-9:
                x[0] = math.copysign(1.0, x[0])
            return nan if abs(x[0]) > 1 else getattr(math, n)(x[0])
        if n == 'abs':
            return abs(x[0])
        if n == 'signum':
            return math.copysign(1.0, x[0])
        if n == 'sqrt':
            return nan if x[0] < 0 else math.sqrt(x[0])
        if n in ('max', 'min'):
            x = [v for v in x if v == v]
            return (max(x) if n == 'max' else min(x)) if x else nan
        if n in ('sin', 'cos', 'tan'):
            return nan if abs(x[0]) == inf_ else getattr(math, n)(x[0])
        if n in ('sinh', 'cosh'):
            try:
                return getattr(math, n)(x[0])
            except OverflowError:
                return inf_ if n == 'cosh' else math.copysign(inf_, x[0])
        if n in ('tanh', 'atan'):
            return getattr(math, n)(x[0])
        raise KeyError(n)
    return go(p)


def angle(ctx, name, ang, want, f, w):
    """the cosine of an angle is the given function of one uniform random number"""
    us = uniforms(ang)
    if gsa.isnan(ang):
        ctx.violated(name, 'no number: zero divided by zero', w)
        return
    if len(us) != 1:
        ctx.violated(name, 'it uses %d random numbers' % len(us), w)
        return
    u, c = patom(us[0]), fn('cos', ang)
    wants = [want(x) for x in (u, ONE - u)]
    ok = alg.equal(c, wants[1], f).ok
    ctx.eq(name, c, wants[1] if ok else wants[0], f, w)


def theta_model(I, fr, path, j, args, t):
    v = models.deref_all(I, args[0])
    s = rd(v, (('f', 'dir'),))
    return A(('fn', path.split('::')[-1], tuple(arr_at(s, num(i)) for i in range(3))))


phi_model = theta_model
