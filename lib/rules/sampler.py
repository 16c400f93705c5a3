"""Metropolis samplers."""
from .spec import *
from .physics import *
from alg import PI, Simp, bvar, band, bnot, bor, bsupport, brestrict, deep_atoms, atom_of, single
import math
import alg
from alg import Subst
import core
import neval

SAMPLERS = [('spinchain::metropolis_update', SC + 'metropolis_update'),
            ('spinchain::metropolis_update_maglab', SC + 'metropolis_update_maglab'),
            ('spinchain::metropolis_update_rot_magnus', SC + 'metropolis_update_rot_magnus'),
            ('spinchain::metropolis_update_mag_full', SC + 'metropolis_update_mag_full'),
            ('spinchain::metropolis_update_magnus', SC + 'metropolis_update_magnus'),
            ('langevin::metropolis_update', SL + 'metropolis_update'),
            ('langevin::metropolis_update_magnus', SL + 'metropolis_update_magnus')]


class Samp:
    pass


def patom(i):
    return P({((i, 1),): alg.Q(1)})


def sampler(ctx, nm, path, minh=6, square=False, checks=True):
    """value graph of one Metropolis step, taken apart into site, proposal, acceptance and energy change"""
    H, s, f = any_facts(minh)
    ov = sizes(H, s)
    if square:
        s = H
        ov['vars.ssize'] = H
    I = ctx.run(path, ov=ov, facts=f)
    if I is None:
        return None
    r = Samp()
    r.w, r.f, r.H, r.s, r.I, r.nm = ctx.where(path), f, H, s, I, nm
    out = final_spins(I)
    j = sym('idxj', 'int')
    fj = f.add_le(-j).add_le(j - H + 1)
    v = [core.as_num(spin_at(I, out, j, c)) for c in range(3)]
    if any(x is None for x in v):
        if checks:
            ctx.undecided(nm + ': result', 'spins after the step are not resolved', r.w)
        return None
    draws = set()
    for x in v:
        draws |= {a for a in deep_atoms(x) if atom_of(a)[0] == 'draw'}
    rng = sorted(a for a in draws if atom_of(a)[1] == 'range')
    if len(rng) != 1:
        bits = sorted(a for a in draws if atom_of(a)[1] == 'bits')
        if checks and bits and int(atom_of(bits[0])[2][0].const()) <= 16:
            ctx.violated(nm + ': one random site', 'the site is made from %d random bits: the sites are not equally likely'
                         % int(atom_of(bits[0])[2][0].const()), r.w)
        elif checks and bits:
            ctx.undecided(nm + ': one random site', 'the site is made from random bits', r.w)
        elif checks:
            (ctx.violated if not any(neval.has_opq(x) for x in v) else ctx.undecided)(
                nm + ': one random site', 'the step does not draw exactly one site (%d integer draws)' % len(rng), r.w)
        return None
    idx = patom(rng[0])
    if checks and any(atom_of(a)[3:5] == atom_of(rng[0])[3:5] for a in draws if a != rng[0]):
        ctx.violated(nm + ': one random site', 'the site and the proposal share a random number', r.w)
    lo, hi = atom_of(rng[0])[2][:2]
    if checks:
        ctx.eq(nm + ': lowest proposed site', lo, ZERO, f, r.w)
        ctx.eq(nm + ': number of proposed sites', hi, H, f, r.w)
    # sites other than the drawn one
    ne = fj.with_(single_b(eq(j, idx)), False)
    if checks:
        for c in range(3):
            ctx.eq('%s: only the drawn site changes, component %d' % (nm, c), v[c], S(j, c), ne, r.w)
    at = [Simp(f).p(subst(x, {single(j): idx})) for x in v]
    # accept condition and proposal
    acc, new = split_accept(at, idx, f)
    if acc is None:
        if checks:
            ctx.undecided(nm + ': acceptance', 'the drawn site is not a choice between old and new spin', r.w)
        return None
    r.idx, r.acc, r.new = idx, acc, new
    return r


def single_b(b):
    assert b.hi is alg.TRUE and b.lo is alg.FALSE
    return b.v


def split_accept(at, idx, f):
    """write the value at the drawn site as ite(acc, new, old)"""
    acc, new = None, []
    for c in range(3):
        old = S(idx, c)
        d = at[c] - old
        # the condition under which nothing changes
        b = nonzero_cond(d)
        if b is None:
            return None, None
        bb, n = b
        if acc is None:
            acc = bb
        elif bb is not acc:
            return None, None
        new.append(n + old)
    return acc, new


def nonzero_cond(d):
    """d = ite(b, x, 0): (b, x)"""
    ites = [a for a in d.atoms() if atom_of(a)[0] == 'ite']
    if not ites:
        return None
    # explore the decision diagram over the outer conditions of d
    memo = {}

    def go(p, depth):
        if p in memo:
            return memo[p]
        if p.is_zero():
            r = (alg.FALSE, None)
        else:
            v = None
            tops = alg.ite_tops(p)
            if not tops or depth > 12:
                r = (alg.TRUE, p)
            else:
                v = min(atom_of(a)[1] for a in tops)
                h = go(alg.cof_top(p, v, True), depth + 1)
                l = go(alg.cof_top(p, v, False), depth + 1)
                if h is None or l is None:
                    r = None
                elif h[1] is not None and l[1] is not None and h[1] != l[1]:
                    r = (alg.TRUE, p)
                else:
                    r = (alg.node(v, h[0], l[0]), h[1] if h[1] is not None else l[1])
        memo[p] = r
        return r
    r = go(d, 0)
    if r is None or r[1] is None:
        return None
    return r


def uniforms(p):
    return sorted(a for a in deep_atoms(p) if atom_of(a)[0] == 'draw' and atom_of(a)[1] == 'unif')


def check_proposal(ctx, r):
    """the trial spin is uniform on the sphere: one polar component uniform in [-1,1], azimuth uniform, two separate draws"""
    nm, w = r.nm, r.w
    us = sorted(set(sum((uniforms(x) for x in r.new), [])))
    if any(neval.has_opq(x) for x in r.new):
        ctx.undecided(nm + ': trial spin', 'not resolved', w)
        return
    other = {atom_of(a)[1] for x in r.new for a in deep_atoms(x) if atom_of(a)[0] == 'draw'} - {'unif'}
    if len(us) > 2 or other:
        ctx.undecided(nm + ': trial spin', 'drawn by a scheme the rule does not know', w)
        return
    if len(us) < 2:
        ctx.violated(nm + ': trial spin', 'the trial spin depends on %d uniform random number(s); a direction needs two' % len(us), w)
        return
    best = None
    for zc in range(3):
        for zu, au in ((0, 1), (1, 0)):
            for zs in (1, -1):
                z = (ONE - patom(us[zu]) * 2) * zs
                az = PI * 2 * patom(us[au])
                q = fn('sqrt', ONE - z * z)
                c, s_ = fn('cos', az) * q, fn('sin', az) * q
                for (a, b) in ((c, s_), (s_, c)):
                    for sa in (1, -1):
                        for sb in (1, -1):
                            t = [None] * 3
                            t[zc] = z
                            t[(zc + 1) % 3] = a * sa
                            t[(zc + 2) % 3] = b * sb
                            n = sum(1 for k in range(3) if alg.equal(r.new[k], t[k], r.f).ok) if r.new[zc] == z or zc == 2 else 0
                            if best is None or n > best[0]:
                                best = (n, t)
                            if n == 3:
                                ctx.proved(nm + ': trial spin uniform on the sphere', 'two independent draws', w)
                                return
    for k in range(3):
        ctx.eq(nm + ': trial spin uniform on the sphere', r.new[k], best[1][k], r.f, w)


def log_weight(wt):
    """-ln of a product of exponentials; None when it is not one"""
    if len(wt.d) != 1:
        return None
    (m, c), = wt.d.items()
    if c != 1:
        return None
    x = ZERO
    for a, e in m:
        t = atom_of(a)
        if t[0] != 'fn' or t[1] != 'exp':
            return None
        x = x - t[2][0] * e
    return x


def accept_parts(r):
    """(beta*DeltaE, comparison variable) of the acceptance condition, or None"""
    pu = set(sum((uniforms(x) for x in r.new), []))
    for v in bsupport(r.acc):
        t = alg._batom[v]
        if t[0] not in ('lt0', 'le0'):
            continue
        p = t[1]
        us = [a for a in p.atoms() if atom_of(a)[0] == 'draw' and atom_of(a)[1] == 'unif']
        if len(us) != 1:
            continue
        u = us[0]
        co = p.d.get(((u, 1),))
        if co is None:
            continue
        rest = p - patom(u).scale(co)
        wt = rest.scale(-1 / co)
        x = log_weight(wt)
        if x is None:
            continue
        return x, v, u, co > 0, u in pu
    return None


def check_accept(ctx, r):
    nm, w = r.nm, r.w
    a = accept_parts(r)
    if a is None:
        if measured(ctx, r):
            return None
        ctx.undecided(nm + ': acceptance', 'no comparison of a uniform number with a Boltzmann factor recognised: %s' % alg.bshow(r.acc)[:200], w)
        return None
    x, v, u, less, shared = a
    if shared:
        ctx.violated(nm + ': acceptance number is independent of the proposal', 'the same random number is used for both', w)
    if uniforms(x) and u in uniforms(x):
        ctx.violated(nm + ': acceptance number is independent of the energy', 'shared random number', w)
    pos, neg = alg.lt0(-x), alg.lt0(x)
    cmpb = bvar_of(v)
    want_up = cmpb if less else bnot(cmpb)
    acc = r.acc
    # uphill: accept exactly when u < exp(-beta dE)
    beta = var('beta')
    de = x * inv(beta)
    sup = bsupport(acc)
    names = [alg._batom[b] for b in sup if b != v]
    up = cof_sign(acc, de, x, 1)
    down = cof_sign(acc, de, x, -1)
    if up is None or down is None:
        if measured(ctx, r):
            return x
        ctx.undecided(nm + ': acceptance', 'depends on further conditions: %s' % alg.bshow(acc)[:200], w)
        return x
    for name, got, ok, sg in ((nm + ': uphill moves accepted with the Boltzmann probability', up, [want_up], 1),
                              (nm + ': downhill moves always accepted', down, [alg.TRUE, want_up], -1)):
        if any(got is o for o in ok):
            ctx.proved(name, '', w)
            continue
        bad = witness(acc, want_up, de, beta, sg, r.f)
        if bad is None:
            if measured(ctx, r):
                return x
            ctx.undecided(name, 'accepted iff %s' % alg.bshow(got)[:200], w)
        else:
            ctx.violated(name, 'for a %s energy change the move is accepted iff %s; e.g. with %s, dE = %.4g' % (
                'positive' if sg > 0 else 'negative', alg.bshow(got)[:200], core.ints(bad[0]), bad[1]), w)
    return x


def measured(ctx, r):
    """the probability of acceptance (measure of the acceptance draws for which the condition term holds) against min(1, exp(-beta dE)) with
    the documented dE, at generic states; reports a violation if they clearly differ"""
    nm = r.nm
    if r.s == r.H:
        return False
    i = sym('idxi', 'int')
    f = r.f.add_le(num(3) - i).add_le(i + 4 - r.s).add_le(i + 4 - r.H)
    to = {single(r.idx): i}
    acc = Subst(to).b(r.acc)
    new = [subst(x, to) for x in r.new]
    trial = lambda k, c: new[c] if k == i else S(k, c)
    om = PI * 2 * inv(var('tau'))
    de = ENERGIES[nm](i, trial, om, ONE) - ENERGIES[nm](i, S, om, ONE)
    beta = var('beta')
    accp = alg.ite(acc, ONE, ZERO)
    if neval.unresolved(accp, de * beta, f):
        return False
    mine = {a for x in new for a in deep_atoms(x) if atom_of(a)[0] == 'draw'}
    own = sorted(a for a in deep_atoms(accp) if atom_of(a)[0] == 'draw' and a not in mine)
    if any(atom_of(a)[1] != 'unif' for a in own):
        return False
    bad, n = None, 0
    try:
        with core.limit(60):
            for e in neval.envs(f, 11, 60, tries=20000):
                b = abs(e.p(beta)) or 1.0
                x = b * e.p(de)
                if abs(x) > 3 or abs(x) < 0.05:
                    continue
                hits = 0
                m = 300 if own else 1
                for q in range(m):
                    g = neval.Env(e.seed, dict(e.ints), {a: neval.h01('acc', q, a) for a in own})
                    g.fixed[single(beta)] = b
                    hits += bool(g.b(acc))
                pa, want = hits / m, min(1.0, math.exp(-x))
                n += 1
                if abs(pa - want) > 0.15 and (bad is None or abs(pa - want) > abs(bad[1] - bad[2])):
                    bad = (e, pa, want, x)
                if n >= 10:
                    break
    except (neval.Bad, core.Timeout, RecursionError):
        return False
    if bad is None:
        return False
    ctx.violated(nm + ': acceptance', 'a trial with beta*dE = %.4g (%s) is accepted with probability %.3g instead of %.3g' % (
        bad[3], core.ints(bad[0]), bad[1], bad[2]), r.w)
    return True


def witness(acc, want, de, beta, sg, f):
    """an environment of the given sign of dE (beta > 0) where the decision differs from the Metropolis rule"""
    for e in neval.envs(f, 7, 80):
        try:
            if e.p(beta) <= 0:
                continue
            d = e.p(de)
            if d * sg <= 1e-9:
                continue
            got = e.b(acc)
            exp = True if sg < 0 else e.b(want)
        except neval.Bad:
            continue
        if got != exp:
            return e, d
    return None


def bvar_of(v):
    return alg.node(v, alg.TRUE, alg.FALSE)


def cof_sign(acc, de, x, s):
    """acceptance under the assumption that the energy change has sign s"""
    for v in bsupport(acc):
        t = alg._batom[v]
        if t[0] not in ('lt0', 'le0', 'eq0'):
            continue
        p = t[1]
        val = None
        for q in (de, x):
            for sg in (1, -1):
                k = ratio(p, q * sg)
                if k:
                    val = (s * sg < 0) if t[0] != 'eq0' else False
        if val is not None:
            acc = alg.bcof(acc, v, val)
    return acc


def ratio(p, q):
    """positive rational or positive-symbol multiple"""
    if p == q:
        return True
    try:
        d = p * inv(q) if len(q.d) == 1 else None
    except Exception:
        d = None
    a, b = alg.strip_pos(p), alg.strip_pos(q)
    return a == b


def P14(ctx):
    ctx.rule('each Metropolis step draws one site uniformly, proposes a uniform direction, changes that spin only and accepts by the Metropolis rule')
    for nm, path in SAMPLERS:
        r = sampler(ctx, nm, path)
        if r is None:
            continue
        check_proposal(ctx, r)
        check_accept(ctx, r)
        for fld in ('static_h', 'j_couple'):
            pass


def energy_change(ctx, nm, path, square=False):
    r = sampler(ctx, nm, path, checks=False, square=square)
    if r is None:
        return None
    a = accept_parts(r)
    if a is None:
        ctx.undecided(nm + ': energy change', 'acceptance not recognised', r.w)
        return None
    r.x = a[0]
    r.de = r.x * inv(var('beta'))
    return r


def is_const_in(ctx, name, p, atoms, f, w):
    """p does not depend on the given atoms"""
    if not any(a in deep_atoms(p) for a in atoms):
        ctx.proved(name, '', w)
        return True
    q = subst(p, {a: sym('alt%d' % k) for k, a in enumerate(sorted(atoms))})
    return ctx.eq(name, p, q, f, w)


def P15(ctx):
    ctx.rule('dE(s -> n) = A(n) - A(s): zero for n = s, and no term mixes old and trial spin')
    ctx.rule('away from the ends the single-site energies of neighbouring sites derive from one common energy (equal mixed differences)')
    for nm, path in SAMPLERS:
        r = energy_change(ctx, nm, path, square='mag_full' in nm)
        if r is None:
            continue
        old = [S(r.idx, c) for c in range(3)]
        m = {single(old[c]): r.new[c] for c in range(3)}
        same_ = subst(r.de, m)
        same_ = reduce_unit(same_, r)
        ctx.eq(nm + ': no energy change when the trial equals the old spin', same_, ZERO, r.f, r.w)
        z = {single(o): ZERO for o in old}
        dep = r.de - subst(r.de, z)
        us = set(sum((uniforms(x) for x in r.new), []))
        is_const_in(ctx, nm + ': old and trial energies are separate', dep, us, r.f, r.w)
        common_energy(ctx, r, -dep)


def reduce_unit(p, r):
    return p


def common_energy(ctx, r, A0):
    """A0: energy of the drawn site relative to a zero spin there, as a function of the neighbours"""
    H = r.H
    i = sym('idxi', 'int')
    places = [('i', i, r.f.add_le(num(2) - i).add_le(i + 5 - H))]
    places += [(str(k), num(k), r.f) for k in (0, 1)] + [('L-%d' % k, H - k, r.f) for k in (4, 3, 2, 1)]
    for nm, k, f in places:
        if not f.consistent():
            continue
        for d in (1, 2):
            j = image(k + d, H)
            Ai = Simp(f).p(subst(A0, {single(r.idx): k}))
            Aj = Simp(f).p(subst(A0, {single(r.idx): j}))
            ctx.eq('%s: sites %s and %s+%d share one energy' % (r.nm, nm, nm, d), mixed(Ai, j), mixed(Aj, k), f, r.w)


def mixed(p, k):
    return p - subst(p, {single(S(k, c)): ZERO for c in range(3)})


def om_at(i, get):
    """J_{i-1} S_{i-1} + J_i S_{i+1} in the bulk"""
    return [J(i - 1, c) * get(i - 1, c) + J(i, c) * get(i + 1, c) for c in range(3)]


def exch(i, get):
    return -sum((get(i, c) * J(i, c) * get(i + 1, c) for c in range(3)), ZERO)


def e_plain(i, get, om, drv):
    return sum((exch(k, get) for k in (i - 1, i)), ZERO) + sum((HS(i, c) * get(i, c) for c in range(3)), ZERO)


def e_exch(i, get, om, drv):
    return sum((exch(k, get) for k in (i - 1, i)), ZERO)


def e_maglab(i, get, om, drv):
    return e_exch(i, get, om, drv) - get(i, 2) * inv(om * 2)


def e_rot(i, get, om, drv):
    e = ZERO
    for k in (i - 1, i):
        a = (J(k, 0) + J(k, 1)) * Q2
        e = e - a * (get(k, 0) * get(k + 1, 0) + get(k, 1) * get(k + 1, 1)) - J(k, 2) * get(k, 2) * get(k + 1, 2)
    e = e + get(i, 0) * drv(i)
    e = e - om * get(i, 2)
    d = lambda k: J(k, 1) - J(k, 0)
    xy = lambda a, b: get(a, 0) * get(b, 0) + get(a, 1) * get(b, 1)
    mg = ZERO
    for k in (i - 1, i):
        mg = mg + d(k) * d(k) * (get(k + 1, 2) * xy(k, k) + get(k, 2) * xy(k + 1, k + 1))
    for k in (i - 1, i, i + 1):
        mg = mg + d(k - 1) * d(k) * get(k, 2) * xy(k - 1, k + 1) * 2
    return e - mg * inv(om * 16)


def e_first(k, get):
    """S^z + 2 y.(Omega x S) at site k"""
    o = om_at(k, get)
    return get(k, 2) + (o[2] * get(k, 0) - o[0] * get(k, 2)) * 2


def e_magnus(i, get, om, drv):
    e = e_exch(i, get, om, drv)
    return e - sum((e_first(k, get) * drv(k) for k in (i - 1, i, i + 1)), ZERO) * inv(om * 2)


def e_full(i, get, om, drv):
    e = e_exch(i, get, om, drv)
    e1 = -get(i, 2) * Q2
    e2 = get(i, 0) * Q2
    for k in (i - 1, i):
        e1 = e1 - (J(k, 2) - J(k, 0)) * (get(k, 0) * get(k + 1, 2) + get(k, 2) * get(k + 1, 0))
        e2 = e2 - (J(k, 1) * get(k, 2) * get(k + 1, 2) + J(k, 2) * get(k, 1) * get(k + 1, 1)) * Q2
        e2 = e2 - (J(k, 0) * get(k, 2) * get(k + 1, 2) + J(k, 2) * get(k, 0) * get(k + 1, 0)) * alg.Q(3, 2)
    for a in (i - 1, i, i + 1):
        o = om_at(a, get)
        sa = [get(a, c) for c in range(3)]
        e2 = e2 + o[0] * dot3(o, sa) - sa[0] * dot3(o, o)
        oxs = cross3(o, sa)
        yz = J(a - 1, 1) * get(a - 1, 2) + J(a, 1) * get(a + 1, 2)
        zy = J(a - 1, 2) * get(a - 1, 1) + J(a, 2) * get(a + 1, 1)
        e2 = e2 + oxs[1] * yz - oxs[2] * zy
    return e + e1 * inv(om) + e2 * inv(om * om)


ENERGIES = {'spinchain::metropolis_update': e_plain, 'spinchain::metropolis_update_maglab': e_maglab,
            'spinchain::metropolis_update_rot_magnus': e_rot, 'spinchain::metropolis_update_mag_full': e_full,
            'spinchain::metropolis_update_magnus': e_magnus, 'langevin::metropolis_update': e_exch,
            'langevin::metropolis_update_magnus': e_magnus}


def P16(ctx):
    ctx.rule('the energy change of each Metropolis step equals the change of its documented (effective) energy')
    om = PI * 2 * inv(var('tau'))
    for nm, path in SAMPLERS:
        sq = 'mag_full' in nm
        r = energy_change(ctx, nm, path, square=sq)
        if r is None:
            continue
        i = sym('idxi', 'int')
        H, s = r.H, r.s
        places = [('bulk', [num(2) - i, i + 3 - H], None)]
        for q in range(2):
            places.append(('site %d' % q, [], num(q)))
            places.append(('site L-%d' % (q + 1), [], H - 1 - q))
        for pl, le, at in places:
            f = r.f
            for p in le:
                f = f.add_le(p)
            if not f.consistent():
                continue
            site = i if at is None else at
            wrap = wrapper(H, at)
            # the terms of a site are those of a driven one
            drv = lambda k: ite(lt(image(k, H), s), ONE, ZERO)
            de = Simp(f).p(subst(r.de, {single(r.idx): site}))
            new = [subst(x, {single(r.idx): site}) for x in r.new]
            base = lambda k, c: S(k, c)
            trial = lambda k, c: new[c] if k == site else S(k, c)
            want = wrap(ENERGIES[nm](site, trial, om, drv) - ENERGIES[nm](site, base, om, drv))
            ctx.eq('%s: energy change at %s' % (nm, pl), de, want, f, r.w)


def image(k, H):
    """the site of the chain which a label just outside of it means"""
    if k.is_const() and k.const() < 0:
        return k + H
    if (k - H).is_const() and (k - H).const() >= 0:
        return k - H
    return k


def wrapper(H, at):
    """periodic images of site labels just outside the chain"""
    def w(p):
        if at is None:
            return p
        m = {}
        for a in deep_atoms(p):
            t = atom_of(a)
            if t[0] != 'sel' or t[1] != 'self' or t[2][0] not in ('spins', 'j_couple', 'static_h'):
                continue
            k = t[2][1]
            k2 = image(k, H)
            if k2 is k:
                continue
            m[a] = A(('sel', 'self', (t[2][0], k2) + t[2][2:], t[3]))
        return subst(p, m) if m else p
    return w
