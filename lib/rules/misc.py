"""The start temperature (P12)."""
import math
import alg
import core
import neval
from .flow import *
from .fits import eqq, back, phi_val
from alg import single, Subst
from .spec import *


def tanh(x):
    return fn('tanh', x)


def P12(ctx):
    ctx.rule('beta is iterated by beta -> 1/(e + coth beta) from 20 until two successive values agree to 0.01; the last one is the result')
    e = sel('e')
    g = lambda x: inv(e + inv(tanh(x)))
    for nm, base in CHAINS:
        path = base + 'solve_beta'
        I = ctx.run(path, names=('e',))
        if I is None:
            continue
        w = ctx.where(path)
        ls = [l.e for l in loops_of(I.events) if not l.path]
        ret = core.as_num(I.ret)
        if len(ls) != 1 or ret is None or len(ls[0].info['exits']) + len(ls[0].info.get('rets') or ()) != 1 or len(ls[0].info['backs']) != 1:
            if not ls and ret is not None and not neval_open(ret):
                ctx.violated(nm + ': iteration', 'the result %s is not found by iteration' % repr(ret)[:200], w)
            elif len(ls) == 1 and ret is not None and unrolled(ctx, nm, I, ls[0].info, ret, e, w):
                pass
            else:
                ctx.undecided(nm + ': iteration', '%d loops' % len(ls), w)
            continue
        info = ls[0].info
        ph = []
        for p in info['phis']:
            i, v, x = (core.as_num(q) for q in (p.init, phi_val(p), p.next))
            if i is not None and v is not None and x is not None and single(v) is not None:
                ph.append((p, i, v, x))
        ex = (list(info['exits']) + list(info.get('rets') or ()))[0]
        stop = ex[1]
        res = Subst(back(I, ph, info['n'], info['k'])).p(ret)
        cand = []
        for x in ph:
            X = x[2]
            # x is the current value of the sequence; the other variable is the value before it, or the value after it
            others = [c for c in ph if c is not x]
            cand.append((sum([eqq(x[3], g(X)), eqq(x[1], num(20)), eqq(res, g(X))]), x, None, 0))
            for c in others:
                if eqq(c[3], X):
                    cand.append((1 + sum([eqq(x[3], g(X)), eqq(x[1], num(20)), eqq(res, X)]), x, c, -1))
                if eqq(c[1], g(x[1])) and eqq(x[3], c[2]):
                    cand.append((1 + sum([eqq(c[3], g(c[2])), eqq(x[1], num(20)), eqq(res, c[2])]), x, c, 1))
        if not cand:
            ctx.undecided(nm + ': iteration', 'no sequence found', w)
            continue
        cand.sort(key=lambda t: -t[0])
        sc, x, c, kind = cand[0]
        if sc < 2:
            ctx.undecided(nm + ': iteration', 'no sequence found', w)
            continue
        X = x[2]
        names = {single(X): sym('current')}
        if kind == -1:
            names[single(c[2])] = sym('previous')
            old, new = c[2], X
        elif kind == 1:
            names[single(c[2])] = g(sym('current'))
            old, new = X, c[2]
        else:
            old, new = X, g(X)
        ren = Subst(names)
        chk = lambda what, a, b: ctx.eq('%s: %s' % (nm, what), ren.p(a), ren.p(b), None, w)
        chk('first value', x[1], num(20))
        if kind == 1:
            chk('next value', c[3], g(c[2]))
        else:
            chk('next value', x[3], g(X))
        chk('stops when successive values agree to 0.01', ite(stop, ONE, ZERO), ite(lt(num(1) / 100, fn('abs', new - old)), ZERO, ONE))
        if kind == -1:
            d = core.as_num(x[1] - c[1])
            ctx.eq(nm + ': takes at least one step', ite(lt(num(1) / 100, fn('abs', d)), ONE, ZERO), ONE, None, w)
        chk('result', res, new)


# energies per site (in units of the field) at which the iteration is followed to its end
AT = [alg.Q(n, 1000) for n in (0, -1, 1, -50, 50, -137, 211, -300, 300, -512, 613, -700, 750, -850, 900, -950, 1500, 3000)]


class Closed(neval.Env):
    """no free variables"""

    def real(self, *key):
        raise neval.Bad('unresolved')

    real01 = real


def unrolled(ctx, nm, I, info, ret, e, w):
    """a loop with several ways out: the sequence followed to the end for some energies; True if the result is another one"""
    ph = [(p, i, v, x) for p, i, v, x in ((p, core.as_num(p.init), core.as_num(phi_val(p)), core.as_num(p.next)) for p in info['phis'])
          if i is not None and v is not None and x is not None and single(v) is not None]
    outs = list(info['exits']) + list(info.get('rets') or ())
    res = Subst(back(I, ph, info['n'], info['k'])).p(ret)
    for q in AT:
        b, steps, near = 20.0, 0, False
        while steps < 4000:
            b, old = 1 / (float(q) + 1 / math.tanh(b)), b
            steps += 1
            near = near or abs(abs(b - old) - 0.01) < 1e-6
            if abs(b - old) <= 0.01:
                break
        if near or steps == 4000:
            continue
        env = Closed(1, {})
        at = {single(e): num(q)}
        try:
            vals = {single(v): num(alg.Q(env.p(Subst(at).p(i)))) for p, i, v, x in ph}
            for j in range(steps + 60):
                at2 = dict(at)
                at2.update(vals)
                at2[single(info['k'])] = num(j)
                at2[single(info['n'])] = num(j)
                s = Subst(at2)
                if any(env.b(s.b(o[1] if len(o) > 2 else o[0])) for o in outs):
                    got = env.p(s.p(res))
                    if abs(got - b) > 1e-4 * (1 + abs(b)):
                        ctx.violated(nm + ': iteration', 'for an energy of %g per site the result is %.6g after %d steps, not %.6g where successive values agree' % (float(q), got, j, b), w)
                        return True
                    break
                vals = {single(v): num(alg.Q(env.p(s.p(x)))) for p, i, v, x in ph}
            else:
                ctx.violated(nm + ': iteration', 'for an energy of %g per site it does not end where successive values agree' % float(q), w)
                return True
        except neval.Bad:
            continue
    return False


def neval_open(p):
    return any(alg._atom[a][0] == 'opq' for a in alg.any_deep(p))


PROPS = {'P12': P12}


# ------------------------------------------------------------------ the energy measured for a fit (P45)
from .physics import psum, any_facts, sizes, J, S, HS
from . import sampler as smp
import alg as _alg


def d_exch(k, get, om, drv):
    return -sum((get(k, c) * J(k, c) * get(k + 1, c) for c in range(3)), ZERO)


def d_plain(k, get, om, drv):
    return d_exch(k, get, om, drv) + sum((HS(k, c) * get(k, c) for c in range(3)), ZERO)


def d_maglab(k, get, om, drv):
    return d_exch(k, get, om, drv) - get(k, 2) * inv(om * 2)


def d_rot(k, get, om, drv):
    """energy of site k, its bond to k+1 and the triple around it, in the rotating frame with its first correction"""
    xy = lambda a, b: get(a, 0) * get(b, 0) + get(a, 1) * get(b, 1)
    d = lambda b: J(b, 1) - J(b, 0)
    e = -(J(k, 0) + J(k, 1)) * num(1) / 2 * xy(k, k + 1) - J(k, 2) * get(k, 2) * get(k + 1, 2)
    e = e + get(k, 0) * drv(k) - om * get(k, 2)
    mg = d(k) * d(k) * (get(k + 1, 2) * xy(k, k) + get(k, 2) * xy(k + 1, k + 1))
    mg = mg + d(k - 1) * d(k) * get(k, 2) * xy(k - 1, k + 1) * 2
    return e - mg * inv(om * 16)


FITTED = [('mc_total_energy', 'metropolis_update', d_plain, 'plain'), ('mc_system_energy', 'metropolis_update', d_plain, 'plain, whole chain'),
          ('mc_system_energy_maglab', 'metropolis_update_maglab', d_maglab, 'lab frame'),
          ('mc_system_energy_rot', 'metropolis_update_rot_magnus', d_rot, 'rotating frame')]


def ring_energy(dens, H, s, om):
    """sum of the density over the ring"""
    drv = lambda k: ite(lt(k, s), ONE, ZERO)
    K = sym('ringk', 'int')
    mid = _alg.mk_sum(Subst({single(K): K + 1}).p(dens(K, S, om, drv)), K, H - 2)
    w = smp.wrapper(H, ZERO)
    return mid + w(dens(ZERO, S, om, drv)) + w(dens(H - 1, S, om, drv))


def P45(ctx):
    ctx.rule('the energy measured after the moves of a sampler changes, when one spin changes, by the energy change the sampler accepts with')
    om = _alg.PI * 2 * inv(var('tau'))
    for enm, snm, dens, what in FITTED:
        path = SC + enm
        H, s, f = any_facts(6)
        ov = sizes(H, s)
        if 'whole' in what:
            s = H
            ov['vars.ssize'] = H
        I = ctx.run(path, ov=ov, facts=f)
        if I is not None:
            ctx.eq('%s: energy measured' % enm, I.ret, ring_energy(dens, H, s, om) * inv(H), f, ctx.where(path))
        if 'whole' in what:
            continue
        r = smp.energy_change(ctx, snm, SC + snm)
        if r is None:
            continue
        i = sym('idxi', 'int')
        H, s = r.H, r.s
        places = [('bulk', [num(2) - i, i + 3 - H], None)]
        for q in range(2):
            places += [('site %d' % q, [], num(q)), ('site L-%d' % (q + 1), [], H - 1 - q)]
        for pl, le, at in places:
            fp = r.f
            for p in le:
                fp = fp.add_le(p)
            site = i if at is None else at
            wrap = smp.wrapper(H, at)
            de = _alg.Simp(fp).p(_alg.subst(r.de, {single(r.idx): site}))
            new = [_alg.subst(x, {single(r.idx): site}) for x in r.new]
            trial = lambda k, c: new[c] if k == site else S(k, c)
            base = lambda k, c: S(k, c)
            drv = lambda k: ite(lt(k, s), ONE, ZERO)
            # the field of site k is only needed where it is the changed site
            want = ZERO
            for o in (-1, 0, 1):
                k = site + o
                want = want + dens(k, trial, om, drv if o == 0 else (lambda k: ONE)) - dens(k, base, om, drv if o == 0 else (lambda k: ONE))
            ctx.eq('%s: energy change accepted by %s, %s' % (enm, snm, pl), de, wrap(want), fp, r.w)


PROPS['P45'] = P45
