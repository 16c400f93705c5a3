"""Fitted temperatures: sampled estimates (P35) and the bisection over them (P34)."""
import itertools
import neval
import alg
from .flow import *
from . import chains, runs
from .runs import obs, inloop
from alg import single, mk_sum, Subst
import models

# name, size of the subsystem, sampler, samples, moves per sample, energy per site, magnetisations too
OMEGA = num(2) * alg.PI * inv(conf('tau'))


def E(name, v):
    return A(('fn', 'obs:' + name, (v, -conf('trel'))))


def M(c, v):
    return A(('fn', 'obs:m%d' % c, (v,)))


def w_rot(s):
    return lambda v: E('mc_system_energy', v) + OMEGA * M(2, v) * inv(s)


def w_x(s):
    return lambda v: E('mc_system_energy', v) + M(0, v) * inv(s)


SS, HH = conf('ssize', 'int'), conf('hsize', 'int')
ESTIM = [('estim_e', 'ssize', 'metropolis_update', 1000, 1000, w_rot(SS)),
         ('estim_e2', 'ssize', 'metropolis_update', 1000, 1000, lambda v: E('mc_total_energy', v)),
         ('estim_eh', 'ssize', 'metropolis_update', 1000, 1000, lambda v: E('mc_total_energy', v)),
         ('estim_e_rot', 'ssize', 'metropolis_update_rot_magnus', 1000, 10000, lambda v: E('mc_system_energy_rot', v)),
         ('estim_e_maglab', 'ssize', 'metropolis_update_maglab', 1000, 10000, lambda v: E('mc_system_energy_maglab', v))]
GET = [('get_obs', 'hsize', 'metropolis_update', 8000, 1000, w_rot(HH)),
       ('get_obsh', 'hsize', 'metropolis_update', 8000, 1000, lambda v: E('mc_system_energy', v)),
       ('get_obs_rot', 'hsize', 'metropolis_update_rot_magnus', 8000, 10000, w_x(HH)),
       ('get_obs_maglab', 'hsize', 'metropolis_update_maglab', 8000, 10000, w_x(HH))]


def P35(ctx):
    ctx.rule('an estimate is the mean over its samples of the observable of the state sampled, at the inverse temperature asked for')
    for fname, ss, mv, N, n, want in ESTIM + GET:
        est = fname.startswith('estim')
        I = run_bin(ctx, obs(fname), names=('conf', 'beta') if est else ('conf',))
        if I is None:
            continue
        w = ctx.where(obs(fname))
        occ = list(walk(I.events))
        new = named(occ, 'new')
        samp = named(occ, *(chains.SAMPLERS + chains.STEPS))
        if len(new) != 1 or new[0].loops:
            (ctx.undecided if new else ctx.violated)(fname + ': one chain', '%d places create a chain' % len(new), w)
            continue
        if not samp:
            ctx.violated(fname + ': Monte-Carlo moves', 'no move is made', w)
            continue
        if len(samp) != 1:
            if any(o.callee != mv for o in samp):
                bad = [o for o in samp if o.callee != mv][0]
                ctx.violated(fname + ': kind of Monte-Carlo move', '%s instead of %s' % (bad.callee, mv), bad.at())
                continue
            # moves in several places of the loop over the samples: as many in all?
            inn = [o for o in samp if o.loops]
            tot = ZERO
            for o in inn:
                t = ite(o.pc(o.loops[-1]), ONE, ZERO)
                for l in o.loops:
                    t = alg.Simp(inloop(l)).p(t)
                for l in o.loops[1:]:
                    t = t * l.info['trip'] if isinstance(l.info.get('trip'), P) else None
                    if t is None:
                        break
                tot = tot + t if tot is not None and t is not None and o.loops[0] is inn[0].loops[0] else None
            if tot is not None and tot.is_const() and tot.const() != n:
                ctx.violated(fname + ': moves before a sample', '%s instead of %d (in %d places)' % (tot, n, len(inn)), w)
            else:
                ctx.undecided(fname + ': Monte-Carlo moves', '%d places' % len(samp), w)
            continue
        o = samp[0]
        if o.callee != mv:
            ctx.violated(fname + ': kind of Monte-Carlo move', '%s instead of %s' % (o.callee, mv), o.at())
            continue
        ctx.proved(fname + ': kind of Monte-Carlo move', mv, o.at())
        # settings of the chain while it is sampled
        ch = o.args[0]
        v = gsa.rd(ch, (('f', 'vars'),)) if isinstance(ch, St) else None
        skip = ('log', 'beta') if est else ('log',)
        if ss == 'hsize':
            skip += ('ssize',)
        config_same(ctx, fname + ': settings of the chain', v, skip=skip, where=o.at())
        if isinstance(v, St):
            if est:
                ctx.eq(fname + ': sampled at the inverse temperature asked for', core.as_num(v.f['beta']) or sym('unresolved'), var_beta(), None, o.at())
            if ss == 'hsize':
                ctx.eq(fname + ': the whole chain is the system', core.as_num(v.f['ssize']) or sym('unresolved'), HH, None, o.at())
        # batches
        ls = o.loops
        trips = [l.info.get('trip') for l in ls]
        if len(ls) != 2 or None in trips:
            if len(ls) != 2 or not any(t is None and runs.left_early(ctx, fname + c, l, num(b), w)
                                       for l, t, b, c in zip(ls, trips, (N, n), (': number of samples', ': moves before a sample'))):
                ctx.undecided(fname + ': samples', 'loops not resolved', o.at())
            continue
        ctx.eq(fname + ': number of samples', trips[0], num(N), None, w)
        ctx.eq(fname + ': moves before a sample', trips[1], num(n), None, w)
        ctx.eq(fname + ': every move is made', count([o]), ONE, inloop(ls[0]).add_le(-ls[1].info['k']).add_le(ls[1].info['k'] - n + 1), w)
        j = sym('sample', 'int')
        st = core.as_num(o.args[1])
        st = Subst({single(ls[1].info['k']): trips[1] - 1}).p(st)
        st = Subst({single(ls[0].info['k']): j}).p(st)
        cols = [want(st)] + ([] if est else [M(c, st) * inv(HH) for c in range(3)])
        rets = [I.ret] if est else (list(I.ret.v) if isinstance(I.ret, Tup) else [None] * 4)
        labs = ['e', 'mx', 'my', 'mz']
        for g, x, l in zip(rets, cols, labs):
            g = core.as_num(g)
            nm = fname + ': mean of ' + l
            if g is None:
                ctx.undecided(nm, 'not resolved', w)
            else:
                ctx.eq(nm, g, mk_sum(x, j, num(N)) * inv(num(N)), None, w)
    trajectory(ctx)


def var_beta():
    return sel('beta')


def trajectory(ctx):
    fname = 'trajectory_mean_e'
    I = run_bin(ctx, obs(fname), names=('conf',))
    if I is None:
        return
    w = ctx.where(obs(fname))
    occ = list(walk(I.events))
    new, up, samp = named(occ, 'new'), named(occ, *chains.STEPS), named(occ, *chains.SAMPLERS)
    snd = named(occ, 'Sender::send')
    if len(new) != 1 or not new[0].loops:
        (ctx.undecided if new else ctx.violated)(fname + ': one chain per run', '%d places create a chain' % len(new), w)
        return
    runs.trip(ctx, fname + ': number of runs', new[0].loops[0], conf('runs', 'int'), w)
    config_same(ctx, fname + ': configuration of a run', new[0].args[0], skip=('log',), where=new[0].at())
    if len(up) != 1 or not up[0].loops or up[0].callee != 'update':
        (ctx.undecided if up else ctx.violated)(fname + ': dynamics', '%d places' % len(up), w)
        return
    if not samp:
        ctx.violated(fname + ': thermalisation', 'no Monte-Carlo move is made before the run', w)
    else:
        runs.thermal(ctx, fname, samp, w, up, snd)
    l = up[0].loops[-1]
    k = l.info['k']
    dt, tau = conf('dt'), conf('tau')
    runs.trip(ctx, fname + ': 1000 periods', l, gsa.ftou(tau * 1000 * inv(dt)), w)
    f = inloop(l)
    ctx.eq(fname + ': one step per iteration', count(up, l), ONE, f, w)
    if len(snd) != 1:
        (ctx.undecided if snd else ctx.violated)(fname + ': energies taken', '%d places' % len(snd), w)
        return
    o = snd[0]
    if not o.inside(l):
        ctx.undecided(fname + ': energies taken', 'outside the loop of the steps', o.at())
        return
    cyc = fn('round', tau * inv(dt))
    ctx.eq(fname + ': energies taken once per period after 99 periods', count([o], l),
           ite(eq(fn('imod', k, cyc), ZERO), ite(lt(cyc * 99, k), ONE, ZERO), ZERO), f, o.at())
    g = core.as_num(o.args[1])
    ver = core.as_num(up[0].args[1])
    t = runs.fld(up[0], 't')
    if g is None or ver is None or t is None:
        ctx.undecided(fname + ': energy taken', 'not resolved', o.at())
    else:
        ctx.eq(fname + ': clock at a step', t, dt * k - conf('trel'), f, up[0].at())
        ctx.eq(fname + ': energy taken', g, A(('fn', 'obs:system_energy', (ver, t + dt))), f, o.at())
    # the mean of what was received
    ret = core.as_num(I.ret)
    cid = o.args[0].deps[0] if isinstance(o.args[0], gsa.Opq) and o.args[0].tag == 'sender' else None
    if ret is None or cid is None:
        ctx.undecided(fname + ': mean of the energies', 'not resolved', w)
        return
    from alg import mk_sum
    j = sym('received', 'int')
    n = A(('opq', 'n:recv', (gsa.canon_p(cid),), 'int'))
    forms = [v for v in value_atoms(ret) if alg._atom[v][0] == 'opq' and "('recv', %r" % (cid,) in repr(alg._atom[v])]
    if len(forms) != 1:
        ctx.undecided(fname + ': mean of the energies', repr(ret)[:200], w)
        return
    a = A(alg._atom[forms[0]])
    idx = [d for d in alg.any_deep(a) if alg._atom[d][0] == 'bv']
    el = Subst({d: j for d in idx}).p(a)
    ctx.eq(fname + ': mean of the energies', ret, mk_sum(el, j, n) * inv(n), Facts().add_le(num(1) - n), w)
    ctx.proved(fname + ': the mean is over what the runs sent', repr(el)[:120], w)


def value_atoms(p):
    out = set()
    for a in alg.any_deep(p):
        t = alg._atom[a]
        if t[0] == 'opq' and t[1] != 'n:recv':
            out.add(a)
    return out


def atoms_of(p):
    out = []
    for m in p.d:
        for a, e in m:
            if a not in out:
                out.append(a)
    return out


# ------------------------------------------------------------------ bisection
FIND = [('find_beta', 'estim_e', '1/100', True), ('find_beta2', 'estim_e2', '1/100', False), ('find_betah', 'estim_eh', '1/100', False),
        ('find_beta_rot', 'estim_e_rot', '1/10000', False), ('find_beta_maglab', 'estim_e_maglab', '1/10000', False)]


def m_estim(name):
    def m(I, fr, path, j, args, t):
        models.emit(I, name, [models.deref_all(I, args[0]), args[1]], t)
        b = core.as_num(args[1])
        return fn('estim', b) if b is not None else I.opaque_num(None, 'real', 'estim')
    return m


def P34(ctx):
    ctx.rule('bisection: bracket [lower, 5]; the midpoint replaces the lower end if its energy exceeds the target and else the upper end, '
             'while the bracket is wider than 0.001; the result is the midpoint of the last bracket')
    from fractions import Fraction
    for fname, est, low, ring in FIND:
        mods = chains.chain_models()
        for e in ESTIM:
            mods[obs(e[0])] = m_estim(e[0])
        if ctx.prog.find(obs(est)) is None:
            ctx.undecided(fname, 'the estimator %s no longer exists under this name' % est, fname)
            continue
        I = run_bin(ctx, obs(fname), mods=mods, names=('conf',))
        if I is None:
            continue
        w = ctx.where(obs(fname))
        occ = list(walk(I.events))
        ests = named(occ, *[e[0] for e in ESTIM])
        for o in ests:
            if o.callee != est:
                ctx.violated(fname + ': estimates', '%s instead of %s' % (o.callee, est), o.at())
            config_same(ctx, fname + ': configuration of an estimate', o.args[0], skip=('ssize',) if ring else (), where=o.at())
            if ring and isinstance(o.args[0], St):
                ctx.eq(fname + ': the whole chain is the system', core.as_num(o.args[0].f['ssize']) or sym('unresolved'), HH, None, o.at())
        if not ests:
            ctx.violated(fname + ': estimates', 'no estimate is made', w)
            continue
        ctx.proved(fname + ': estimates', '%d places' % len(ests), w)
        ls = [l.e for l in loops_of(I.events) if not l.path]
        if len(ls) != 1 or len(ls[0].info['exits']) != 1 or ls[0].info.get('rets') or len(ls[0].info['backs']) != 1:
            if len(ls) == 1 and not ls[0].info.get('rets') and len(ls[0].info['backs']) == 1 and followed(ctx, fname, ls[0].info, num(Fraction(low)), w):
                continue
            if not ls and straight(ctx, fname, core.as_num(I.ret), num(Fraction(low)), w):
                continue
            ctx.undecided(fname + ': bisection', '%d loops' % len(ls), w)
            continue
        bisect(ctx, fname, I, ls[0], num(Fraction(low)), w)


def bisect(ctx, fname, I, l, low, w):
    info = l.info
    k, n = info['k'], info['n']
    ph = []
    for p in info['phis']:
        i, v, x = (core.as_num(q) for q in (p.init, phi_val(p), p.next))
        if i is None or v is None or x is None or single(v) is None:
            continue
        ph.append((p, i, v, x))
    goon = bnot(info['exits'][0][1])
    T = conf('ednsty')
    ret = core.as_num(I.ret)
    if ret is None:
        ctx.undecided(fname + ': bisection', 'result not resolved', w)
        return
    half = num(1) / 2
    found = None
    best = None
    for a, b in itertools.permutations(ph, 2):
        lo, hi = a[2], b[2]
        # the loop goes on while hi - lo > 0.001
        mid = (lo + hi) * half
        forms = [mid, fn('estim', mid), fn('estim', lo), fn('estim', hi), hi - lo, lo, hi]
        # relate the other variables to the two ends, by their start values
        m = {}
        for c in ph:
            if c is a or c is b:
                continue
            for g in forms:
                s0 = Subst({single(lo): a[1], single(hi): b[1]}).p(g)
                if alg.equal(s0, c[1], Facts()).ok:
                    m[single(c[2])] = g
                    break
        s = Subst(m)
        up = lt(T, fn('estim', mid))
        lo1, hi1 = ite(up, mid, lo), ite(up, hi, mid)
        # drop related variables whose relation is not inductive
        while True:
            s = Subst(m)
            bad = None
            for c in ph:
                q = single(c[2])
                if q in m:
                    after = Subst({single(lo): lo1, single(hi): hi1}).p(m[q])
                    if not eqq(s.p(c[3]), after):
                        bad = q
                        break
            if bad is None:
                break
            del m[bad]
        g = alg.ite(s.b(goon), ONE, ZERO)
        res = Subst(back(I, ph, n, k)).p(ret)
        sc = [eqq(g, ite(lt(num(1) / 1000, hi - lo), ONE, ZERO)), eqq(s.p(a[3]), lo1), eqq(s.p(b[3]), hi1), eqq(s.p(res), mid)]
        if best is None or sum(sc) > sum(best[0]):
            best = (sc, a, b, s, res, lo1, hi1, mid, g)
    if best is None or not best[0][0] and sum(best[0]) < 2:
        ctx.undecided(fname + ': bisection', 'the bracket was not identified', w)
        return
    sc, a, b, s, res, lo1, hi1, mid, g = best
    lo, hi = a[2], b[2]
    ren = Subst({single(lo): sym('lower'), single(hi): sym('upper')})
    chk = lambda nm, x, y: ctx.eq(fname + ': ' + nm, ren.p(x), ren.p(y), None, w)
    ctx.eq(fname + ': lower end of the first bracket', a[1], low, None, w)
    ctx.eq(fname + ': upper end of the first bracket', b[1], num(5), None, w)
    if not all(sc) and followed(ctx, fname, info, low, w) is True:
        return
    if not all(sc) and sum(sc) >= 1 and unrolled(ctx, fname, ph, a, b, goon, Subst(back(I, ph, n, k)).p(ret), k, low, w):
        return
    chk('goes on while the bracket is wider than 0.001', g, ite(lt(num(1) / 1000, hi - lo), ONE, ZERO))
    chk('next lower end', s.p(a[3]), lo1)
    chk('next upper end', s.p(b[3]), hi1)
    chk('result', s.p(res), mid)


def unrolled(ctx, fname, ph, a, b, goon, res, k, low, w):
    """the first steps of the loop with every variable at its own value, against bisection; True if a difference was reported"""
    T = conf('ednsty')
    vals = {single(v): i for p, i, v, x in ph}
    lo, hi = low, num(5)
    if not (eqq(a[1], lo) and eqq(b[1], hi)):
        return False
    for j in range(3):
        mid = (lo + hi) * (num(1) / 2)
        at = dict(vals)
        if k is not None:
            at[single(k)] = num(j)
        s = Subst(at)
        for nm, got, want in (('lower end', s.p(a[2]), lo), ('upper end', s.p(b[2]), hi), ('value tried if it stops', s.p(res), mid),
                              ('goes on', ite(s.b(goon), ONE, ZERO), ite(lt(num(1) / 1000, hi - lo), ONE, ZERO))):
            if eqq(got, want) or neval.unresolved(got, want, Facts()):
                continue
            try:
                with core.limit(20):
                    d = neval.differ(got, want, Facts())
            except (core.Timeout, RecursionError):
                d = None
            if d is not None:
                ctx.violated('%s: %s after %d steps' % (fname, nm, j), 'with %s the code has %.6g where bisection has %.6g' % (
                    core.ints(d[0]), d[1], d[2]), w)
                return True
        up = lt(T, fn('estim', mid))
        lo, hi = ite(up, mid, lo), ite(up, hi, mid)
        vals = {single(v): s.p(x) for p, i, v, x in ph}
    return False


PATTERNS = (('too high', (True,)), ('too low', (False,)), ('alternately too high and too low', (True, False)), ('too low and twice too high in turn', (False, True, True)))


def straight(ctx, fname, ret, low, w):
    """a fixed number of steps: the result along some outcomes of the comparisons; True if a difference was reported"""
    T = conf('ednsty')
    for name, ups in PATTERNS if ret is not None else ():
        lo, hi = low, num(5)
        f = Facts()
        j = 0
        while (hi - lo).const() * 1000 > 1:
            mid = (lo + hi) * (num(1) / 2)
            c = lt(T, fn('estim', mid))
            up = ups[j % len(ups)]
            fs = f.assume(c if up else bnot(c))
            if len(fs) != 1:
                return False
            f = fs[0]
            lo, hi = (mid, hi) if up else (lo, mid)
            j += 1
        got, want = alg.Simp(f).p(ret), (lo + hi) * (num(1) / 2)
        if got.is_const() and got.const() != want.const():
            ctx.violated(fname + ': bisection', 'the energy at the midpoint is %s: the result is %.6g where bisection to 0.001 gives %.6g' % (
                name, float(got.const()), float(want.const())), w)
            return True
    return False


def followed(ctx, fname, info, low, w):
    """the whole bisection along some outcomes of its comparisons, with every variable at its value; True if a difference was reported"""
    ph = [(p, i, v, x) for p, i, v, x in ((p, core.as_num(p.init), core.as_num(phi_val(p)), core.as_num(p.next)) for p in info['phis'])
          if i is not None and v is not None and x is not None and single(v) is not None]
    ends = [[q[2] for q in ph if eqq(q[1], e)] for e in (low, num(5))]
    if len(ends[0]) != 1 or len(ends[1]) != 1:
        return False
    goon = bnot(alg.FALSE)
    for e in info['exits']:
        goon = alg.band(goon, bnot(e[1]))
    T = conf('ednsty')
    for name, ups in PATTERNS:
        lo, hi = low, num(5)
        f = Facts()
        vals = {single(v): i for p, i, v, x in ph}
        for j in range(20):
            at = dict(vals)
            if info['k'] is not None:
                at[single(info['k'])] = num(j)
            s, sm = Subst(at), alg.Simp(f)
            how = 'the energy at the midpoint is %s: after %d steps ' % (name, j)
            for nm, e, want in (('lower', ends[0][0], lo), ('upper', ends[1][0], hi)):
                got = sm.p(s.p(e))
                if got.is_const() and got.const() != want.const():
                    ctx.violated(fname + ': bisection', how + 'the %s end is %.6g instead of %.6g' % (nm, float(got.const()), float(want.const())), w)
                    return True
                if not got.is_const():
                    return False
            g = sm.b(s.b(goon))
            more = (hi - lo).const() * 1000 > 1
            if g is not alg.TRUE and g is not alg.FALSE:
                got, want = ite(g, ONE, ZERO), ONE if more else ZERO
                if neval.unresolved(got, want, f):
                    return False
                try:
                    with core.limit(20):
                        d = neval.differ(got, want, f)
                except (core.Timeout, RecursionError):
                    d = None
                if d is None:
                    return False
                ctx.violated(fname + ': bisection', how + 'the search can %s although the bracket is %.6g wide' % (
                    'go on' if not more else 'stop', float((hi - lo).const())), w)
                return True
            if (g is alg.TRUE) != more:
                ctx.violated(fname + ': bisection', how + 'the search %s although the bracket is %.6g wide' % (
                    'goes on' if not more else 'stops', float((hi - lo).const())), w)
                return True
            if not more:
                break
            up = ups[j % len(ups)]
            mid = (lo + hi) * (num(1) / 2)
            c = lt(T, fn('estim', mid))
            fs = f.assume(c if up else bnot(c))
            if len(fs) != 1:
                return False
            f = fs[0]
            sm = alg.Simp(f)
            vals = {single(v): sm.p(s.p(x)) for p, i, v, x in ph}
            lo, hi = (mid, hi) if up else (lo, mid)
    return None


def eqq(a, b):
    try:
        with core.limit(20):
            return bool(alg.equal(a, b, Facts()).ok)
    except (core.Timeout, RecursionError):
        return False


def back(I, ph, n, k):
    """values of the variables after the loop -> their symbols inside it"""
    m = {}
    for p, i, v, x in ph:
        at = single(v)
        try:
            out = Subst({single(k): n}).p(v)
            m[single(out)] = v
        except Exception:
            pass
    return m


def phi_val(p):
    return p.sym if p.kind == 'num' else None


PROPS = {'P34': P34, 'P35': P35}
