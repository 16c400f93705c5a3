"""Unit norm, frame conditions, diagnostics."""
from .physics import *
from .sampler import SAMPLERS, sampler
from alg import PI
import alg
import core
import models


def P01(ctx):
    ctx.rule('every constructor and mutator of a spin yields |S| = 1 (rotate: from a unit spin, in any field incl. zero)')
    w = lambda n: ctx.where(SPIN + n)

    def unit(nm, d, n):
        v = [core.as_num(arr_at(d, num(c))) for c in range(3)]
        if any(x is None for x in v):
            ctx.undecided(nm, 'not resolved', w(n))
            return
        ctx.eq(nm + ': |S|^2', dot3(v, v), ONE, None, w(n))
    for n in ('new', '<spin::Spin as std::default::Default>::default'):
        path = SPIN + n if n == 'new' else 'sc::' + n
        I = ctx.run(path, [])
        if I is not None:
            unit(n, rd(I.ret, (('f', 'dir'),)), n)
    v = [sym('v%d' % i) for i in range(3)]
    I = ctx.run(SPIN + 'new_xyz', [Ref(('P', 'in'))], mem={('P', 'in'): Tup(v)})
    if I is not None:
        unit('new_xyz (non-zero input)', rd(I.ret, (('f', 'dir'),)), 'new_xyz')
        nn = fn('sqrt', dot3(v, v))
        ctx.vec('new_xyz: direction of the input', rd(I.ret, (('f', 'dir'),)), [x * inv(nn) for x in v], None, w('new_xyz'))
    th, ph = sym('th'), sym('ph')
    I = ctx.run(SPIN + 'new_from_angles', [th, ph])
    if I is not None:
        unit('new_from_angles', rd(I.ret, (('f', 'dir'),)), 'new_from_angles')
    I, d = run_method(ctx, SPIN + 'set_angles', unit3('s'), [th, ph])
    if I is not None:
        unit('set_angles', d, 'set_angles')
    n, s = unit3('n'), unit3('s')
    F, dt = alg.positive(sym('F')), sym('dt')
    I, d = run_method(ctx, SPIN + 'rotate', s, [[F * x for x in n], dt])
    if I is not None:
        unit('rotate', d, 'rotate')
    I, d = run_method(ctx, SPIN + 'rotate', s, [[ZERO] * 3, dt])
    if I is not None:
        unit('rotate in zero field', d, 'rotate')
    ctx.rule('census: no code outside the spin type stores into a spin direction; every stored spin comes from the type itself')
    census(ctx)


def census(ctx):
    """writers of the direction of a spin, found in the MIR of every function of both crates"""
    prog = ctx.prog
    byf = {p: n for n, p in SAMPLERS}
    done = set()
    for path, fnode in sorted(prog.fns.items()):
        if path.startswith('sc::spin::') or 'spin::Spin as' in path:
            continue
        for kind, sp in dir_writes(prog, fnode):
            if path in done:
                continue
            done.add(path)
            at = '%s:%s (%s)' % (sp[0], sp[1], path)
            if path in byf:
                r = sampler(ctx, byf[path], path, checks=False)
                if r is None or any(x is None for x in r.new):
                    ctx.undecided('proposed spin of ' + path, 'not resolved', at)
                else:
                    ctx.eq('proposed spin of %s: |S|^2' % path, dot3(r.new, r.new), ONE, r.f, at)
            else:
                ctx.undecided('direction of a spin written in ' + path, kind + ' outside the spin type', at)
    ctx.count('functions scanned for stores into a spin direction', len(prog.fns))
    ctx.proved('every other function stores spins only through the spin type', '%d function(s) scanned, %d with direct stores' % (
        len(prog.fns), len(done)), 'src')


def dir_writes(prog, fnode):
    j = fnode.j
    if j.get('derived'):
        return
    for b in j['blocks']:
        if b.get('cleanup'):
            continue
        for st in b['st']:
            if st['s'] != 'assign':
                continue
            r = st['r']
            if r['r'] == 'agg' and r.get('agg') == 'adt' and r.get('path') == 'sc::spin::Spin':
                yield 'a spin built from components', st['sp']
            if any(len(x) > 2 and x[0] == 'f' and x[2] == 'dir' for x in st['p']['p']):
                yield 'a component stored', st['sp']
            if r['r'] == 'ref' and r.get('mut') and any(len(x) > 2 and x[0] == 'f' and x[2] == 'dir' for x in r['p']['p']):
                yield 'a component borrowed mutably', st['sp']


def final(I, *path, base='self'):
    return rd(I.mem[('P', base)], tuple(('f', p) for p in path))


CONF_NUM = ['t', 'dt', 'trel', 'tau', 'lambda', 'jvar', 'hvar', 'ednsty', 'beta', 'e']


def frame(ctx, nm, I, H, s, f, w, clock, spins=True):
    i = sym('idxi', 'int')
    fi = f.add_le(-i).add_le(i - H + 1)
    sf = I.mem.get(('P', 'self'))
    if not isinstance(sf, St):
        ctx.proved(nm + ': nothing written', '', w)
        return
    for c in range(3):
        ctx.eq('%s: couplings unchanged [%d]' % (nm, c), arr_at(arr_at(final(I, 'j_couple'), i), num(c)), J(i, c), fi, w)
        ctx.eq('%s: static fields unchanged [%d]' % (nm, c), arr_at(arr_at(final(I, 'static_h'), i), num(c)), HS(i, c), fi, w)
    for k in ('j_couple', 'static_h', 'spins'):
        ctx.eq('%s: number of %s unchanged' % (nm, k), gsa_len(final(I, k)), H, f, w)
    for k in CONF_NUM:
        ctx.eq('%s: setting %s unchanged' % (nm, k), final(I, 'vars', k), var(k), f, w)
    ctx.eq('%s: setting hsize unchanged' % nm, final(I, 'vars', 'hsize'), H, f, w)
    ctx.eq('%s: setting ssize unchanged' % nm, final(I, 'vars', 'ssize'), s, f, w)
    if clock:
        ctx.eq('%s: clock unchanged' % nm, final(I, 't'), sel('self', 't'), f, w)


def gsa_len(v):
    import gsa
    return gsa.arr_len(v)


def P05(ctx):
    ctx.rule('time steps and Monte-Carlo moves change spins (and, for steps, the clock) only: couplings, static fields and settings are constants of a run')
    for pre, fnm in ((SC, 'update'), (SC, 'update_no_field'), (SL, 'update')):
        d = 'xyplane'
        N, H, s, f = chain_facts()
        I = ctx.run(pre + fnm, ov=sizes(H, s, d), facts=f, mods={SPIN + 'rotate': rot_model})
        if I is not None:
            frame(ctx, pre.split('::')[-2] + '::' + fnm, I, H, s, f, ctx.where(pre + fnm), False)
    for pre, fnm in ((SC, 'metropolis_update'), (SC, 'metropolis_update_maglab'), (SC, 'metropolis_update_rot_magnus'),
                     (SC, 'metropolis_update_mag_full'), (SC, 'metropolis_update_magnus'), (SL, 'metropolis_update'),
                     (SL, 'metropolis_update_magnus')):
        H, s, f = any_facts(8, 4)
        I = ctx.run(pre + fnm, ov=sizes(H, s), facts=f)
        if I is not None:
            frame(ctx, pre.split('::')[-2] + '::' + fnm, I, H, s, f, ctx.where(pre + fnm), True)


def P07(ctx):
    ctx.rule('final spins of the response update equal the even/odd/even splitting with the drive only, no static field')
    for d in DRIVES:
        check_update(ctx, d, 'update_no_field', static=False)


def P18(ctx):
    ctx.rule('spectrum entry n = power of the Fourier component at wave number 2 pi n/L - pi, summed over the three components')
    N, H, s, f = chain_facts()
    w = ctx.where(SC + 'energy_spectrum')
    seen = []

    def process(I, fr, path, j, args, t):
        b = args[1]
        while isinstance(b, Ref) and isinstance(I.load(b), Ref):
            b = I.load(b)
        v = I.load(b)
        i = sym('idxi', 'int')
        fi = f.add_le(-i).add_le(i - H + 1)
        re = core.as_num(rd(arr_at(v, i), (('f', 're'),)))
        im = core.as_num(rd(arr_at(v, i), (('f', 'im'),)))
        c = next((c for c in range(3) if re is not None and alg.equal(re, S(i, c), fi).ok), None)
        if c is None:
            raise ValueError('transform of something other than a spin component')
        seen.append((c, re, im, gsa_len(v), fi))
        el = lambda x: St('num::Complex', None, '', {'re': A(('fn', 'dftre%d' % c, (x,))), 'im': A(('fn', 'dftim%d' % c, (x,)))})
        old = arr_at(v, i)
        el = lambda x, o=old: upd(upd(o, (('f', 're'),), A(('fn', 'dftre%d' % c, (x,)))), (('f', 'im'),), A(('fn', 'dftim%d' % c, (x,))))
        I.store(b, Arr(gsa_len(v), 'map', el))
        return UNIT
    plan = []

    def planner(I, fr, path, j, args, t):
        plan.append((path, args[1]))
        return models.emit(I, path, args, t)
    mods = {'rustfft::Fft::process': process, 'rustfft::FftPlanner::<T>::plan_fft_forward': planner}
    I = ctx.run(SC + 'energy_spectrum', ov=sizes(H, s), facts=f, mods=mods)
    if I is None:
        return
    if len(plan) != 1:
        ctx.undecided('transform', '%d plans' % len(plan), w)
        return
    ctx.eq('transform length', plan[0][1], H, f, w)
    for c, re, im, ln, fi in seen:
        ctx.eq('component %d: input imaginary part' % c, im, ZERO, fi, w)
        ctx.eq('component %d: input length' % c, ln, H, fi, w)
    k = sym('idxk', 'int')
    fk = f.add_le(-k).add_le(k - N + 1)
    pw = lambda i: sum((A(('fn', 'dftre%d' % c, (i,))) ** 2 + A(('fn', 'dftim%d' % c, (i,))) ** 2 for c in range(3)), ZERO)
    ctx.eq('negative wave numbers', arr_at(I.ret, k), pw(k + N), fk, w)
    ctx.eq('non-negative wave numbers', arr_at(I.ret, k + N), pw(k), fk, w)
    ctx.eq('number of entries', gsa_len(I.ret), H, f, w)


def hextp(d, t, base='self'):
    phi = PI * 2 * t * inv(var('tau', base))
    c, s = fn('cos', phi), fn('sin', phi)
    return {'xyplane': [-s, c, ZERO], 'uniaxial': [-s, ZERO, ZERO], 'xyelliptic': [-s, var('e', base) * c, ZERO],
            'staticfield': [ZERO] * 3, 'none': [ZERO] * 3}[d]


def P19(ctx):
    ctx.rule('boundary term = Fokker-Planck drift of the subsystem energy: fluctuation and dissipation at both ends plus dB/dt.M')
    path = SL + 'boundary_term'
    for d in DRIVES:
        H, s, f = any_facts(4, 3)
        I = ctx.run(path, ov=sizes(H, s, d), facts=f)
        if I is None:
            return
        t = sel('self', 't')
        he = hext(d, t)
        g, b = sel('self', 'gamma'), var('beta')
        S0 = [S(ZERO, c) for c in range(3)]
        Sl = [S(s - 1, c) for c in range(3)]
        o1 = [J(ZERO, c) * S(num(1), c) - he[c] - HS(ZERO, c) for c in range(3)]
        ol = [J(s - 2, c) * S(s - 2, c) - he[c] - HS(s - 1, c) for c in range(3)]
        d1, dl = dot3(o1, S0), dot3(ol, Sl)
        hp = hextp(d, t)
        M = [psum(lambda i: S(i, c), s) for c in range(3)]
        want = g * 2 * inv(b) * (d1 + dl) - g * (dot3(S0, S0) * dot3(o1, o1) - d1 * d1 + dot3(Sl, Sl) * dot3(ol, ol) - dl * dl) \
            + PI * 2 * inv(var('tau')) * dot3(hp, M)
        ctx.eq('boundary_term[%s]' % d, I.ret, want, f, ctx.where(path))
    # the closed chain's diagnostic: the undriven part at unit damping
    path = SC + 'boundary_term'
    H, s, f = any_facts(4, 3)
    I = ctx.run(path, ov=sizes(H, s), facts=f)
    if I is None:
        return
    b = var('beta')
    S0, Sl = [S(ZERO, c) for c in range(3)], [S(s - 1, c) for c in range(3)]
    o1 = [J(ZERO, c) * S(num(1), c) - HS(ZERO, c) for c in range(3)]
    ol = [J(s - 2, c) * S(s - 2, c) - HS(s - 1, c) for c in range(3)]
    d1, dl = dot3(o1, S0), dot3(ol, Sl)
    want = num(2) * inv(b) * (d1 + dl) - (dot3(S0, S0) * dot3(o1, o1) - d1 * d1 + dot3(Sl, Sl) * dot3(ol, ol) - dl * dl)
    ctx.eq('boundary_term of the closed chain', I.ret, want, f, ctx.where(path))


PROPS.update(P01=P01, P05=P05, P07=P07, P18=P18, P19=P19)
