"""Rules about the spin chains (library crate)."""
from .spec import *
from alg import PI
import alg
import gsa


def chain_facts(minh=4, mins=1):
    N = sym('N', 'int')
    H = N * 2
    s = sym('S', 'int')
    f = Facts().add_le(num((minh + 1) // 2) - N).add_le(num(mins) - s).add_le(s - H)
    return N, H, s, f


def any_facts(minh=2, mins=1):
    H = sym('H', 'int')
    s = sym('S', 'int')
    return H, s, Facts().add_le(num(minh) - H).add_le(num(mins) - s).add_le(s - H)


def sizes(H, s, drive=None, base='self'):
    ov = {'vars.hsize': H, 'vars.ssize': s, 'spins.len': H, 'static_h.len': H, 'j_couple.len': H,
          'vars.hs.len': num(3), 'vars.hfield.len': num(3)}
    if drive is not None:
        ov['vars.drive'] = drive_value(None, drive)
    return ov


def hext(d, t, base='self'):
    """driving field table of the documentation"""
    phi = PI * 2 * t * inv(var('tau', base))
    c, s = fn('cos', phi), fn('sin', phi)
    return {'xyplane': [c, s, ZERO], 'uniaxial': [c, ZERO, ZERO], 'xyelliptic': [c, var('e', base) * s, ZERO],
            'staticfield': [sel(base, 'vars', 'hs', i) for i in range(3)], 'none': [ZERO] * 3}[d]


def final_spins(I, base='self'):
    return rd(I.mem[('P', base)], (('f', 'spins'),))


def spin_at(I, v, i, c):
    return arr_at(rd(arr_at(v, i), (('f', 'dir'),)), num(c))


def trotter_spec(N, H, s, field, T1, T2, T3):
    """three sweeps over a periodic even chain; field(i, c) is B_i.  Returns spin(i_even), spin(i_odd)"""
    def om(get, i, left, right, Jl, Jr):
        return [Jl(c) * get(left, c) + Jr(c) * get(right, c) - field(i, c) for c in range(3)]

    last = H - 1

    def even(i, prev, dt):
        # field from odd neighbours, wrapping at site 0
        w = eq(i, ZERO)
        o = []
        for c in range(3):
            l = ite(w, J(last, c) * prev(last, c), J(i - 1, c) * prev(i - 1, c))
            o.append(l + J(i, c) * prev(i + 1, c) - field(i, c))
        return rot([prev(i, c) for c in range(3)], o, dt)

    def odd(i, prev, dt):
        w = eq(i, last)
        o = []
        for c in range(3):
            r = ite(w, prev(ZERO, c), prev(i + 1, c))
            o.append(J(i - 1, c) * prev(i - 1, c) + J(i, c) * r - field(i, c))
        return rot([prev(i, c) for c in range(3)], o, dt)
    return even, odd


def check_update(ctx, drive, fname='update', static=True):
    path = SC + fname
    N, H, s, f = chain_facts()
    I = ctx.run(path, ov=sizes(H, s, drive), facts=f, mods={'sc::spin::Spin::rotate': rot_model})
    if I is None:
        return
    dt = var('dt')
    t0 = sel('self', 't')
    he = hext(drive, t0 + dt * Q2)
    k = sym('idxk', 'int')
    f = f.add_le(-k).add_le(k - N + 1)

    def field(i, c):
        st = HS(i, c) if static else ZERO
        return ite(lt(i, s), st + he[c], st)
    # sweeps are built outward: sweep1 (even, dt/2) on the initial spins, sweep2 (odd, dt), sweep3 (even, dt/2)
    e0 = lambda i, c: S(i, c)
    ev, od = trotter_spec(N, H, s, field, None, None, None)

    def s1(i):          # i even
        return ev(i, e0, dt * Q2)

    def s1get(i, c):    # spin after sweep 1: only called with known parity
        return s1(i)[c] if parity(i, N) == 0 else e0(i, c)

    def s2(i):
        return od(i, s1get, dt)

    def s2get(i, c):
        return s2(i)[c] if parity(i, N) == 1 else s1get(i, c)

    def s3(i):
        return ev(i, s2get, dt * Q2)
    out = final_spins(I)
    w = ctx.where(path)
    for c in range(3):
        ctx.eq('%s[%s]: even site, component %d' % (fname, drive, c), spin_at(I, out, k * 2, c), s3(k * 2)[c], f, w)
        ctx.eq('%s[%s]: odd site, component %d' % (fname, drive, c), spin_at(I, out, k * 2 + 1, c), s2(k * 2 + 1)[c], f, w)
    ctx.eq('%s[%s]: clock' % (fname, drive), rd(I.mem[('P', 'self')], (('f', 't'),)), t0 + dt, f, w)


Q2 = alg.Q(1, 2)


def parity(i, N):
    """parity of an index written as 2*(...)+const"""
    c = 0
    for m, q in i.d.items():
        if not m:
            c = int(q)
        else:
            assert q % 2 == 0
    return c % 2


def P06(ctx):
    ctx.rule('final spins of SpinChain::update as a function of the initial ones equal the even/odd/even splitting')
    for d in DRIVES:
        check_update(ctx, d)


PROPS = {'P06': P06}


def find_draws(p):
    return sorted(a for a in alg.deep_atoms(p) if alg.atom_of(a)[0] == 'draw')


def check_langevin_update(ctx, drive):
    path = SL + 'update'
    N, H, s, f = chain_facts()
    I = ctx.run(path, ov=sizes(H, s, drive), facts=f, mods={'sc::spin::Spin::rotate': rot_model})
    if I is None:
        return
    w = ctx.where(path)
    dt, beta, gam, t0 = var('dt'), var('beta'), sel('self', 'gamma'), sel('self', 't')
    k = sym('idxk', 'int')
    f = f.add_le(-k).add_le(k - N + 1)
    out = final_spins(I)
    sigma2 = gam * dt * 2 * inv(beta)
    # which random number acts on which end: read off the innermost precession of each end
    ends = {}
    for end, site in (('left', ZERO), ('right', H - 1)):
        o = spin_at(I, out, site, 0)
        a = alg.single(Facts_simp(o, f))
        key = None
        while a is not None and alg.atom_of(a)[0] == 'fn' and alg.atom_of(a)[1].startswith('rot'):
            key = alg.atom_of(a)[2]
            a = alg.single(key[0])
        ds = []
        for c in range(3):
            x = find_draws(key[3 + c]) if key is not None else []
            sg = 1
            if len(x) == 1:
                for m, q in key[3 + c].d.items():
                    if any(y == x[0] for y, _ in m) and q > 0:
                        sg = -1     # a Gaussian of mean zero: the sign it enters with is immaterial
            d = alg.P({((x[0], 1),): alg.Q(1)}) if len(x) == 1 else A(('draw', 'normal', (ZERO, ONE), 'none-%s%d' % (end, c), ()))
            ds.append((d, sg))
        ends[end] = ds
    allp = [x for e in ends.values() for x, _ in e]
    if len(set(alg.single(x) for x in allp)) != 6:
        ctx.violated('langevin[%s]: six independent noise components' % drive,
                     'the noise at the two ends is not six distinct random numbers', w)
        return
    for x in allp:
        a = alg.atom_of(alg.single(x))
        if a[1] != 'normal' or tuple(a[2]) != (ZERO, ONE):
            ctx.violated('langevin[%s]: noise distribution' % drive, 'the noise is not Gaussian but %s' % a[1], w)
            return
    ctx.proved('langevin[%s]: six independent Gaussian noise components' % drive, '', w)
    sg = fn('sqrt', sigma2)
    ends = {e: [sg * d * q for d, q in v] for e, v in ends.items()}

    def run_spec(t):
        he = hext(drive, t)

        def field(i, c):
            return ite(lt(i, s), HS(i, c) + he[c], HS(i, c))
        last = H - 1

        def llg(si, om, dh):
            # Omega - gamma S x Omega - noise/dt
            cr = [si[1] * om[2] - si[2] * om[1], si[2] * om[0] - si[0] * om[2], si[0] * om[1] - si[1] * om[0]]
            return [om[c] - gam * cr[c] - dh[c] * inv(dt) for c in range(3)]

        def even(i, prev, step):
            si = [prev(i, c) for c in range(3)]
            bulk = [J(i - 1, c) * prev(i - 1, c) + J(i, c) * prev(i + 1, c) - field(i, c) for c in range(3)]
            end = llg([prev(ZERO, c) for c in range(3)],
                      [J(ZERO, c) * prev(num(1), c) - field(ZERO, c) for c in range(3)], ends['left'])
            return rot(si, [ite(eq(i, ZERO), end[c], bulk[c]) for c in range(3)], step)

        def odd(i, prev, step):
            si = [prev(i, c) for c in range(3)]
            bulk = [J(i - 1, c) * prev(i - 1, c) + J(i, c) * prev(i + 1, c) - field(i, c) for c in range(3)]
            end = llg([prev(last, c) for c in range(3)],
                      [J(last - 1, c) * prev(last - 1, c) - field(last, c) for c in range(3)], ends['right'])
            return rot(si, [ite(eq(i, last), end[c], bulk[c]) for c in range(3)], step)
        e0 = lambda i, c: S(i, c)
        s1 = lambda i: even(i, e0, dt * Q2)
        s1get = lambda i, c: s1(i)[c] if parity(i, N) == 0 else e0(i, c)
        s2 = lambda i: odd(i, s1get, dt)
        s2get = lambda i, c: s2(i)[c] if parity(i, N) == 1 else s1get(i, c)
        return (lambda i: even(i, s2get, dt * Q2)), s2
    ev, od = run_spec(t0 + dt)
    for c in range(3):
        ctx.eq('langevin[%s]: even site, component %d' % (drive, c), spin_at(I, out, k * 2, c), ev(k * 2)[c], f, w)
        ctx.eq('langevin[%s]: odd site, component %d' % (drive, c), spin_at(I, out, k * 2 + 1, c), od(k * 2 + 1)[c], f, w)
    ctx.eq('langevin[%s]: clock' % drive, rd(I.mem[('P', 'self')], (('f', 't'),)), t0 + dt, f, w)


def Facts_simp(p, f):
    return alg.Simp(f).p(p)


def P08(ctx):
    for d in DRIVES:
        check_langevin_update(ctx, d)


PROPS['P08'] = P08


K = sym('k', 'int')


def psum(f, n):
    return mk_sum(f(K), K, n)


def bonds(H):
    return psum(lambda i: sum((S(i, c) * J(i, c) * S(i + 1, c) for c in range(3)), ZERO), H - 1) + \
        sum((S(H - 1, c) * J(H - 1, c) * S(ZERO, c) for c in range(3)), ZERO)


def zeeman(h, n):
    return psum(lambda i: sum((S(i, c) * h(i, c) for c in range(3)), ZERO), n)


def ret_num(ctx, path, drive=None, minh=2, mins=1):
    H, s, f = any_facts(minh, mins)
    I = ctx.run(path, ov=sizes(H, s, drive), facts=f, mods={})
    return H, s, f, I


def P09(ctx):
    ctx.rule('total energy equals the periodic Heisenberg Hamiltonian with the drive on the first ssize sites, per site')
    for nm, pre in CHAINS:
        for fnm in ('total_energy', 'total_energy2'):
            for d in DRIVES:
                H, s, f, I = ret_num(ctx, pre + fnm, d)
                if I is None:
                    continue
                he = hext(d, sel('self', 't'))
                want = (zeeman(lambda i, c: HS(i, c), H) + zeeman(lambda i, c: he[c], s) - bonds(H)) * inv(H)
                ctx.eq('%s::%s[%s]' % (nm, fnm, d), I.ret, want, f, ctx.where(pre + fnm))


def P10(ctx):
    ctx.rule('Monte-Carlo energies equal the static Hamiltonian on the ring they measure')
    H, s, f, I = ret_num(ctx, SC + 'mc_total_energy')
    if I is not None:
        ctx.eq('mc_total_energy', I.ret, (zeeman(HS, H) - bonds(H)) * inv(H), f, ctx.where(SC + 'mc_total_energy'))
    H, s, f, I = ret_num(ctx, SC + 'mc_system_energy')
    if I is not None:
        ctx.eq('mc_system_energy', I.ret, (zeeman(HS, s) - bonds(s)) * inv(s), f, ctx.where(SC + 'mc_system_energy'))


def P11(ctx):
    for nm, pre in CHAINS:
        for d in DRIVES:
            H, s, f, I = ret_num(ctx, pre + 'system_energy', d, mins=2)
            if I is None:
                continue
            he = hext(d, sel('self', 't'))
            want = psum(lambda i: sum((S(i, c) * (HS(i, c) + he[c]) - S(i, c) * J(i, c) * S(i + 1, c) for c in range(3)), ZERO), s - 1) * inv(s - 1)
            ctx.eq('%s::system_energy[%s]' % (nm, d), I.ret, want, f, ctx.where(pre + 'system_energy'))


def P13(ctx):
    for nm, pre in CHAINS:
        for fnm in ('m', 'm_tot'):
            H, s, f, I = ret_num(ctx, pre + fnm)
            if I is None:
                continue
            n = s if fnm == 'm' else H
            ctx.vec('%s::%s' % (nm, fnm), I.ret, [psum(lambda i: S(i, c), n) for c in range(3)], f, ctx.where(pre + fnm))


PROPS.update(P09=P09, P10=P10, P11=P11, P13=P13)

SPIN = 'sc::spin::Spin::'


def unit3(name):
    v = [sym('%s%d' % (name, i)) for i in range(3)]
    alg.unit_vector(*v)
    return v


def spin_val(v):
    return St('sc::spin::Spin', None, '', {'dir': Tup(list(v))})


def run_method(ctx, path, selfv, args):
    """evaluate a method on an explicit spin; returns (interp, final self dir)"""
    mem = {('P', 'self'): spin_val(selfv)}
    a = [Ref(('P', 'self'))]
    for i, x in enumerate(args):
        if isinstance(x, list):
            mem[('P', 'arg%d' % i)] = Tup(x)
            a.append(Ref(('P', 'arg%d' % i)))
        else:
            a.append(x)
    I = ctx.run(path, a, mem=mem)
    if I is None:
        return None, None
    return I, rd(I.mem[('P', 'self')], (('f', 'dir'),))


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot3(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def P02(ctx):
    ctx.rule('Spin::rotate equals the Rodrigues rotation of a unit spin by -|field|*dt about field; identity for zero field')
    path = SPIN + 'rotate'
    n, s = unit3('n'), unit3('s')
    F, dt = alg.positive(sym('F')), sym('dt')
    w = ctx.where(path)
    I, d = run_method(ctx, path, s, [[F * x for x in n], dt])
    if I is not None:
        c, sn = fn('cos', F * dt), fn('sin', F * dt)
        x = cross3(n, s)
        ns = dot3(n, s)
        ctx.vec('rotate', d, [s[i] * c + n[i] * ns * (ONE - c) - x[i] * sn for i in range(3)], None, w)
    I, d = run_method(ctx, path, s, [[ZERO] * 3, dt])
    if I is not None:
        ctx.vec('rotate in zero field', d, s, None, w)


def P03(ctx):
    ctx.rule('theta/phi of a spin rebuild the spin through the constructor from angles, on all octants and the coordinate planes')
    th, ph = sym('th'), sym('ph')
    want = [fn('cos', th) * fn('sin', ph), fn('sin', th) * fn('sin', ph), fn('cos', ph)]
    I = ctx.run(SPIN + 'new_from_angles', [th, ph])
    if I is not None:
        ctx.vec('new_from_angles', rd(I.ret, (('f', 'dir'),)), want, None, ctx.where(SPIN + 'new_from_angles'))
    I, d = run_method(ctx, SPIN + 'set_angles', unit3('s'), [th, ph])
    if I is not None:
        ctx.vec('set_angles', d, want, None, ctx.where(SPIN + 'set_angles'))
    s = unit3('s')
    q = [sym('pa'), sym('pb')]
    cases = {'generic spin': s}
    b, c2 = sym('yb'), sym('zb')
    # spins in the coordinate planes, parametrised by an angle
    for nm, v in (('spin with x = 0', [ZERO, fn('sin', q[0]), fn('cos', q[0])]),
                  ('spin with y = 0', [fn('sin', q[0]), ZERO, fn('cos', q[0])]),
                  ('spin with z = 0', [fn('cos', q[0]), fn('sin', q[0]), ZERO]),
                  ('spin along +x', [ONE, ZERO, ZERO]), ('spin along -x', [-ONE, ZERO, ZERO]),
                  ('spin along +y', [ZERO, ONE, ZERO]), ('spin along -y', [ZERO, -ONE, ZERO]),
                  ('spin along +z', [ZERO, ZERO, ONE]), ('spin along -z', [ZERO, ZERO, -ONE])):
        cases[nm] = v
    for nm, v in cases.items():
        I1, _ = run_method(ctx, SPIN + 'theta', v, [])
        I2, _ = run_method(ctx, SPIN + 'phi', v, [])
        if I1 is None or I2 is None:
            return
        t, p = core_num(I1.ret), core_num(I2.ret)
        if t is None or p is None:
            ctx.undecided('angles of ' + nm, 'not resolved', ctx.where(SPIN + 'theta'))
            continue
        got = [fn('cos', t) * fn('sin', p), fn('sin', t) * fn('sin', p), fn('cos', p)]
        if nm in ('spin along +z', 'spin along -z'):
            # the sine of phi is zero there, and hides an angle which is no number
            if gsa.isnan(t):
                ctx.violated('angles of ' + nm, 'theta is zero divided by zero, so the direction rebuilt from the angles is not a number',
                             ctx.where(SPIN + 'theta'))
                continue
        for i in range(3):
            ctx.eq('angles rebuild %s, component %d' % (nm, i), got[i], v[i], None, ctx.where(SPIN + 'theta'))


def core_num(v):
    import core
    return core.as_num(v)


PROPS.update(P02=P02, P03=P03)


def load_all():
    from . import sampler
    from . import init, frame
    PROPS.update(P17=init.P17, P04=init.P04)
    PROPS['P14'] = sampler.P14
    PROPS['P15'] = sampler.P15
    PROPS['P16'] = sampler.P16


# ---------------------------------------------------------------------------- P48
class Quiet:
    """a context whose verdicts are collected and not reported"""
    def __init__(self, ctx):
        self.ctx, self.bad, self.n = ctx, False, 0

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def eq(self, name, got, want, facts=None, where='', rules=(), opq_ok=()):
        keep = self.ctx.obs
        self.ctx.obs = []
        try:
            r = self.ctx.eq(name, got, want, facts, where)
        finally:
            self.ctx.obs = keep
        self.n += 1
        self.bad = self.bad or not r
        return r

    @property
    def ok(self):
        return self.n > 0 and not self.bad


def conserved(ctx, d):
    """energy of the chain after a step minus that before it, with a drive which does not change with time"""
    path = SC + 'update'
    q = Quiet(ctx)
    check_update(q, d)
    same = q.ok
    N, H, s, f = chain_facts()
    I = ctx.run(path, ov=sizes(H, s, d), facts=f, mods={'sc::spin::Spin::rotate': rot_model})
    if I is None:
        return
    w = ctx.where(path)
    he = hext(d, sel('self', 't'))
    doc = (zeeman(HS, H) + zeeman(lambda i, c: he[c], s) - bonds(H)) * inv(H)
    for nm in ('total_energy', 'total_energy2'):
        name = '%s conserves %s [%s]' % ('update', nm, d)
        A = ctx.run(SC + nm, ov=sizes(H, s, d), facts=f)
        if A is None:
            continue
        q = Quiet(ctx)
        q.eq('energy', A.ret, doc, f, w)
        if same and q.ok:
            ctx.proved(name, 'each sweep turns spins, none next to another, about minus the gradient of the energy', w)
            continue
        Z = ctx.run(SC + nm, ov=sizes(H, s, d), facts=f, mem=dict(I.mem))
        if Z is None:
            continue
        ctx.eq(name, Z.ret, A.ret, f, w)


def P48(ctx):
    ctx.rule('each sweep of SpinChain::update turns the spins of one sublattice about minus the gradient of the reported total energy; '
             'otherwise energy after a step == energy before it, as functions of the state')
    for d in ('none', 'staticfield'):
        conserved(ctx, d)


PROPS.update(P48=P48)
