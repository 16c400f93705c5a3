"""No valid size makes an operation fail (P47)."""
import alg
import core
import neval
from alg import band, Simp
from .flow import *
from .physics import chain_facts, sizes
from .spec import *

ENTRIES = {
    SC: ['new', 'update', 'update_no_field', 'total_energy', 'total_energy2', 'system_energy', 'mc_total_energy', 'mc_system_energy',
         'mc_system_energy_rot', 'mc_system_energy_maglab', 'metropolis_update', 'metropolis_update_maglab', 'metropolis_update_magnus',
         'metropolis_update_rot_magnus', 'metropolis_update_mag_full', 'boundary_term', 'energy_spectrum', 'm', 'm_tot', 'log', 'log_ext',
         'log_fft'],
    SL: ['new', 'update', 'total_energy', 'total_energy2', 'system_energy', 'metropolis_update', 'metropolis_update_magnus', 'boundary_term',
         'm', 'm_tot', 'log'],
}
WHAT = {'bounds': 'index within bounds', 'overflow': 'difference or narrow number within its type', 'div0': 'divisor not zero',
        'rem0': 'divisor not zero', 'panic': 'panic not reached', 'unwrap': 'value present', 'range': 'range not empty'}


def checked_run(ctx, path, ov, facts, mods, **kw):
    """value graph with what must not fail recorded"""
    return ctx.run(path, ov=ov, facts=facts, mods=mods, checked=True, **kw)


def obligations(ctx, label, I, facts):
    """every operation which may fail: does a valid input reach it in a failing state"""
    sites = {}
    for o in walk(I.events):
        if o.e.kind == 'must':
            sites.setdefault((o.e.fn, tuple(o.e.sp or ())[:2], o.callee), []).append(o)
    n = 0
    for (fn_, sp, what), occ in sorted(sites.items(), key=lambda kv: str(kv[0])):
        at = '%s:%s (%s)' % (sp[0], sp[1], fn_) if sp else str(fn_)
        name = '%s: %s at %s:%s' % (label, WHAT.get(what, what), sp[0] if sp else '?', sp[1] if sp else '?')
        worst = None
        for o in occ:
            f = facts
            for l in o.loops:
                k, trip = l.info['k'], l.info['trip']
                f = f.add_le(-k)
                if trip is not None:
                    f = f.add_le(k - trip + 1)
            r = fails(band(o.pc(), o.args[0]), f)
            n += 1
            if r is not None and (worst is None or r[0] == 'v'):
                worst = r
        if worst is None:
            ctx.proved(name, '%d occurrence(s)' % len(occ), at)
        elif worst[0] == 'v':
            ctx.violated(name, worst[1], at)
        else:
            ctx.undecided(name, worst[1], at)
    ctx.count('operations examined', n)
    ctx.count('sites', len(sites))


def fails(c, facts):
    """None: never; ('v', why): a witness; ('u', why)"""
    try:
        with core.limit(30):
            if Simp(facts).b(c) is FALSE:
                return None
            x = ite(c, ONE, ZERO)
            if alg.equal(x, ZERO, facts).ok:
                return None
    except (core.Timeout, RecursionError):
        return 'u', 'analysis budget exhausted'
    more = neval.unresolved(x, ZERO, facts)
    if more:
        return 'u', 'depends on a value the analysis does not resolve'
    loose = free_indices(x)
    if loose:
        return 'u', 'not bounded: %s' % loose
    try:
        with core.limit(20):
            d = neval.differ(x, ZERO, facts)
    except (core.Timeout, RecursionError):
        d = None
    if d is None:
        return 'u', 'no failing valuation found: %s' % repr(c)[:150]
    return 'v', 'fails when %s, e.g. with %s' % (repr(c)[:200], core.ints(d[0]))


def free_indices(x):
    """positions in a sequence about which nothing is known"""
    for i in alg.deep_atoms(x):
        a = alg.atom_of(i)
        if a[0] == 'sym' and a[2:3] == ('int',) and str(a[1]).startswith('idx') and i not in alg.BOUNDS:
            return a[1]
    return None


def P47(ctx):
    ctx.rule('every slice, vector and array index of the chains is within bounds, no difference of unsigned numbers is negative and no '
             'divisor is zero, for every even number of sites from 4 on, every number of driven sites from 2 up to it, every drive, every '
             'site drawn and every iteration')
    N, H, s, f = chain_facts(minh=4, mins=2)
    for nm, base in CHAINS:
        for n in ENTRIES[base]:
            path = base + n
            if ctx.prog.find(path) is None:
                ctx.undecided('%s %s' % (nm, n), 'no such function', path)
                continue
            ov = dict(sizes(H, s))
            if n == 'new':
                ov = {'conf.hsize': H, 'conf.ssize': s, 'conf.hfield.len': num(3), 'conf.hs.len': num(3)}
            I = checked_run(ctx, path, ov, f, {'sc::spin::Spin::rotate': rot_model})
            if I is not None:
                obligations(ctx, '%s %s' % (nm, n), I, f)
    ctx.rule('the same for the modes of the program (readings of log files apart), with at least one thread and one record asked for and '
             'a period of a whole number of time steps')
    hs, ss = sel('conf', 'hsize', kind='int'), sel('conf', 'ssize', kind='int')
    g = Facts().add_le(num(4) - hs).add_le(num(2) - ss).add_le(ss - hs)
    for k in ('threads', 'mc_points'):
        g = g.add_le(num(1) - sel('conf', k, kind='int'))
    M = sym('M', 'int')
    g = g.add_le(num(1) - M)
    ov = {'conf.dt': sel('conf', 'tau') * inv(M)}
    for n in MODES:
        path = 'sc::obs::' + n
        if ctx.prog.find(path) is None:
            continue
        I = run_bin(ctx, path, ov=ov, facts=g, checked=True)
        if I is not None:
            obligations(ctx, n, I, g)


MODES = ['estim_e', 'estim_e2', 'estim_eh', 'estim_e_rot', 'estim_e_maglab', 'get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab',
         'gen_hist', 'gen_hist_magnus', 'gen_hist_dynamics', 'gen_single_traj', 'trajectory_mean_e', 'run_tau', 'run_langevin', 'run_sim',
         'run_sim_response', 'run_ext', 'run_mc', 'run_mc_magnus']

PROPS = {'P47': P47}
