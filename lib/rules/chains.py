"""Abstract chains for the rules about the program around them: every operation of a chain (whose own meaning is
decided elsewhere, P01-P19) is an event acting on an opaque state; what it does to the clock, the settings and the
state version is what those properties establish."""
from .spec import *
from alg import single, A, P, num, sym, ite
import gsa
import models
from gsa import Opq, Ref, Tup, Arr, St, rd, upd

SAMPLERS = ['metropolis_update', 'metropolis_update_maglab', 'metropolis_update_rot_magnus', 'metropolis_update_mag_full',
            'metropolis_update_magnus']
STEPS = ['update', 'update_no_field']
LOGS = ['log', 'log_ext', 'log_fft']
SCALARS = ['total_energy2', 'total_energy', 'system_energy', 'mc_total_energy', 'mc_system_energy', 'mc_system_energy_maglab',
           'mc_system_energy_rot', 'boundary_term']


def target(I, r):
    """the place a chain lives in"""
    while isinstance(r, Ref) and isinstance(I.load(r), Ref):
        r = I.load(r)
    return r


def real(I, v):
    return I.opaque_num(v, 'real', 'field')


def state(I):
    return A(('draw', 'state', (), I.seq, tuple(I.loopk)))


def spins_of(v, n):
    return Arr(n, 'map', lambda i: St('sc::spin::Spin', None, '', {
        'dir': Tup([A(('fn', 'spin%d' % c, (v, i))) for c in range(3)])}))


def m_new(which):
    def m(I, fr, path, j, args, t):
        conf = models.deref_all(I, args[0])
        I.seq += 1
        v = state(I)
        n = rd(conf, (('f', 'hsize'),))
        I.seq += 1
        f = {'vars': conf, 't': -rd(conf, (('f', 'trel'),)), 'spins': spins_of(v, n), 'ver': v,
             'j_couple': Arr(n, 'map', lambda i: Tup([A(('fn', 'coupling%d' % c, (i,))) for c in range(3)])),
             'static_h': Arr(n, 'map', lambda i: Tup([A(('fn', 'statich%d' % c, (i,))) for c in range(3)])),
             'file': Opq('logfile', (v,)), 'num': args[1]}
        if len(args) > 2:
            f['gamma'] = args[2]
        st = St('sc::%s' % which, None, '', f)
        models.emit(I, 'new', [conf, args[1]] + list(args[2:]), t)
        return st
    return m


def m_step(name, dt):
    def m(I, fr, path, j, args, t):
        r = target(I, args[0])
        v = I.load(r)
        I.seq += 1
        nv = state(I)
        models.emit(I, name, [v, nv], t)
        v = upd(v, (('f', 'ver'),), nv)
        v = upd(v, (('f', 'spins'),), spins_of(nv, I.opaque_num(rd(v, (('f', 'vars'), ('f', 'hsize'))), 'int', 'field')))
        if dt:
            v = upd(v, (('f', 't'),), real(I, rd(v, (('f', 't'),))) + real(I, rd(v, (('f', 'vars'), ('f', 'dt')))))
        I.store(r, v)
        return UNIT
    return m


def m_log(name):
    def m(I, fr, path, j, args, t):
        models.emit(I, name, [I.load(target(I, args[0]))], t)
        return UNIT
    return m


def version(I, v):
    return real(I, rd(v, (('f', 'ver'),))) if 'ver' in getattr(v, 'f', {'ver': 0}) else ZERO


def obs_atom(I, name, v, c=''):
    ver, tt = version(I, v), real(I, rd(v, (('f', 't'),)))
    return A(('fn', 'obs:%s%s' % (name, c), (ver, tt)))


def m_scalar(name):
    def m(I, fr, path, j, args, t):
        return obs_atom(I, name, I.load(target(I, args[0])))
    return m


def m_vec(name):
    def m(I, fr, path, j, args, t):
        v = I.load(target(I, args[0]))
        return Tup([A(('fn', 'obs:%s%d' % (name, c), (version(I, v),))) for c in range(3)])
    return m


def chain_models():
    d = {}
    for which, pre in (('spinchain::SpinChain', SC), ('spinchain_langevin::SpinChainLangevin', SL)):
        d[pre + 'new'] = m_new(which)
        for n in SAMPLERS:
            d[pre + n] = m_step(n, False)
        for n in STEPS:
            d[pre + n] = m_step(n, True)
        for n in LOGS:
            d[pre + n] = m_log(n)
        for n in SCALARS:
            d[pre + n] = m_scalar(n)
        for n in ('m', 'm_tot'):
            d[pre + n] = m_vec(n)
        d[pre + 'read_config'] = m_read
        d[pre + 'solve_beta'] = lambda I, fr, path, j, args, t: A(('fn', 'solve_beta', (args[0],)))
    return d


def config_type(prog):
    for c in ('sc-lib', 'sc-bin'):
        for k, ty in enumerate(prog.files[c]['types']):
            if ty['k'] == 'adt' and ty['path'] == 'sc::config::Config':
                return c, k


def m_read(I, fr, path, j, args, t):
    models.emit(I, 'read_config', [models.deref_all(I, args[0])], t)
    c, k = config_type(I.prog)
    return I.symval(c, k, 'saved', ())
