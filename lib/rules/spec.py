"""Vocabulary shared by the rules: inputs of a chain, the Hamiltonian, the elementary precession."""
import alg
from alg import P, A, B, Facts, num, sym, ite, ONE, ZERO, TRUE, FALSE, lt, le, eq, lt0, le0, fn, subst, mk_sum, inv
from gsa import Ref, Tup, Arr, St, arr_at, rd, upd, Gate, Opq
import models
import neval

UNIT = Tup([])
PI2 = fn('pi') * 2 if False else None
DRIVES = ['xyplane', 'xyelliptic', 'uniaxial', 'staticfield', 'none']
SC = 'sc::spinchain::SpinChain::'
SL = 'sc::spinchain_langevin::SpinChainLangevin::'
CHAINS = [('spinchain', SC), ('langevin', SL)]


def sel(base, *path, kind='real'):
    return A(('sel', base, tuple(num(x) if isinstance(x, int) else x for x in path), kind))


def S(i, c, base='self'):
    return sel(base, 'spins', i, 'dir', c)


def J(i, c, base='self'):
    return sel(base, 'j_couple', i, c)


def HS(i, c, base='self'):
    return sel(base, 'static_h', i, c)


def var(name, base='self', kind='real'):
    return sel(base, 'vars', name, kind=kind)


def drive_value(prog, name):
    """the drive variant of that name (whatever its position in the enum)"""
    import core
    prog = prog or core.PROG[0]
    ad = prog.adts.get('sc::config::DriveType')
    names = [v['name'] for v in ad[0]['variants']] if ad else DRIVES
    lo = [n.lower().replace('_', '') for n in names]
    return St('sc::config::DriveType', lo.index(name), names[lo.index(name)], {})


def rot_model(I, fr, path, j, args, t):
    r = args[0]
    while isinstance(I.load(r), Ref):
        r = I.load(r)
    v = I.load(r)
    s = rd(v, (('f', 'dir'),))
    fl = models.deref_all(I, args[1])
    dt = args[2]
    key = tuple(arr_at(s, num(i)) for i in range(3)) + tuple(arr_at(fl, num(i)) for i in range(3)) + (dt,)
    key = tuple(I.opaque_num(x, 'real', 'rot') for x in key)
    nd = Tup([A(('fn', 'rot%d' % c, key)) for c in range(3)])
    I.store(r, upd(v, (('f', 'dir'),), nd))
    return UNIT


def rot(s, f, dt):
    """the precession of unit vector s in field f for a time dt (Spin::rotate, whose meaning is P02)"""
    key = tuple(s) + tuple(f) + (dt,)
    return [A(('fn', 'rot%d' % c, key)) for c in range(3)]
