"""What is written: log lines, records of the sampling modes (P24, P25)."""
from .flow import *
from . import chains, runs
from .runs import obs, is_path, inloop, facts_for, chain_of, fld, THERMAL
from alg import Subst, single
from .init import cv
import neval
from gsa import Ev


def columns(ctx, name, s, want, labels, facts, where):
    """the record is exactly these values, space separated"""
    if not isinstance(s, Str):
        ctx.undecided(name, 'text not resolved: %s' % repr(s)[:100], where)
        return None
    parts = list(s.parts)
    if parts and isinstance(parts[-1], str):
        if parts[-1].endswith('\n\n'):
            ctx.violated(name + ': one line', 'a blank line after the record: %s' % show_str(s)[-80:], where)
            return False
        parts[-1] = parts[-1].rstrip('\n')
        if parts[-1] == '':
            parts.pop()
    got = fields(Str(parts))
    if len(got) != len(want):
        if any(isinstance(p, Opq) and p.tag not in ('fmt',) and not p.tag.startswith('in') for p in parts):
            ctx.undecided(name, 'text not resolved: %s' % show_str(s)[:120], where)
            return None
        ctx.violated(name + ': columns', '%d columns instead of %d (%s): %s' % (len(got), len(want), ' '.join(labels), show_str(s)[:200]), where)
        return False
    r = True
    for g, w, l in zip(got, want, labels):
        nm = '%s: column %s' % (name, l)
        v = one(g)
        if v is None:
            ctx.undecided(nm, 'not resolved: %s' % repr(g)[:100], where)
            r = None
            continue
        x = ctx.eq(nm, v, w, facts, where)
        r = r and x
    return r


def one(g):
    if len(g) != 1:
        return None
    v = g[0]
    if isinstance(v, str):
        try:
            from fractions import Fraction
            return num(Fraction(v))
        except ValueError:
            return None
    if isinstance(v, Opq) and v.tag == 'fmt' and all(k in ('debug', 'lower_exp', 'upper_exp') for k, x in v.deps[1]):
        v = v.deps[0]           # another notation of the same number
    return core.as_num(v)


def text_of(o):
    for a in o.args[1:]:
        if isinstance(a, Str):
            return a
    return None


def prints(occs, kinds=('std::io::Write::write_fmt', 'Sender::send', 'std::io::Write::write_all')):
    out = []
    for o in occs:
        if o.callee in kinds:
            p = joint(out[-1], o) if out else None
            if p is None:
                out.append(o)
            else:
                out[-1] = p
    return out


def joint(a, b):
    """two pieces of a line, written in turn to the same file, as one"""
    s, t = text_of(a), text_of(b)
    if a.callee == 'Sender::send' or b.callee == 'Sender::send' or not isinstance(s, Str) or not isinstance(t, Str):
        return None
    if s.parts and isinstance(s.parts[-1], str) and s.parts[-1].endswith('\n'):
        return None
    if len(a.path) != len(b.path) or any(x is not y for x, y in zip(a.path, b.path)) or a.e.pc is not b.e.pc or repr(a.args[0]) != repr(b.args[0]):
        return None
    e = b.e
    args = [Str(s.parts + t.parts) if x is t else x for x in e.args]
    return Occ(Ev(e.kind, e.callee, args, e.pc, e.sp, e.body, e.info, e.fn), b.path)


def some_file(ctx, name, o, where):
    """the line goes to the chain's own log"""
    f = o.args[0]
    if isinstance(f, Opq) and f.tag.startswith('in:std::fs::File') and "'file'" in repr(f.deps):
        ctx.proved(name + ': goes to the log of the chain', '', where)
    else:
        ctx.undecided(name + ': goes to the log of the chain', repr(f)[:100], where)


XYZ = 'xyz'


def P24(ctx):
    ctx.rule('a log line holds, in order, clock, energy of the chain, energy of the subsystem, subsystem magnetisation per site, total m_z per site, and the diagnostics of the chain type; written once, if there is a log file')
    d = chains.chain_models()
    for n in ('log', 'log_ext'):
        for pre in (SC, SL):
            d.pop(pre + n, None)
    H, s = var('hsize', kind='int'), var('ssize', kind='int')
    t = sel('self', 't')
    ob = lambda n: A(('fn', 'obs:' + n, (ZERO, t)))
    mv = lambda n, c: A(('fn', 'obs:%s%d' % (n, c), (ZERO,)))
    hasf = bnot(alg_isnone('self', 'file'))
    f = Facts().add_le(num(4) - H).add_le(num(1) - s).add_le(s - H)
    for which, pre in CHAINS:
        w = ctx.where(pre + 'log')
        I = ctx.run(pre + 'log', mods=d, facts=f)
        if I is None:
            continue
        oc = prints(list(walk(I.events)))
        if which == 'spinchain':
            want = [t, ob('total_energy2'), ob('system_energy')]
        else:
            want = [t, ob('system_energy'), ob('system_energy')]
        lab = ['t', 'e', 'e_sub', 'mx', 'my', 'mz', 'mz_total']
        want += [mv('m', c) * inv(s) for c in range(3)] + [mv('m_tot', 2) * inv(H)]
        if which == 'spinchain':
            for q, l in ((fn('idiv', s, num(4)), 's/4'), (fn('idiv', s * 3, num(4)), '3s/4')):
                want += [S(q, c) for c in range(3)]
                lab += ['S_%s(%s)' % (XYZ[c], l) for c in range(3)]
        else:
            want.append(ob('boundary_term'))
            lab.append('boundary_term')
        line(ctx, which + '::log', oc, want, lab, hasf, f, w)
    # spatially resolved log
    w = ctx.where(SC + 'log_ext')
    for dr in DRIVES:
        from .physics import sizes, hext
        f = Facts().add_le(num(4) - H).add_le(num(1) - s).add_le(s - H)
        I = ctx.run(SC + 'log_ext', mods={}, facts=f, ov={'vars.drive': drive_value(ctx.prog, dr)})
        if I is None:
            continue
        oc = prints(list(walk(I.events)))
        nm = 'spinchain::log_ext[%s]' % dr
        sep = [o for o in oc if not o.loops]
        oc = [o for o in oc if o.loops]
        if len(oc) != 1:
            ctx.undecided(nm, '%d lines' % len(oc), w) if oc or sep else ctx.violated(nm, 'no line is written', w)
            continue
        txt = [p for o in sep for p in (text_of(o).parts if isinstance(text_of(o), Str) else (None,))]
        if None in txt:
            ctx.undecided(nm + ': blank line after the sites', 'text not resolved', w)
        elif txt != ['\n'] or sep[0].seq < oc[0].seq:
            ctx.violated(nm + ': blank line after the sites', 'instead: %r' % txt, sep[0].at() if sep else w)
        else:
            ctx.eq(nm + ': blank line after the sites', count(sep), ite(hasf, ONE, ZERO), f, sep[0].at())
        o = oc[0]
        ends(ctx, nm, o)
        l = o.loops[-1]
        runs.trip(ctx, nm + ': interior sites', l, H - 2, w)
        k = l.info['k']
        fl = f.add_le(-k).add_le(k - H + 3)
        got = fields(Str([p for p in text_of(o).parts if p != '\n']))
        j = one(got[1]) if len(got) > 1 else None
        if j is None:
            ctx.undecided(nm + ': site', 'not resolved', o.at())
            continue
        ctx.eq(nm + ': site', j, k + 1, fl, o.at())
        j = k + 1
        he = hext(dr, t)
        e = ZERO
        for c in range(3):
            e = e - (S(j - 1, c) * J(j - 1, c) * S(j, c) + S(j, c) * J(j, c) * S(j + 1, c)) / 2
            e = e + ite(lt(j, s), (HS(j, c) + he[c]) * S(j, c), ZERO)
        columns(ctx, nm, text_of(o), [t, j, e] + [S(j, c) for c in range(3)], ['t', 'j', 'e', 'Sx', 'Sy', 'Sz'], fl, o.at())
        ctx.eq(nm + ': one line per site if there is a log', count([o], l), ite(hasf, ONE, ZERO), fl, o.at())
        if dr == DRIVES[0]:
            some_file(ctx, nm, o, o.at())


def line(ctx, nm, oc, want, lab, hasf, f, w):
    if not oc:
        ctx.violated(nm + ': a line is written', 'nothing is written', w)
        return
    ctx.eq(nm + ': one line, if there is a log', count(oc), ite(hasf, ONE, ZERO), f, w)
    for o in oc:
        if o.loops:
            ctx.undecided(nm, 'written in a loop', o.at())
            continue
        s = text_of(o)
        ends(ctx, nm, o)
        columns(ctx, nm, s, want, lab, f, o.at())
        some_file(ctx, nm, o, o.at())


def broken(s):
    return isinstance(s, Str) and bool(s.parts) and isinstance(s.parts[-1], str) and s.parts[-1].endswith('\n')


def ends(ctx, nm, o):
    s = text_of(o)
    if isinstance(s, Str) and not (s.parts and isinstance(s.parts[-1], str) and s.parts[-1].endswith('\n')):
        ctx.violated(nm + ': ends the line', 'no line break: %s' % show_str(s)[-60:], o.at())


def alg_isnone(base, *path):
    from alg import bvar
    return bvar(('isv', base, tuple(path), 'None'))


# ------------------------------------------------------------------ sampling modes
def after(o, r, m_dt):
    """version and clock of the chain once the steps o before record r are done, and facts under which there was one"""
    s = Subst({})
    m = {}
    f = Facts()
    for l in reversed(o.loops):
        if r.inside(l):
            continue
        n = l.info.get('trip')
        if n is None:
            return None
        m[single(l.info['k'])] = n - 1
        f = f.add_le(num(1) - n)
    v, t = core.as_num(o.args[1]), fld(o, 't')
    if v is None or t is None:
        return None
    if o.callee in chains.STEPS:
        t = t + m_dt
    # innermost substitutions first: bounds of inner loops may not mention outer counters here
    s = Subst(m)
    return s.p(v), s.p(t), f


def spin_at(v, i, c):
    return A(('fn', 'spin%d' % c, (v, i)))


def ob_at(n, v, t):
    return A(('fn', 'obs:' + n, (v, t)))


def m_at(n, c, v):
    return A(('fn', 'obs:%s%d' % (n, c), (v,)))


def m_cols(v, s):
    return [m_at('m', c, v) * inv(s) for c in range(3)]


def probe(v, s):
    out = []
    for q in (fn('idiv', s, num(4)), fn('idiv', s * 3, num(4))):
        out += [spin_at(v, q, c) for c in range(3)]
    return out


M3 = ['mx', 'my', 'mz']
P6 = ['S_%s(%s)' % (c, l) for l in ('s/4', '3s/4') for c in XYZ]


def opened(o, recv_map):
    """name of the file a record ends up in: follows the channel to the writing thread"""
    f = o.args[0]
    if o.callee == 'Sender::send':
        f = recv_map.get(repr(f))
    return path_in(f)


def path_in(v, depth=0):
    """the path a file handle was opened with"""
    if depth > 30 or v is None:
        return None
    if isinstance(v, Opq):
        if v.tag in ('call:std::fs::OpenOptions::open', 'call:std::fs::File::create'):
            for d in v.deps:
                if isinstance(d, Str):
                    return d
            return None
        for d in v.deps:
            r = path_in(d, depth + 1)
            if r is not None:
                return r
    return None


def writers(occ):
    """sender -> file of the thread that drains its receiver"""
    out = {}
    for o in occ:
        if o.callee == 'std::io::Write::write_fmt' and o.spawns:
            for p in [o] + [x for x in occ if x.spawns and x.spawns[-1] is o.spawns[-1]]:
                for a in p.args:
                    for d in chans(a):
                        out[repr(Opq('sender', (d,)))] = o.args[0]
    return out


def chans(v, depth=0):
    if depth > 8:
        return set()
    out = set()
    if isinstance(v, Opq):
        if v.tag in ('receiver', 'recv'):
            return {v.deps[0]}
        for d in v.deps:
            out |= chans(d, depth + 1)
    elif isinstance(v, Str):
        for d in v.parts:
            out |= chans(d, depth + 1)
    elif isinstance(v, (tuple, list)):
        for d in v:
            out |= chans(d, depth + 1)
    elif isinstance(v, (St,)):
        for d in v.f.values():
            out |= chans(d, depth + 1)
    elif isinstance(v, Tup):
        for d in v.v:
            out |= chans(d, depth + 1)
    return out


def per(o, stop):
    """number of repetitions of the step per record"""
    n = ONE
    for l in reversed(o.loops):
        if stop.inside(l):
            break
        if l.info.get('trip') is None:
            return None
        n = n * l.info['trip']
    return n


class Rec:
    pass


def records(ctx, fname, names, file=None):
    I = run_bin(ctx, obs(fname), names=names)
    if I is None:
        return None
    r = Rec()
    r.I, r.w, r.fname = I, ctx.where(obs(fname)), fname
    r.occ = list(walk(I.events))
    r.map = writers(r.occ)
    r.steps = named(r.occ, *(chains.STEPS + chains.SAMPLERS))
    r.recs = []
    r.wends = []            # whether the writing threads break the line
    for o in prints(r.occ):
        if not isinstance(text_of(o), Str):
            continue
        p = opened(o, r.map)
        if o.callee != 'Sender::send' and o.spawns and any(chans(a) for a in o.args):
            r.wends.append(broken(text_of(o)))
            continue        # the writing thread itself
        r.recs.append((o, p))
    return r


def clock(ctx, nm, r, x, moves):
    """the clock of the chain counts the steps made since -trel, and stands still under Monte-Carlo moves"""
    t = runs.fld(x, 't')
    start = -conf('trel')
    if moves != 'update':
        want = start
    elif len(x.loops) != 2:
        return
    elif nm == 'gen_hist_dynamics':             # a chain of its own per record
        want = start + conf('dt') * x.loops[1].info['k']
    elif nm.startswith('gen_hist/') and x.loops[1].info.get('trip') is not None:
        want = start + conf('dt') * (x.loops[0].info['k'] * x.loops[1].info['trip'] + x.loops[1].info['k'])
    else:
        return
    if t is None:
        ctx.undecided(nm + ': clock at a move', 'not resolved', x.at())
        return
    f = Facts()
    for l in x.loops:
        f = f.add_le(-l.info['k'])
        if l.info.get('trip') is not None:
            f = f.add_le(l.info['k'] - l.info['trip'] + 1)
    ctx.eq(nm + ': clock at a move', t, want, f, x.at())


def check_record(ctx, nm, r, o, moves, each, build, labels, total, totname, dt=None):
    """record o is written total times; before each, `each` moves of the given kind; its columns are build(v, t)"""
    last = [x for x in r.steps if x.seq < o.seq and all(o.inside(q) for q in x.spawns)]
    if not last:
        ctx.violated(nm + ': taken after Monte-Carlo moves or dynamics', 'no move or step precedes the record', o.at())
        return
    x = max(last, key=lambda q: q.seq)
    if x.callee != moves:
        ctx.violated(nm + ': how the state is produced', '%s instead of %s' % (x.callee, moves), x.at())
        return
    n = per(x, o)
    if n is None:
        ctx.undecided(nm + ': moves before a record', 'number not resolved', x.at())
    elif each is not None:
        ctx.eq(nm + ': moves before a record', n, each, Facts(), x.at())
    clock(ctx, nm, r, x, moves)
    af = after(x, o, dt)
    if af is None:
        ctx.undecided(nm, 'state at the record not resolved', o.at())
        return
    v, t, f = af
    if o.callee != 'Sender::send':
        ends(ctx, nm, o)
    elif r.wends and len(set(r.wends)) == 1:
        b = broken(text_of(o))
        if b and r.wends[0]:
            ctx.violated(nm + ': one line', 'both the record and the writing thread break the line', o.at())
        elif not b and not r.wends[0]:
            ctx.violated(nm + ': ends the line', 'neither the record nor the writing thread breaks the line', o.at())
        else:
            ctx.proved(nm + ': ends the line', 'once', o.at())
    for l in o.loops:
        k = l.info['k']
        f = f.add_le(-k)
        if l.info.get('trip') is not None:
            f = f.add_le(k - l.info['trip'] + 1)
    columns(ctx, nm, text_of(o), build(v, t), labels, f, o.at())
    if total is not None:
        outer = o.loops[0] if o.loops else None
        if outer is None:
            ctx.violated(nm + ': ' + totname, 'a single record', o.at())
            return
        m = ONE
        for l in o.loops:
            if l.info.get('trip') is None:
                m = None
                break
            m = m * l.info['trip']
        if m is None:
            ctx.undecided(nm + ': ' + totname, 'number of records not resolved', o.at())
        else:
            ctx.eq(nm + ': ' + totname, m, total, Facts().add_le(num(1) - total), o.at())
        ctx.eq(nm + ': a record each time', count([o], outer), ONE, f, o.at())


def in_file(r, name):
    return [(o, p) for o, p in r.recs if p is not None and p.parts == (name,)]


def P25(ctx):
    ctx.rule('every record of a sampling mode is taken after its number of moves of its kind and lists the documented observables of that very state')
    s = conf('ssize', 'int')
    N = sel('samples', kind='int')
    # Monte-Carlo and dynamical histogram
    r = records(ctx, 'gen_hist', ('conf', 'samples'))
    if r is not None:
        for file, mv in (('hist_mc.dat', 'metropolis_update'), ('hist_dyn.dat', 'update')):
            rs = in_file(r, file)
            nm = 'gen_hist/' + file
            if len(rs) != 1:
                miss(ctx, nm, r, rs)
                continue
            o = rs[0][0]
            k = o.loops[0].info['k'] if o.loops else ZERO
            check_record(ctx, nm, r, o, mv, num(10000), lambda v, t: [k] + m_cols(v, s) + [ob_at('system_energy', v, t)] + probe(v, s),
                         ['i'] + M3 + ['e'] + P6, N, 'number of records', conf('dt'))
    r = records(ctx, 'gen_hist_magnus', ('conf', 'samples'))
    if r is not None:
        rs = in_file(r, 'hist_mc_magnus.dat')
        nm = 'gen_hist_magnus/hist_mc_magnus.dat'
        if len(rs) != 1:
            miss(ctx, nm, r, rs)
        else:
            o = rs[0][0]
            k = o.loops[0].info['k'] if o.loops else ZERO
            check_record(ctx, nm, r, o, 'metropolis_update_magnus', num(10000),
                         lambda v, t: [k] + m_cols(v, s) + [ob_at('system_energy', v, t)] + probe(v, s),
                         ['i'] + M3 + ['e'] + P6, N, 'number of records')
            averages(ctx, r, o, N, s)
    r = records(ctx, 'gen_hist_dynamics', ('conf', 'samples'))
    if r is not None:
        rs = [(o, p) for o, p in r.recs]
        nm = 'gen_hist_dynamics'
        if len(rs) != 1:
            miss(ctx, nm, r, rs)
        else:
            o = rs[0][0]
            k = o.loops[0].info['k'] if o.loops else ZERO
            check_record(ctx, nm, r, o, 'update', fn_ftou(conf('t') * inv(conf('dt'))),
                         lambda v, t: [k] + m_cols(v, s) + [ob_at('system_energy', v, t)], ['i'] + M3 + ['e'], N, 'number of records', conf('dt'))
    r = records(ctx, 'gen_single_traj', ('conf', 'samples'))
    if r is not None:
        nm = 'gen_single_traj'
        rs = r.recs
        if len(rs) != 1 or not rs[0][0].loops:
            miss(ctx, nm, r, rs)
        else:
            o = rs[0][0]
            check_record(ctx, nm, r, o, 'update', None, lambda v, t: [t] + m_cols(v, s) + [ob_at('system_energy', v, t)],
                         ['t'] + M3 + ['e'], None, '', conf('dt'))
            single_traj(ctx, r, o, N)
    for fname, mv in (('run_mc', 'metropolis_update'), ('run_mc_magnus', 'metropolis_update_mag_full')):
        r = records(ctx, fname, ('conf',))
        if r is None:
            continue
        rs = r.recs
        if len(rs) != 1:
            miss(ctx, fname, r, rs)
            continue
        o, p = rs[0]
        if p is None:
            ctx.undecided(fname + ': file', 'not resolved', o.at())
        elif p.parts == ('mc_live.dat',):
            ctx.proved(fname + ': file', 'mc_live.dat', o.at())
        else:
            ctx.violated(fname + ': file', show_str(p), o.at())
        check_record(ctx, fname, r, o, mv, num(1000000),
                     lambda v, t: [ob_at('total_energy2', v, t), ob_at('mc_system_energy', v, t)] + m_cols(v, s) + probe(v, s),
                     ['e', 'e_sub'] + M3 + P6, None, '')


def fn_ftou(p):
    return gsa.ftou(p)


def miss(ctx, nm, r, rs):
    unresolved = [1 for o, p in r.recs if p is None]
    if rs or unresolved or r.recs:
        ctx.undecided(nm, '%d places write it' % len(rs), r.w)
    else:
        ctx.violated(nm, 'nothing is written', r.w)


def averages(ctx, r, o, N, s):
    """printed averages of the Magnus histogram"""
    x = [q for q in r.steps if q.seq < o.seq]
    if not x or not o.loops:
        return
    af = after(max(x, key=lambda q: q.seq), o, None)
    if af is None:
        return
    v, t, f = af
    l = o.loops[0]
    from alg import mk_sum
    kk = l.info['k']
    want = dict(zip(['mx: ', 'my: ', 'mz: ', 'ed: '], m_cols(v, s) + [ob_at('system_energy', v, t)]))
    pr = [p for p in r.occ if p.callee == 'std::io::_print' and isinstance(p.args[0], Str) and p.args[0].parts and p.args[0].parts[0] in want]
    for p in pr:
        q = p.args[0].parts
        g = core.as_num(q[1]) if len(q) > 1 else None
        nm = 'gen_hist_magnus: printed average %s' % q[0].strip(': ')
        if g is None:
            ctx.undecided(nm, 'not resolved', p.at())
        else:
            j = sym('avgvar', 'int')
            ctx.eq(nm, g, mk_sum(subst(want[q[0]], {single(kk): j}), j, N) * inv(N), Facts().add_le(num(1) - N), p.at())
    if len(pr) != 4:
        ctx.undecided('gen_hist_magnus: printed averages', '%d of 4 found' % len(pr), r.w)


def single_traj(ctx, r, o, N):
    """records once per period, from 30 periods on, until the end"""
    nm = 'gen_single_traj'
    l = o.loops[-1]
    up = [x for x in r.steps if x.inside(l)]
    pre = [x for x in r.steps if not x.inside(l)]
    dt, tau = conf('dt'), conf('tau')
    cyc = fn('round', tau * inv(dt))
    k = l.info['k']
    n0 = fn_ftou(tau * 30 * inv(dt))
    if len(pre) == 1 and pre[0].loops:
        runs.trip(ctx, nm + ': equilibrates for 30 periods', pre[0].loops[-1], n0, pre[0].at())
    elif not pre:
        ctx.violated(nm + ': equilibrates for 30 periods', 'no steps before the records', r.w)
    else:
        ctx.undecided(nm + ': equilibrates for 30 periods', 'not resolved', r.w)
    tk = -conf('trel') + dt * (n0 + k)
    cont = lt(tk, (N + 30) * tau)
    f = Facts().add_le(-k).add_le(-n0)
    ctx.eq(nm + ': one step per iteration', count(up, l), ite(cont, ONE, ZERO), f, r.w)
    hits = [eq(fn(m, n0 + k + 1, c), ZERO) for m in ('imod',) for c in (cyc, fn_ftou(cyc))]
    import alg
    got = count([o], l)
    ws = [ite(cont, ite(h, ONE, ZERO), ZERO) for h in hits]
    ok = [w for w in ws if alg.equal(got, w, f).ok]
    ctx.eq(nm + ': a record at every full period', got, ok[0] if ok else ws[0], f, o.at())


PROPS = {'P24': P24, 'P25': P25}
