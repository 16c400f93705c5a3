"""Modes of the program: no logs (P36), runs at several periods (P37), microcanonical start (P40), end of the jobs (P41)."""
import alg
from .flow import *
from . import chains, runs, records, bg
from .runs import obs, inloop, fld
from .records import columns, text_of, after, ob_at, m_cols, M3, per, path_in, writers
from .bg import chan_of, leaves, sends, drained, nrecv
from alg import Subst, single

QUIET = [('estim_e', ('conf', 'beta')), ('estim_e2', ('conf', 'beta')), ('estim_eh', ('conf', 'beta')), ('estim_e_rot', ('conf', 'beta')),
         ('estim_e_maglab', ('conf', 'beta')), ('get_obs', ('conf',)), ('get_obsh', ('conf',)), ('get_obs_rot', ('conf',)),
         ('get_obs_maglab', ('conf',)), ('gen_hist', ('conf', 'samples')), ('gen_hist_magnus', ('conf', 'samples')),
         ('gen_hist_dynamics', ('conf', 'samples')), ('gen_single_traj', ('conf', 'samples')), ('trajectory_mean_e', ('conf',)),
         ('run_mc', ('conf',)), ('run_mc_magnus', ('conf',)), ('run_mc_profile', ('conf',))]
LOUD = [('run_sim', ('conf',)), ('run_sim_response', ('conf',)), ('run_ext', ('conf',)), ('run_langevin', ('conf', 'gamma')),
        ('run_tau', ('taus', 'steps', 'conf')), ('run_dyn_profile', ('conf',))]


def P36(ctx):
    ctx.rule('a chain of a mode which writes no logs is created with logging off; the chains of the simulation modes with the setting of the user')
    for fname, names in QUIET + LOUD:
        loud = (fname, names) in LOUD
        I = run_bin(ctx, obs(fname), names=names)
        if I is None:
            continue
        w = ctx.where(obs(fname))
        new = named(list(walk(I.events)), 'new')
        if not new:
            ctx.undecided(fname + ': chains', 'none is created', w)
        for o in new:
            try:
                g = gsa.rd(o.args[0], (('f', 'log'),))
            except Exception:
                g = None
            if not isinstance(g, gsa.B):
                ctx.undecided(fname + ': logging', 'not resolved', o.at())
                continue
            nm = fname + (': logs as the user chose' if loud else ': no logs')
            ctx.beq(nm, g, runs.alg_bool('conf', 'log') if loud else gsa.FALSE, None, o.at())
    from .init import new_chain
    for which, pre in CHAINS:
        H, s, f, I, w = new_chain(ctx, which)
        if I is not None:
            log_if_on(ctx, which + '::new', created(walk(I.events)), f, w)


def created(occ):
    return [o for o in occ if o.callee in ('std::fs::File::create', 'std::fs::OpenOptions::open')]


def log_if_on(ctx, nm, cr, f, w):
    if not cr:
        ctx.violated(nm + ': log file', 'none is created', w)
        return False
    ctx.eq(nm + ': a log file if and only if logging is on', count(cr), ite(runs.alg_bool('conf', 'log'), ONE, ZERO), f, w)
    return True


def P37(ctx):
    ctx.rule('--n-steps: run i has the period taus[i], the step of that period, n periods, the log of its number, and one record')
    fname = 'run_tau'
    m = runs.mode_tau(ctx)
    if m is None:
        return
    w = m.w
    if len(m.new) != 1 or not m.new[0].loops:
        (ctx.undecided if m.new else ctx.violated)(fname + ': one chain per period', '%d places create a chain' % len(m.new), w)
        return
    nw = m.new[0]
    rl = nw.loops[0]
    n = sel('taus', 'len', kind='int')
    steps = sel('steps', kind='int')
    runs.trip(ctx, fname + ': one run for every period', rl, n, w)
    ctx.eq(fname + ': one chain per period', count([nw], rl), ONE, inloop(rl), w)
    k = rl.info['k']
    tau = sel('taus', k)
    dt = ite(lt(tau, num(10)), tau / 100, num(1) / 10)
    T = steps * tau
    f = inloop(rl)

    def settings(o, nm):
        v = o.args[0]
        if not isinstance(v, St) or 'vars' not in v.f:
            ctx.undecided(nm, 'chain not resolved', o.at())
            return
        config_same(ctx, nm, v.f['vars'], skip=('tau', 'dt', 't'), where=o.at())
        for x, want in (('tau', tau), ('dt', dt), ('t', T)):
            g = fld(o, 'vars', x)
            if g is None:
                ctx.undecided('%s: %s' % (nm, x), 'not resolved', o.at())
            else:
                ctx.eq('%s: %s' % (nm, x), g, want, f, o.at())

    if not m.steps:
        ctx.violated(fname + ': dynamical steps', 'none', w)
        return
    ls = {id(o.loops[-1]): o.loops[-1] for o in m.steps if len(o.loops) > 1}
    if len(ls) != 1 or len(m.steps) != 1:
        ctx.undecided(fname + ': dynamical steps', '%d places' % len(m.steps), w)
        return
    l = list(ls.values())[0]
    up = m.steps[0]
    if up.callee != 'update':
        ctx.violated(fname + ': dynamical steps', up.callee, up.at())
    if not m.samp:
        ctx.violated(fname + ': thermalisation', 'no Monte-Carlo move is made', w)
        return
    settings(up, fname + ': settings of a run')
    for s in m.samp:
        g = fld(s, 'vars', 'beta')
        if g is not None:
            ctx.eq(fname + ': thermalises at the temperature of the user', g, conf('beta'), f, s.at())
    runs.thermal(ctx, fname, m.samp, w, m.steps, m.logs)
    t = -conf('trel') + dt * l.info['k']
    g = fld(up, 't')
    if g is None:
        ctx.undecided(fname + ': clock', 'not resolved', up.at())
    else:
        ctx.eq(fname + ': clock at a step', g, t, f, up.at())
    cont = lt(t, T)
    ex = l.info['exits']
    if len(ex) != 1 or l.info.get('rets'):
        runs.not_early(ctx, fname + ': length of a run', l, cont, w, f)
    else:
        ctx.beq(fname + ': a run lasts for the periods asked for', bnot(ex[0][1]), cont, f, w)
    ctx.eq(fname + ': one step per iteration', count(m.steps, l), ite(cont, ONE, ZERO), f, w)
    # log
    lg = [o for o in m.logs]
    ctx.eq(fname + ': the state at the start is logged once', count([o for o in lg if o.callee == 'log' and not o.inside(l)], runs.base_of(up)), ONE, f, w)
    for o in lg:
        if o.seq > up.seq or o.inside(l) or o.callee != 'log':
            ctx.violated(fname + ': lines logged', 'other than the state at the start: %s' % o.callee, o.at())
        settings(o, fname + ': settings in the log')
    # record
    occ = m.occ
    snd = named(occ, 'Sender::send')
    if len(snd) != 1:
        (ctx.undecided if snd else ctx.violated)(fname + ': record', '%d places send records' % len(snd), w)
        return
    o = snd[0]
    if len(ex) != 1 or l.info.get('rets'):
        ctx.undecided(fname + ': record', 'state at the end of the run not resolved', o.at())
        return
    ctx.eq(fname + ': one record for a run', count(snd, rl), ONE, f, o.at())
    if o.seq < up.seq or o.inside(l):
        ctx.violated(fname + ': record', 'taken before the run has ended', o.at())
        return
    fl = writers(occ).get(repr(o.args[0]))
    p = path_in(fl)
    if p is None:
        ctx.undecided(fname + ': file', 'not resolved', o.at())
    else:
        require(ctx, fname + ': file', value_eq(ctx, p, Str(['evt', steps, '.dat']), None), o.at(), show_str(p))
    af = after(m.samp[0], o, ZERO)
    v = core.as_num(up.args[1])
    if af is None or v is None:
        ctx.undecided(fname + ': record', 'state not resolved', o.at())
        return
    nn = l.info['n']
    v = ite(eq(nn, ZERO), af[0], Subst({single(l.info['k']): nn - 1}).p(v))
    tt = -conf('trel') + dt * nn
    s = conf('ssize', 'int')
    columns(ctx, fname + ': record', text_of(o), [tau, tt, ob_at('total_energy2', v, tt), ob_at('system_energy', v, tt)] + m_cols(v, s),
            ['tau', 't', 'e', 'e_sub'] + M3, f, o.at())


# ------------------------------------------------------------------ microcanonical start
def P40(ctx):
    ctx.rule('the dynamical histogram starts from a state within 0.005 of the target energy density and 0.003 of zero magnetisation per site, which is looked for with Monte-Carlo moves until found')
    fname = 'gen_hist'
    I = run_bin(ctx, obs(fname), names=('conf', 'samples'))
    if I is None:
        return
    w = ctx.where(obs(fname))
    occ = list(walk(I.events))
    ups = named(occ, *chains.STEPS)
    if not ups:
        ctx.violated(fname + ': dynamics', 'no dynamical step is made', w)
        return
    first = min(ups, key=lambda o: o.seq)
    pre = [o for o in named(occ, *chains.SAMPLERS) if o.seq < first.seq]
    if not pre:
        ctx.violated(fname + ': start of the dynamics', 'no Monte-Carlo move before', w)
        return
    x = max(pre, key=lambda o: o.seq)
    if x.callee != 'metropolis_update':
        ctx.violated(fname + ': start of the dynamics', x.callee, x.at())
    if not x.loops or x.loops[0].info.get('trip') is not None:
        ctx.violated(fname + ': start of the dynamics', 'the number of moves before it does not depend on the state', x.at())
        return
    L = x.loops[0]
    n = ONE
    sub = {}
    for l in x.loops[1:]:
        if l.info.get('trip') is None:
            ctx.undecided(fname + ': moves between two looks', 'not resolved', x.at())
            return
        n = n * l.info['trip']
        sub[single(l.info['k'])] = l.info['trip'] - 1
    ctx.eq(fname + ': moves between two looks at the state', n, num(10000), None, x.at())
    v, t = core.as_num(x.args[1]), fld(x, 't')
    ex = L.info['exits']
    if v is None or t is None or len(ex) != 1 or L.info.get('rets'):
        ctx.undecided(fname + ': start of the dynamics', 'state or end of the search not resolved', x.at())
        return
    v = Subst(sub).p(v)
    H = conf('hsize', 'int')
    ok = le(fn('abs', ob_at('total_energy2', v, t) - conf('ednsty')), num(1) / 200)
    for c in range(3):
        ok = band(ok, le(fn('abs', records.m_at('m_tot', c, v) * inv(H)), num(3) / 1000))
    kk = single(L.info['k'])
    k = L.info['k']
    f = Facts().add_le(-k).add_le(num(1) - H)
    e = ex[0][1]
    e1 = Subst({kk: k + 1}).b(e)
    e1 = alg.Simp(f).b(e1)
    here = kk in alg.any_deep(e) and core_has(e, v)
    if here:
        ctx.beq(fname + ': search goes on until the state is microcanonical', e, ok, f, w)
    else:
        ctx.beq(fname + ': search goes on until the state is microcanonical', e1, ok, f, w)
        ctx.beq(fname + ': the search is not skipped', alg.Simp(Facts()).b(Subst({kk: ZERO}).b(e)), gsa.FALSE, None, w)
    # nothing changes the state between the search and the dynamics
    mid = [o for o in named(occ, *(chains.SAMPLERS + ['new'])) if x.seq < o.seq < first.seq]
    if mid:
        ctx.violated(fname + ': dynamics starts from the state found', mid[0].callee, mid[0].at())
    else:
        ctx.proved(fname + ': dynamics starts from the state found', '', first.at())


def core_has(e, v):
    """the condition mentions the state of this very iteration"""
    return single(v) in alg.any_deep(e) if single_or_none(v) else False


def single_or_none(v):
    try:
        single(v)
        return True
    except Exception:
        return False


def le(a, b):
    return bnot(lt(b, a))


# ------------------------------------------------------------------ end of the jobs
JOBS = [('run_sim', ('conf',)), ('run_sim_response', ('conf',)), ('run_ext', ('conf',)), ('run_langevin', ('conf', 'gamma')),
        ('run_tau', ('taus', 'steps', 'conf')), ('run_dyn_profile', ('conf',)), ('gen_hist_dynamics', ('conf', 'samples')),
        ('trajectory_mean_e', ('conf',)), ('run_mc', ('conf',)), ('run_mc_magnus', ('conf',)), ('run_mc_profile', ('conf',))]
EFFECTS = chains.STEPS + chains.SAMPLERS + chains.LOGS + ['Sender::send', 'std::io::Write::write_fmt', 'std::io::Write::write_all']


def P41(ctx):
    ctx.rule('a mode ends only after each of its jobs has made its last step, line and record: it waits for the pool, for the channel to be closed, or for the bars, each of which its job finishes last')
    for fname, names in JOBS:
        I = run_bin(ctx, obs(fname), names=names)
        if I is None:
            continue
        w = ctx.where(obs(fname))
        occ = list(walk(I.events))
        pos = {id(o.e): i for i, o in enumerate(occ)}
        jobs = {}
        for o in occ:
            if o.spawns and o.callee in EFFECTS:
                for s in o.spawns:
                    if s.callee and 'execute' in s.callee or any(x.callee in chains.STEPS + chains.SAMPLERS and x.inside(s) for x in occ):
                        jobs[id(s)] = s
        direct = [o for o in named(occ, *(chains.STEPS + chains.SAMPLERS)) if not o.spawns]
        if not jobs:
            if direct:
                ctx.proved(fname + ': no job outlives the mode', 'nothing runs in the background', w)
            else:
                ctx.undecided(fname + ': no job outlives the mode', 'no job found', w)
            continue
        last = max([pos[id(o.e)] for o in occ if any(o.inside(s) for s in jobs.values())])
        good = why = None
        # the pool
        for o in named(occ, 'threadpool::ThreadPool::join'):
            if not o.path and o.pc() is TRUE and pos[id(o.e)] > last:
                good = ('the pool is joined', o.at())
        # a channel whose senders the jobs hold is drained to its end, here or by a writer which is joined
        if good is None:
            for cid, c, o in sends(occ):
                if cid is None:
                    continue
                mine = [s for s in jobs.values() if o.inside(s)]
                if len(mine) != len(jobs):
                    continue
                for l in loops_of(I.events):
                    tr = l.e.info.get('trip')
                    if tr is None or not alg.equal(tr, nrecv(cid), Facts()).ok or l.pc() is not TRUE:
                        continue
                    if not l.path:
                        good = ('the channel of the jobs is read until it is closed', l.at())
                    elif len(l.spawns) == 1 and len(l.path) == 1:
                        h = l.spawns[0].info.get('ret')
                        js = [j for j in named(occ, 'JoinHandle::join') if not j.path and j.pc() is TRUE and pos[id(j.e)] > last
                              and repr(gsa.canon_p(j.args[0])) == repr(gsa.canon_p(h))]
                        if js:
                            good = ('the writer, which ends once all jobs have closed the channel, is joined', js[0].at())
        # the bars
        if good is None:
            mj = [o for o in occ if o.callee in ('indicatif::MultiProgress::join', 'indicatif::MultiProgress::join_and_clear')]
            at = [o for o in mj if not o.path and o.pc() is TRUE and pos[id(o.e)] > last]
            if mj and not at:
                ctx.undecided(fname + ': no job outlives the mode', 'the bars are not waited for in every case', mj[0].at())
                continue
            if not at:
                other = [o for o in occ if not o.path and pos[id(o.e)] > last and ('join' in (o.callee or '') or 'wait' in (o.callee or '')
                                                                                  or 'recv' in (o.callee or ''))]
                (ctx.undecided if other else ctx.violated)(fname + ': no job outlives the mode', 'nothing waits for the jobs', w)
                continue
            good = ('the bars of all jobs are waited for', at[0].at())
            for s in jobs.values():
                fin = [o for o in occ if o.inside(s) and o.callee == 'bar:finish' and added(o.args)]
                own = [o for o in occ if o.inside(s) and o.e.kind == 'drop' and added(o.args)]
                eff = [o for o in occ if o.inside(s) and o.callee in EFFECTS]
                if not fin and not own:
                    ctx.violated(fname + ': the job keeps its bar open', 'no bar which is waited for belongs to the job', w)
                    good = None
                    continue
                first = min([pos[id(o.e)] for o in fin], default=10 ** 9)
                late = [o for o in eff if pos[id(o.e)] > first or any(o.inside(q) for x in fin for q in own_loops(x, s))]
                if late:
                    ctx.violated(fname + ': the job keeps its bar open', '%s comes after the bar is finished' % late[0].callee, late[0].at())
                    good = None
        if good:
            ctx.proved(fname + ': no job outlives the mode', good[0], good[1])


def own_loops(o, s):
    """loops of the job itself around an effect"""
    i = [n for n, x in enumerate(o.path) if x is s][0]
    return [x for x in o.path[i + 1:] if x.kind == 'loop']


def added(args):
    return any(isinstance(a, gsa.Opq) and a.tag == 'progress' and a.deps == ('added',) for a in args)


# ------------------------------------------------------------------ files
KEPT = [('gen_hist', ('conf', 'samples'), {('hist_mc.dat',), ('hist_dyn.dat',)}), ('gen_hist_magnus', ('conf', 'samples'), {('hist_mc_magnus.dat',)}),
        ('gen_hist_dynamics', ('conf', 'samples'), {('dyn-hist-t-', conf('t'), '.dat')}),
        ('gen_single_traj', ('conf', 'samples'), {('hist-st-t-', conf('t'), '.dat')}),
        ('run_tau', ('taus', 'steps', 'conf'), {('evt', sel('steps', kind='int'), '.dat')}),
        ('run_mc', ('conf',), {('mc_live.dat',)}), ('run_mc_magnus', ('conf',), {('mc_live.dat',)})]
ANEW = [('run_mc_profile', ('conf',), {('mc_profile.dat',)}),
        ('run_dyn_profile', ('conf',), {('dyn_profile-%d-tau.dat' % (500 * n),) for n in range(1, 9)}),
        ('average', ('conf',), {('avg.dat',)}), ('two_point_average', ('conf',), {('two-point.dat',)})]
WRITE = ('std::io::Write::write_fmt', 'std::io::Write::write_all')


def new_seq(v, depth=0):
    """which OpenOptions::new a value stems from"""
    if depth > 40 or not isinstance(v, gsa.Opq):
        return None
    if v.tag == 'call:std::fs::OpenOptions::new':
        return v.deps
    for d in v.deps:
        r = new_seq(d, depth + 1)
        if r is not None:
            return r
    return None


def how_opened(occ, v, depth=0):
    """(path, 'keep' / 'anew' / 'over' / None) of the file behind a handle"""
    if depth > 40 or not isinstance(v, gsa.Opq):
        return None
    if v.tag == 'call:std::fs::File::create':
        return next((d for d in v.deps if isinstance(d, Str)), None), 'anew', True
    if v.tag == 'call:std::fs::OpenOptions::open':
        p = next((d for d in v.deps if isinstance(d, Str)), None)
        me = new_seq(v.deps[0])
        fl = {}
        for o in occ:
            if o.callee.startswith('std::fs::OpenOptions::') and len(o.args) > 1 and new_seq(o.args[0]) == me and me is not None:
                fl[o.callee.split('::')[-1]] = o.args[-1]
        if me is None or not all(x is TRUE or x is gsa.FALSE or n == 'open' for n, x in fl.items()):
            return p, None, None
        on = {n for n, x in fl.items() if x is TRUE}
        return p, 'keep' if 'append' in on else 'anew' if 'truncate' in on else 'over', 'create' in on
    for d in v.deps:
        r = how_opened(occ, d, depth + 1)
        if r is not None:
            return r
    return None


def key(p):
    return tuple(repr(x) if isinstance(x, P) else x for x in p.parts)


def P42(ctx):
    ctx.rule('every output goes to its documented file: samples are added to what the file holds, profiles, averages and logs start anew')
    for table, mode, word in ((KEPT, 'keep', 'earlier records are kept'), (ANEW, 'anew', 'starts anew')):
        for fname, names, want in table:
            I = run_bin(ctx, obs(fname), names=names)
            if I is None:
                continue
            w = ctx.where(obs(fname))
            occ = list(walk(I.events))
            todo = {tuple(repr(x) if isinstance(x, P) else x for x in p) for p in want}
            for o in [x for x in occ if x.callee in WRITE]:
                h = how_opened(occ, o.args[0])
                if h is None or h[0] is None or any(isinstance(x, gsa.Opq) for x in h[0].parts):
                    ctx.undecided(fname + ': file', 'not resolved: %s' % repr(o.args[0])[:80], o.at())
                    todo = set()
                    continue
                nm = '%s: %s' % (fname, show_str(h[0]))
                k = key(h[0])
                if k == ('config.toml',):
                    continue            # the offset moves on (P22)
                if k not in {tuple(repr(x) if isinstance(x, P) else x for x in p) for p in want}:
                    ctx.violated(nm, 'not one of the files of this mode (%s)' % ', '.join(sorted(show_str(Str(list(p))) for p in want)), o.at())
                    continue
                todo.discard(k)
                if h[1] is None:
                    ctx.undecided('%s: %s' % (nm, word), 'options not resolved', o.at())
                elif h[1] != mode:
                    ctx.violated('%s: %s' % (nm, word), {'keep': 'opened for appending', 'anew': 'its content is discarded',
                                                         'over': 'earlier content is overwritten from the start'}[h[1]], o.at())
                else:
                    ctx.proved('%s: %s' % (nm, word), '', o.at())
                if h[2] is False:
                    ctx.violated(nm + ': is created if missing', 'it is not', o.at())
            for p in sorted(todo):
                ctx.violated('%s: %s' % (fname, ''.join(p)), 'nothing is written to it', w)
    from .init import new_chain
    for which, pre in CHAINS:
        H, s, f, I, w = new_chain(ctx, which)
        if I is None or not isinstance(I.ret, St):
            continue
        nm = which + '::new'
        occ = list(walk(I.events))
        lg = runs.alg_bool('conf', 'log')
        cr = created(occ)
        if not log_if_on(ctx, nm, cr, f, w):
            continue
        runs.log_name(ctx, nm, cr)
        for o in [x for x in occ if x.callee in WRITE]:
            t = text_of(o)
            if isinstance(t, Str) and t.parts and isinstance(t.parts[0], str):
                q = ''.join(x if isinstance(x, str) else '?' for x in t.parts)
                if all(x.startswith('#') for x in q.rstrip('\n').split('\n')) and q.endswith('\n'):
                    ctx.proved(nm + ': header of a log is a comment', '', o.at())
                else:
                    ctx.violated(nm + ': header of a log is a comment', q, o.at())
        for c, v in leaves(I.ret.f.get('file')):
            on = ite(band(c, lg), ONE, ZERO).is_zero()
            if isinstance(v, St) and v.vname == 'None':
                (ctx.proved if on else ctx.violated)(nm + ': the chain keeps its log', 'no log when it is off' if on else 'lost while logging is on', w)
            elif isinstance(v, St) and v.vname == 'Some':
                h = how_opened(occ, list(v.f.values())[0])
                if h is None or h[1] is None:
                    ctx.undecided(nm + ': the chain keeps its log', 'not resolved', w)
                elif h[1] != 'anew':
                    ctx.violated(nm + ': a log starts anew', 'earlier content stays', w)
                else:
                    ctx.proved(nm + ': the chain keeps its log', '', w)


PROPS = {'P36': P36, 'P37': P37, 'P40': P40, 'P41': P41, 'P42': P42}
