"""The simulation runs: protocol, logging, log files, configuration file (P20-P23)."""
import alg
import neval
from .flow import *

MODES = [('run_sim', SC, 'log', False), ('run_sim_response', SC, 'log', True), ('run_ext', SC, 'log_ext', False),
         ('run_langevin', SL, 'log', False)]
THERMAL = 20000000
CACHE = {}


class Mode:
    pass


def obs(n):
    return 'sc::obs::' + n


def mode(ctx, fname, resp):
    key = (id(ctx), fname)
    if key in CACHE:
        return CACHE[key]
    CACHE[key] = None
    m = Mode()
    m.w = ctx.where(obs(fname))
    m.I = run_bin(ctx, obs(fname), names=('conf', 'gamma'))
    if m.I is None:
        return None
    m.occ = list(walk(m.I.events))
    m.new = named(m.occ, 'new')
    m.steps = named(m.occ, *chains.STEPS)
    m.samp = named(m.occ, *chains.SAMPLERS)
    m.logs = named(m.occ, *chains.LOGS)
    m.fname = fname
    m.loop = None
    ls = {id(o.loops[-1]): o.loops[-1] for o in m.steps if o.loops}
    if len(ls) == 1:
        m.loop = list(ls.values())[0]
    m.t0 = -conf('t') if resp else -conf('trel')
    if m.loop is not None:
        k = m.loop.info['k']
        m.t = m.t0 + conf('dt') * k
        m.cont = lt(m.t, conf('t'))
        m.k = k
    CACHE[key] = m
    return m


def chain_of(o):
    return o.args[0] if o.args else None


def fld(o, *p):
    try:
        v = gsa.rd(chain_of(o), tuple(('f', x) for x in p))
    except Exception:
        return None
    return core.as_num(v)


def same_chain_settings(ctx, m, o, nm, skip=()):
    v = chain_of(o)
    if not isinstance(v, St) or 'vars' not in v.f:
        ctx.undecided(nm, 'chain not resolved', o.at())
        return
    config_same(ctx, nm, v.f['vars'], skip=skip, where='%s (%s)' % (o.at(), m.w))


def P20(ctx):
    ctx.rule('each run: 2e7 Metropolis moves, then exactly one dynamical step per iteration while the clock is below t; response runs start at -t, driven while the clock is negative')
    for fname, pre, lg, resp in MODES:
        m = mode(ctx, fname, resp)
        if m is None:
            continue
        if not m.steps:
            ctx.violated(fname + ': dynamical steps', 'no dynamical step is performed', m.w)
            continue
        if m.loop is None:
            ctx.undecided(fname + ': time loop', 'dynamical steps in more than one loop', m.w)
            continue
        # one chain per run
        if len(m.new) != 1:
            (ctx.undecided if m.new else ctx.violated)(fname + ': one chain per run', '%d places create a chain' % len(m.new), m.w)
            continue
        nw = m.new[0]
        if not nw.loops:
            ctx.violated(fname + ': one chain per run', 'the chain is not created once per run', nw.at())
            continue
        rl = nw.loops[0]
        trip(ctx, fname + ': number of runs', rl, conf('runs', 'int'), m.w)
        ctx.eq(fname + ': one chain per run', count([nw], rl), ONE, inloop(rl), m.w)
        # thermalisation
        if not m.samp:
            ctx.violated(fname + ': thermalisation', 'no Monte-Carlo move is made before the run', m.w)
        else:
            thermal(ctx, fname, m.samp, m.w, m.steps, m.logs)
        # clock at the start, end test, one step each
        info = m.loop.info
        ex = info['exits']
        if len(ex) != 1 or info.get('rets'):
            not_early(ctx, fname + ': end of the run', m.loop, m.cont, m.w)
        else:
            ctx.beq(fname + ': the run goes on exactly while the clock is below t', bnot(ex[0][1]), m.cont, None, m.w)
        t0 = fld(m.steps[0], 't')
        up = named(m.steps, 'update')
        nf = named(m.steps, 'update_no_field')
        for o in m.steps:
            t = fld(o, 't')
            if t is None:
                ctx.undecided(fname + ': clock', 'not resolved', o.at())
            else:
                ctx.eq(fname + ': clock at a step', t, m.t, None, o.at())
            same_chain_settings(ctx, m, o, fname + ': settings at a step')
        neg = lt(m.t, ZERO)
        if resp:
            ctx.eq(fname + ': driven steps', count(up, m.loop), ite(band(m.cont, neg), ONE, ZERO), None, m.w)
            ctx.eq(fname + ': steps without field', count(nf, m.loop), ite(band(m.cont, bnot(neg)), ONE, ZERO), None, m.w)
        else:
            ctx.eq(fname + ': one step per iteration', count(up, m.loop), ite(m.cont, ONE, ZERO), None, m.w)
            ctx.eq(fname + ': no response step', count(nf, m.loop), ZERO, None, m.w)
        body = m.loop
        for s in m.samp:
            if s.inside(body):
                ctx.violated(fname + ': no Monte-Carlo move during the run', s.callee, s.at())


def not_early(ctx, name, l, cont, w, f=None):
    """a loop with several ways out: none is taken while two more steps are due"""
    out = alg.FALSE
    for e in l.info['exits']:
        out = alg.bor(out, e[1])
    for e in l.info.get('rets') or ():
        out = alg.bor(out, e[0])
    k = l.info['k']
    # the state the chain was left in by the loop before stands for itself
    ver = {}
    for a in neval.has_opq(ite(out, ONE, ZERO)):
        t = alg.atom_of(a)
        if t[0] == 'opq' and str(t[1]).startswith('phi:') and str(t[1]).endswith('.ver'):
            ver[a] = sym('state%d' % a)
    out = alg.Subst(ver).b(out) if ver else out
    after = alg.Subst({alg.single(k): k + 1}).b(cont)
    ctx.eq(name + ': the loop is not left early', ite(band(out, band(cont, after)), ONE, ZERO), ZERO, f or inloop(l), w)
    return False


def inloop(l):
    f = Facts()
    k = l.info['k']
    f = f.add_le(-k)
    if l.info.get('trip') is not None:
        f = f.add_le(k - l.info['trip'] + 1)
    return f


def left_early(ctx, name, l, want, w):
    """a loop of unknown length is left while two more iterations are due; whether it is long enough stays open"""
    k = l.info['k']
    n = len(ctx.obs)
    not_early(ctx, name, l, lt(k, want), w, inloop(l).add_le(k - want + 1))
    bad = [o for o in ctx.obs[n:] if o[1] == 'violated']
    if not bad:
        del ctx.obs[n:]
    return bool(bad)


def trip(ctx, name, l, want, w):
    n = l.info.get('trip')
    if n is None:
        if not left_early(ctx, name, l, want, w):
            ctx.undecided(name, 'number of iterations not resolved', w)
        return None
    return ctx.eq(name, n, want, Facts().add_le(-want), w)


def thermal(ctx, fname, samp, w, steps, logs, n=THERMAL, which='metropolis_update'):
    if len(samp) != 1:
        ctx.undecided(fname + ': thermalisation', '%d sampler calls' % len(samp), w)
        return
    s = samp[0]
    if s.callee != which:
        ctx.violated(fname + ': thermalisation', 'uses %s' % s.callee, s.at())
    rel = []
    tot = ONE
    for l in s.path[::-1]:
        if l.kind != 'loop':
            break
        if l.info.get('trip') is None:
            if rel or not left_early(ctx, fname + ': thermalisation', l, num(n), w):
                ctx.undecided(fname + ': thermalisation', 'length not resolved', w)
            return
        tot = tot * l.info['trip']
        rel.append(l)
    if not rel:
        ctx.violated(fname + ': thermalisation', 'a single Monte-Carlo move', s.at())
        return
    ctx.eq(fname + ': thermalisation length', tot, num(n), None, w)
    ctx.eq(fname + ': thermalisation unconditional', count([s], rel[-1]), ONE, inloop(rel[-1]), w)
    for o in steps + logs:
        if o.seq < s.seq:
            ctx.violated(fname + ': thermalisation comes first', '%s comes before it' % o.callee, o.at())
            return
    ctx.proved(fname + ': thermalisation comes first', '', w)


def P21(ctx):
    ctx.rule('one log line at the start; then one line per step, or with strob exactly one at each step where round(t/dt) is a multiple of round(tau/dt); written after the step')
    for fname, pre, lg, resp in MODES:
        m = mode(ctx, fname, resp)
        if m is None or m.loop is None:
            if m is not None:
                ctx.undecided(fname, 'time loop not resolved', m.w)
            continue
        ins = [o for o in m.logs if o.inside(m.loop)]
        outs = [o for o in m.logs if not o.inside(m.loop)]
        # the line at the start
        pre_ = [o for o in outs if o.callee == 'log']
        if not pre_:
            ctx.violated(fname + ': the state at the start is logged', 'no log call before the time loop', m.w)
        else:
            ctx.eq(fname + ': the state at the start is logged once', count(pre_, base_of(pre_[0])), ONE, facts_for(pre_[0]), m.w)
            for o in pre_:
                if o.seq > min([x.seq for x in m.steps]):
                    ctx.violated(fname + ': the state at the start is logged first', 'it is logged after the run', o.at())
                t = fld(o, 't')
                if t is not None:
                    ctx.eq(fname + ': clock of the first line', t, -conf('trel'), None, o.at())
                else:
                    ctx.undecided(fname + ': clock of the first line', 'not resolved', o.at())
                same_chain_settings(ctx, m, o, fname + ': settings of the first line')
        for o in outs:
            if o.callee != 'log':
                ctx.violated(fname + ': lines outside the run', o.callee, o.at())
        # lines during the run
        want = [o for o in ins if o.callee == lg]
        for o in ins:
            if o.callee != lg:
                ctx.violated(fname + ': kind of log line', '%s instead of %s' % (o.callee, lg), o.at())
        t1 = m.t + conf('dt')
        strob = alg_bool('conf', 'strob')
        steps = fn('round', conf('tau') * inv(conf('dt')))
        hit = eq(fn('imod', fn('round', t1 * inv(conf('dt'))), steps), ZERO)
        # a period of less than half a step has no multiples
        ctx.eq(fname + ': lines written in a step', count(want, m.loop),
               ite(m.cont, ite(strob, ite(hit, ONE, ZERO), ONE), ZERO), Facts().add_le(ONE - steps), m.w)
        for o in want:
            t = fld(o, 't')
            if t is None:
                ctx.undecided(fname + ': a line shows the state after the step', 'not resolved', o.at())
            else:
                ctx.eq(fname + ': a line shows the state after the step', t, t1, None, o.at())
            same_chain_settings(ctx, m, o, fname + ': settings of a line')


def alg_bool(base, *path):
    from alg import bvar
    return bvar(('b', base, tuple(path)))


def base_of(o):
    """the container from which a per-run condition counts: the thread, or the loop over the runs"""
    if o.spawns:
        return o.spawns[-1]
    return o.loops[0] if o.loops else None


def facts_for(o):
    f = Facts()
    for l in o.loops:
        k = l.info['k']
        f = f.add_le(-k)
        if l.info.get('trip') is not None:
            f = f.add_le(k - l.info['trip'] + 1)
    return f


def P22(ctx):
    ctx.rule('run number i writes to the log numbered offset+i; afterwards the offset in config.toml is offset+runs')
    for fname, pre, lg, resp in MODES + [('run_tau', SC, None, False), ('run_dyn_profile', SC, None, False)]:
        if fname == 'run_tau':
            m = mode_tau(ctx)
            n = core.as_num(sel('taus', 'len', kind='int'))
        else:
            m = mode(ctx, fname, resp)
            n = conf('runs', 'int')
        if m is None:
            continue
        if len(m.new) != 1 or not m.new[0].loops:
            (ctx.undecided if m.new else ctx.violated)(fname + ': chains', '%d places create a chain' % len(m.new), m.w)
            continue
        o = m.new[0]
        l = o.loops[0]
        trip(ctx, fname + ': number of runs', l, n, m.w)
        got = core.as_num(o.args[1])
        if got is None:
            ctx.undecided(fname + ': number of the log', 'not resolved', o.at())
        else:
            want = conf('offset', 'int') + l.info['k']
            rev = conf('offset', 'int') + n - 1 - l.info['k']
            f = inloop(l)
            ctx.eq(fname + ': number of the log', got, rev if alg.equal(got, rev, f).ok else want, f, o.at())
        skip = ('t',) if fname == 'run_dyn_profile' else ()
        config_same(ctx, fname + ': configuration of a run', o.args[0], skip=skip, where=o.at())
        if fname == 'run_dyn_profile':
            ctx.eq(fname + ': 4000 periods', core.as_num(gsa.rd(o.args[0], (('f', 't'),))) or sym('unresolved'), conf('tau') * 4000, None, o.at())
        check_offset(ctx, fname, m, n)
    from . import cli
    cli.combined(ctx)
    from .init import new_chain
    for which, pre in chains.CHAINS:
        H, s, f, I, w = new_chain(ctx, which)
        if I is not None:
            log_name(ctx, which + '::new', [o for o in walk(I.events) if o.callee in ('std::fs::File::create', 'std::fs::OpenOptions::open')])


def log_name(ctx, nm, opened):
    """the log of chain number i is <file><i>.dat, so no two chains share one"""
    for o in opened:
        p = next((a for a in o.args if isinstance(a, Str)), None)
        nms = nm + ': name of the log file'
        if p is None:
            ctx.undecided(nms, 'not resolved', o.at())
        else:
            require(ctx, nms, value_eq(ctx, p, Str([gsa.Opq('strin', ('conf', ('file',))), sel('num', kind='int'), '.dat'])), o.at(), show_str(p))


def check_offset(ctx, fname, m, n):
    from . import modes
    sv = named(m.occ, 'toml::to_string', 'toml::to_string_pretty')
    wr = [o for o in named(m.occ, 'std::fs::write') if is_path(o.args[0], 'config.toml')]
    for o in m.occ:
        if o.callee in ('std::io::Write::write_fmt', 'std::io::Write::write_all'):
            h = modes.how_opened(m.occ, o.args[0])
            if h is not None and h[0] is not None and is_path(h[0], 'config.toml'):
                if h[1] is not None and h[1] != 'anew':
                    ctx.violated(fname + ': config.toml is replaced', {'keep': 'opened for appending', 'over': 'earlier content is overwritten from the start'}[h[1]], o.at())
                wr.append(o)
    if not wr:
        other = [o for o in m.occ if any(is_path(a, 'config.toml') for a in o.args if isinstance(a, Str)) and o.callee != 'read_config']
        (ctx.undecided if other else ctx.violated)(fname + ': offset stored in config.toml', 'config.toml is not written', m.w)
        return
    ctx.eq(fname + ': config.toml written once', count(wr), ONE, None, wr[0].at())
    st = [o for o in sv if isinstance(o.args[0], St)]
    if len(wr) != 1 or len(st) != 1:
        ctx.undecided(fname + ': offset stored in config.toml', '%d writes, %d serialisations' % (len(wr), len(st)), m.w)
        return
    if 'toml::to_string' not in repr_tags(wr[0].args[1]):
        ctx.undecided(fname + ': offset stored in config.toml', 'the text written is not the serialised configuration', wr[0].at())
        return
    got = same_offset(core.as_num(st[0].args[0].f.get('offset')))
    if got is None:
        ctx.undecided(fname + ': offset stored in config.toml', 'not resolved', st[0].at())
    else:
        ctx.eq(fname + ': offset stored in config.toml', got, conf('offset', 'int') + n, Facts().add_le(-n), st[0].at())
    # after all runs have finished
    joins = [o for o in m.occ if o.callee in ('indicatif::MultiProgress::join', 'threadpool::ThreadPool::join', 'indicatif::MultiProgress::join_and_clear')]
    lastspawn = max([o.e.info.get('seq', 0) for o in m.occ if o.e.kind == 'spawn'] or [0])
    if lastspawn:
        ok = [o for o in joins if not o.path and lastspawn < o.seq < wr[0].seq and o.e.pc is TRUE]
        if ok:
            ctx.proved(fname + ': the offset moves on after the runs have finished', '', wr[0].at())
        else:
            ctx.violated(fname + ': the offset moves on after the runs have finished',
                         'nothing waits for the runs between starting them and storing the offset', wr[0].at())


def same_offset(p):
    """the offset in memory and in config.toml agree when a mode starts: main reads it from there, and every mode moves both on (checked here)"""
    return None if p is None else alg.Subst({alg.single(sel('saved', 'offset', kind='int')): conf('offset', 'int')}).p(p)


def is_path(v, name):
    return isinstance(v, Str) and len(v.parts) == 1 and v.parts[0] == name


def repr_tags(v, depth=0):
    """tags of opaque values inside"""
    out = set()
    if depth > 6:
        return out
    if isinstance(v, gsa.Opq):
        out.add(v.tag[5:] if v.tag.startswith('call:') else v.tag)
        for d in v.deps:
            out |= repr_tags(d, depth + 1)
    elif isinstance(v, (tuple, list)):
        for d in v:
            out |= repr_tags(d, depth + 1)
    elif isinstance(v, Str):
        for d in v.parts:
            out |= repr_tags(d, depth + 1)
    elif isinstance(v, St):
        for d in v.f.values():
            out |= repr_tags(d, depth + 1)
    elif isinstance(v, Tup):
        for d in v.v:
            out |= repr_tags(d, depth + 1)
    elif isinstance(v, gsa.Gate):
        out |= repr_tags(v.a, depth + 1) | repr_tags(v.b, depth + 1)
    return out


def mode_tau(ctx):
    key = (id(ctx), 'run_tau')
    if key in CACHE:
        return CACHE[key]
    m = Mode()
    m.w = ctx.where(obs('run_tau'))
    m.I = run_bin(ctx, obs('run_tau'), names=('taus', 'steps', 'conf'))
    if m.I is None:
        CACHE[key] = None
        return None
    m.occ = list(walk(m.I.events))
    m.new = named(m.occ, 'new')
    m.steps = named(m.occ, *chains.STEPS)
    m.samp = named(m.occ, *chains.SAMPLERS)
    m.logs = named(m.occ, *chains.LOGS)
    m.fname = 'run_tau'
    CACHE[key] = m
    return m


def P23(ctx):
    ctx.rule('config.toml is rewritten from what it holds (read again, nothing overridden), only the offset replaced')
    for fname, resp in [(x[0], x[3]) for x in MODES] + [('run_tau', False), ('run_dyn_profile', False)]:
        m = mode_tau(ctx) if fname == 'run_tau' else mode(ctx, fname, resp)
        if m is None:
            continue
        st = [o for o in named(m.occ, 'toml::to_string', 'toml::to_string_pretty') if o.args]
        if not st:
            ctx.undecided(fname + ': settings stored', 'no serialised configuration found', m.w)
            continue
        for o in st:
            rc = [x for x in named(m.occ, 'read_config') if is_path(x.args[0], 'config.toml') and x.seq < o.seq]
            if not rc and isinstance(o.args[0], St):
                pass
            config_same(ctx, fname + ': settings stored', o.args[0], base='saved', skip=('offset',), where=o.at())
    from . import conffile
    conffile.written(ctx, conffile.read_with(ctx, None))
    # nothing else in the program writes config.toml
    ctx.rule('no other mode writes config.toml')
    for n in OTHERS:
        if ctx.prog.find(obs(n)) is None:
            continue
        I = run_bin(ctx, obs(n))
        if I is None:
            continue
        bad = [o for o in walk(I.events) if o.callee not in ('read_config',) and any(is_path(a, 'config.toml') for a in o.args)]
        if bad:
            ctx.violated(n + ': config.toml left alone', bad[0].callee, bad[0].at())
        else:
            ctx.proved(n + ': config.toml left alone', '', ctx.where(obs(n)))


OTHERS = ['run_mc', 'run_mc_magnus', 'run_mc_profile', 'gen_hist', 'gen_hist_dynamics', 'gen_hist_magnus', 'gen_single_traj',
          'trajectory_mean_e', 'average', 'two_point_average', 'find_beta', 'find_beta2', 'find_betah', 'find_beta_rot',
          'find_beta_maglab', 'get_obs', 'get_obsh', 'get_obs_rot', 'get_obs_maglab']
PROPS = {'P20': P20, 'P21': P21, 'P22': P22, 'P23': P23}
