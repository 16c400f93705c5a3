"""The command line: which options there are (P39), what they run and with which settings (P32, P38)."""
import alg
from alg import PI
from .flow import *
from . import chains, runs
from .runs import obs, is_path, alg_bool
from .records import columns, text_of, path_in
import models

# documented options: long, short, kind, value may be negative
FLAG, VAL, OPTVAL, LIST = 'flag', 'value', 'optional value', 'comma-separated list'
OPTIONS = [('tau', 't', VAL, False), ('avg', 'a', FLAG, False), ('beta', 'b', VAL, False), ('monte-carlo', 'm', FLAG, False),
           ('monte-carlo-profile', 'p', FLAG, False), ('dynamic-profile', 'P', FLAG, False), ('monte-carlo-magnus', None, FLAG, False),
           ('histogram', None, OPTVAL, False), ('dynamic-histogram', 'd', OPTVAL, False), ('trajectory', 's', OPTVAL, False),
           ('langevin', 'l', OPTVAL, False), ('magnus-hist', None, OPTVAL, False), ('config-desc', None, FLAG, False),
           ('n-steps', 'n', LIST, False), ('adiabatic', 'A', VAL, False), ('adiab_full', 'D', VAL, False), ('rot-frame', 'r', VAL, True),
           ('ext', 'e', FLAG, False), ('magnus-fit', 'E', VAL, True), ('steps', None, VAL, False), (None, 'f', VAL, True),
           (None, 'F', VAL, True), ('response', None, FLAG, False), ('two-point', None, FLAG, False), ('high-freq', 'H', VAL, True)]
# option -> function it runs, default of its value
MODES = {'avg': ('average', None), 'monte-carlo': ('run_mc', None), 'monte-carlo-profile': ('run_mc_profile', None),
         'dynamic-profile': ('run_dyn_profile', None), 'monte-carlo-magnus': ('run_mc_magnus', None), 'histogram': ('gen_hist', 8000),
         'dynamic-histogram': ('gen_hist_dynamics', 1000), 'trajectory': ('gen_single_traj', 1000), 'langevin': ('run_langevin', 1),
         'magnus-hist': ('gen_hist_magnus', 8000), 'n-steps': ('run_tau', None), 'ext': ('run_ext', None),
         'response': ('run_sim_response', None), 'two-point': ('two_point_average', None)}
FITS = {'adiabatic': ['trajectory_mean_e', 'find_beta', 'get_obs'], 'adiab_full': ['find_beta2'], 'rot-frame': ['find_beta_rot', 'get_obs_rot'],
        'magnus-fit': ['find_beta_maglab', 'get_obs_maglab'], 'f': ['find_beta', 'get_obs'], 'F': ['find_betah', 'get_obsh'],
        'high-freq': ['get_obsh']}
NOMODE = ('tau', 'beta', 'steps')
ALL = sorted({m[0] for m in MODES.values()} | {f for fs in FITS.values() for f in fs} | {'run_sim'})
CACHE = {}


def optname(o):
    return o[0] or o[1]


def args_type(prog):
    c = [p[len('sc::<'):-len(' as clap::Args>::augment_args')] for p in prog.fns if p.startswith('sc::<') and p.endswith(' as clap::Args>::augment_args')]
    return c[0] if len(c) == 1 else None


def root_id(v, depth=0):
    """id of the argument a builder value belongs to"""
    while isinstance(v, Opq) and depth < 60:
        if v.tag == 'call:clap::Arg::new':
            s = v.deps[0]
            return s.parts[0] if isinstance(s, Str) and len(s.parts) == 1 and isinstance(s.parts[0], str) else None
        v = v.deps[0] if v.deps else None
        depth += 1
    return None


def declared(ctx):
    """{field: properties} of the declared options, from the builder calls clap's derive generates"""
    if 'decl' in CACHE:
        return CACHE['decl']
    ty = args_type(ctx.prog)
    if ty is None:
        CACHE['decl'] = None
        return None
    I = ctx.run('sc::<%s as clap::Args>::augment_args' % ty, mods={})
    out = {}
    if I is None:
        return None
    for o in walk(I.events):
        if not o.callee.startswith('clap::Arg::'):
            continue
        n = o.callee[len('clap::Arg::'):]
        i = root_id(o.args[0]) if n != 'new' else (o.args[0].parts[0] if isinstance(o.args[0], Str) and o.args[0].parts else None)
        if i is None:
            continue
        d = out.setdefault(i, {'at': o.at(), 'order': len(out)})
        if n != 'new':
            d[n] = o.args[1] if len(o.args) > 1 else True
    CACHE['decl'] = out
    return out


def txt(v):
    return v.parts[0] if isinstance(v, Str) and len(v.parts) == 1 and isinstance(v.parts[0], str) else None


def field_of(decl, o):
    """the field an option is stored in"""
    long, short = o[0], o[1]
    a = [f for f, d in decl.items() if long and txt(d.get('long')) == long]
    b = [f for f, d in decl.items() if short and txt(d.get('short')) == short]
    return a, b


def fields_by_option(ctx):
    decl = declared(ctx)
    if decl is None:
        return None
    out = {}
    for o in OPTIONS:
        a, b = field_of(decl, o)
        c = set(a) | set(b)
        if len(c) == 1:
            out[optname(o)] = c.pop()
    return out


def parser(ctx, nm, d):
    """no value of the type is turned away"""
    v = d.get('value_parser')
    r = repr(v)
    if v is None or ('::range(' not in r and ('_ValueParserViaParse' in r or '_ValueParserViaFactory' in r)):
        ctx.proved(nm + ': every value of its type', 'parser of the type', d['at'])
        return
    rng = v.deps[1] if isinstance(v, Opq) and v.tag.endswith('::range') and len(v.deps) > 1 else None
    if isinstance(rng, St):
        end = core.as_num(rng.f.get('end')) if 'end' in rng.f else None
        start = core.as_num(rng.f.get('start')) if 'start' in rng.f else None
        if (end is not None and end.const() is not None and end.const() < 2 ** 31 - 1) or \
                (start is not None and start.const() is not None and start.const() > 1):
            ctx.violated(nm + ': every value of its type', 'values outside %s are rejected' % repr(rng)[:80], d['at'])
            return
    ctx.undecided(nm + ': every value of its type', r[:120], d['at'])


def P39(ctx):
    ctx.rule('every documented option exists under its documented long and short name, is stored in a field of its own, and takes a value as documented; energies may be negative, the periods of n-steps are separated by commas')
    decl = declared(ctx)
    w = 'src/main.rs'
    if not decl:
        ctx.undecided('options', 'no option declarations found', w)
        return
    used = {}
    for o in OPTIONS:
        nm = 'option %s' % ('--' + o[0] if o[0] else '-' + o[1])
        a, b = field_of(decl, o)
        c = set(a) | set(b)
        if not c:
            ctx.violated(nm, 'there is no such option', w)
            continue
        if (o[0] and not a) or (o[1] and not b) or len(c) != 1:
            ctx.violated(nm, 'long name: %s, short name: %s' % (a or 'none', b or 'none'), w)
            continue
        f = c.pop()
        d = decl[f]
        if f in used:
            ctx.violated(nm, 'shares its field with %s' % used[f], d['at'])
            continue
        used[f] = nm
        act = d.get('action')
        av = act.var if isinstance(act, St) else None
        avn = repr(act)
        na = d.get('num_args')
        opt = na is not None and isinstance(na, St) and core.as_num(na.f.get('start')) is not None and \
            core.as_num(na.f['start']).is_zero() and core.as_num(na.f.get('end')) == ONE
        delim = txt(d.get('value_delimiter'))
        kind = FLAG if 'SetTrue' in avn else LIST if delim == ',' and 'Append' in avn else OPTVAL if opt and 'Set' in avn else VAL \
            if 'Set{' in avn and na is None and delim is None else None
        if kind is None:
            ctx.violated(nm + ': value', '%s expected, found action %s, values %s, delimiter %s' % (o[2], avn[:40], repr(na)[:60], delim), d['at']) \
                if isinstance(act, St) else ctx.undecided(nm + ': value', avn[:100], d['at'])
        elif kind != o[2]:
            ctx.violated(nm + ': value', '%s instead of %s' % (kind, o[2]), d['at'])
        else:
            ctx.proved(nm + ': value', kind, d['at'])
        neg = d.get('allow_hyphen_values', d.get('allow_negative_numbers'))
        if o[3]:
            if neg is TRUE:
                ctx.proved(nm + ': accepts negative values', '', d['at'])
            else:
                ctx.violated(nm + ': accepts negative values', 'a value such as -0.66 is rejected', d['at'])
        only = False
        for k in ('conflicts_with', 'conflicts_with_all', 'requires', 'requires_all', 'exclusive', 'required'):
            v = d.get(k)
            if v is None or v is gsa.FALSE or (k == 'required' and (av is not None or 'takes_values' in repr(v))):
                continue
            if k in ('exclusive', 'required') and v is not TRUE:
                ctx.undecided(nm + ': ' + k, repr(v)[:100], d['at'])
                continue
            only = True
            ctx.violated(nm + ': accepted by itself and with any other', '%s %s' % (k, '' if v is TRUE else repr(v)[:100]), d['at'])
        if not only:
            ctx.proved(nm + ': accepted by itself and with any other', '', d['at'])
        for k in ('default_value', 'default_missing_value', 'default_values', 'overrides_with', 'overrides_with_all', 'required_unless_present',
                  'required_if_eq', 'default_value_if', 'env', 'last', 'index', 'value_terminator', 'raw', 'group', 'groups', 'ignore_case',
                  'number_of_values', 'default_missing_values'):
            if d.get(k) is not None:
                ctx.undecided(nm + ': ' + k, repr(d[k])[:100], d['at'])
        parser(ctx, nm, d)
    # default name and version options must not be taken over
    for f, d in decl.items():
        if f in used:
            continue
        ctx.undecided('option %s' % f, 'an option which is not documented', d['at'])


# ------------------------------------------------------------------ main
def stop(name):
    def m(I, fr, path, j, args, t):
        models.emit(I, name, [models.deref_all(I, a) for a in args], t)
        if name.startswith('find'):
            return A(('fn', 'found:' + name, (ZERO,)))
        if name.startswith('trajectory'):
            return A(('fn', 'mean:' + name, (ZERO,)))
        if name.startswith('get'):
            return Tup([A(('fn', 'got:' + name, (num(i),))) for i in range(4)])
        return UNIT
    return m


def parse(ctx, given):
    """model of Args::parse: the options in given are there, the others are not; None: any may be there"""
    ty = args_type(ctx.prog)
    tid = [(k, t) for k, t in enumerate(ctx.prog.files['sc-bin']['types']) if t['k'] == 'adt' and t['path'] == 'sc::' + ty]
    by = fields_by_option(ctx)

    def m(I, fr, path, j, args, t):
        a = I.symval('sc-bin', tid[0][0], 'args', ())
        if given is None:
            return a
        f = dict(a.f)
        on = {by[o] for o in given if o in by}
        for k, v in f.items():
            if isinstance(v, gsa.SymEnum):
                if k not in on:
                    f[k] = models.NONE
                elif k not in [by.get('tau'), by.get('beta'), by.get('steps')]:
                    f[k] = I.variant(v, 1, 'Some')
            elif isinstance(v, gsa.B):
                f[k] = TRUE if k in on else gsa.FALSE
        return St(a.path, a.var, a.vname, f)
    return m


def run_main(ctx, given, extra=()):
    mods = chains.chain_models()
    for n in ALL:
        if ctx.prog.find(obs(n)) is None:
            ctx.undecided('anchor ' + obs(n), 'the function no longer exists under this name', obs(n))
            return None
        mods[obs(n)] = stop(n)
    mods.update(extra)
    if ctx.prog.find('sc::main') is None or args_type(ctx.prog) is None or not fields_by_option(ctx):
        ctx.undecided('sc::main', 'command line not found', 'src/main.rs')
        return None
    p = parse(ctx, given)
    for n in ('clap::Parser::parse', 'sc::<%s as clap::Parser>::parse' % args_type(ctx.prog), '<%s as clap::Parser>::parse' % args_type(ctx.prog)):
        mods[n] = p
    I = ctx.run('sc::main', mods=mods)
    if I is None:
        return None
    if any('clap' in o.callee for o in walk(I.events)):
        ctx.undecided('sc::main', 'the command line is read in another way', 'src/main.rs')
        return None
    return list(walk(I.events))


LOGGING = ('ext', 'n-steps', 'dynamic-profile', 'langevin', 'response')


def combined(ctx):
    """modes asked for together: each numbers its logs from where the one before it ended"""
    by = fields_by_option(ctx)
    if not by or any(o not in by for o in LOGGING):
        ctx.undecided('modes in one invocation', 'command line not found', 'src/main.rs')
        return
    extra = {}
    for opt in LOGGING:
        fname = MODES[opt][0]
        m = runs.mode_tau(ctx) if fname == 'run_tau' else runs.mode(ctx, fname, opt == 'response')
        c = m.I.mem.get(('P', 'conf')) if m is not None else None
        off = runs.same_offset(core.as_num(c.f.get('offset'))) if isinstance(c, St) else None
        if off is None:
            ctx.undecided('modes in one invocation', 'the offset after %s is not resolved' % fname, obs(fname))
            return
        n = core.as_num(sel('taus', 'len', kind='int')) if fname == 'run_tau' else conf('runs', 'int')
        f = Facts().add_le(-n)
        if alg.equal(off, conf('offset', 'int') + n, f).ok:
            step = sym('runs of ' + fname, 'int')
        elif alg.equal(off, conf('offset', 'int'), f).ok:
            step = ZERO
        else:
            ctx.undecided('modes in one invocation', 'the offset after %s is not resolved' % fname, obs(fname))
            return

        def model(I, fr, path, j, args, t, fname=fname, step=step):
            r = stop(fname)(I, fr, path, j, args, t)
            for a in args:
                v = I.load(a) if isinstance(a, gsa.Ref) else None
                if isinstance(v, St) and v.path == 'sc::config::Config':
                    x = core.as_num(v.f.get('offset'))
                    if x is not None:
                        I.store(gsa.Ref(a.root, tuple(a.path) + (('f', 'offset'),)), x + step)
            return r
        extra[obs(fname)] = model
    occ = run_main(ctx, ('tau', 'beta', 'steps') + LOGGING, extra)
    if occ is None:
        return
    calls = sorted(named(occ, *[MODES[o][0] for o in LOGGING]), key=lambda o: o.seq)
    done = ZERO
    for o in calls:
        c = conf_arg(o)
        got = core.as_num(c.f.get('offset')) if c is not None else None
        nm = '%s: logs follow those of the modes before it' % o.callee
        if got is None:
            ctx.undecided(nm, 'not resolved', o.at())
        else:
            ctx.eq(nm, got, sel('saved', 'offset', kind='int') + done, None, o.at())
        done = done + ite(o.pc(), sym('runs of ' + o.callee, 'int'), ZERO)


def given_cond(field, ctx):
    """condition that the option is given"""
    a = ctx.prog.adts['sc::' + args_type(ctx.prog)][0]
    ft = [f for f in a['variants'][0]['fields'] if f['name'] == field][0]['ty']
    t = ctx.prog.files['sc-bin']['types'][ft]
    if t['k'] == 'prim':
        return alg_bool('args', field)
    from alg import bvar
    return bnot(bvar(('isv', 'args', (field,), 'None')))


def conf_arg(o):
    for a in o.args:
        if isinstance(a, St) and a.path == 'sc::config::Config':
            return a
    return None


def others(o):
    return [a for a in o.args if not (isinstance(a, St) and a.path == 'sc::config::Config')]


def base_config(ctx, by, skip=()):
    """the settings read, with the command-line overrides"""
    w = dict(config_of(ctx, 'saved').f)
    tau, beta = by['tau'], by['beta']
    w['tau'] = ite(given_cond(tau, ctx), sel('args', tau, 'Some'), sel('saved', 'tau'))
    w['beta'] = ite(given_cond(beta, ctx), sel('args', beta, 'Some'), A(('fn', 'solve_beta', (sel('saved', 'ednsty'),))))
    return w


def when(pc, v):
    """the value where it is used"""
    return ite(pc, v, ZERO) if isinstance(v, P) else v


def conf_same(ctx, name, got, want, where, skip=(), pc=TRUE):
    if got is None:
        ctx.undecided(name, 'configuration not resolved', where)
        return
    bad = False
    n = 0
    for k, w in want.items():
        if k in skip:
            continue
        g = got.f.get(k)
        r = value_eq(ctx, when(pc, g), when(pc, w)) if g is not None else None
        n += 1
        if r is None:
            ctx.undecided(name + ': ' + k, 'not resolved: %s' % repr(g)[:100], where)
            bad = True
        elif r is not True:
            ctx.violated(name + ': ' + k, '%s is %s instead of %s%s' % (k, repr(g)[:120], repr(w)[:80], '' if r is False else '; ' + r), where)
            bad = True
    if not bad:
        ctx.proved(name, '%d field(s)' % n, where)


def value_of(by, opt):
    return sel('args', by[opt], 'Some')


def P32(ctx):
    ctx.rule('each mode runs once exactly if its option is given, with the value of the option or its default; the default run exactly if no mode is requested; every mode gets the settings of the file with --tau and --beta put in, beta solved from ednsty otherwise')
    w = ctx.where('sc::main')
    by = fields_by_option(ctx)
    occ = run_main(ctx, None)
    if occ is None:
        return
    rd = named(occ, 'read_config')
    if len(rd) == 1 and is_path(rd[0].args[0], 'config.toml') and rd[0].pc() is TRUE:
        ctx.proved('settings are read from config.toml', '', rd[0].at())
    elif rd and all(isinstance(x.args[0], Str) and all(isinstance(q, str) for q in x.args[0].parts) and not is_path(x.args[0], 'config.toml') for x in rd):
        ctx.violated('settings are read from config.toml', show_str(rd[0].args[0]), rd[0].at())
    else:
        ctx.undecided('settings are read from config.toml', '%d places' % len(rd), w)
    missing = [optname(o) for o in OPTIONS if optname(o) not in by]
    for m in missing:
        ctx.undecided('option ' + m, 'not found', w)
    none = TRUE
    for o in OPTIONS:
        n = optname(o)
        if n in NOMODE or n not in by:
            continue
        none = band(none, bnot(given_cond(by[n], ctx)))
    if missing:
        return
    ctx.eq('default run exactly without a mode', count(named(occ, 'run_sim')), ite(none, ONE, ZERO), None, w)
    if not named(occ, 'run_sim'):
        return
    runof = {}
    for n, (f, d) in MODES.items():
        runof.setdefault(f, []).append(n)
    for n, fs in FITS.items():
        for f in fs:
            runof.setdefault(f, []).append(n)
    for f in ALL:
        if f == 'run_sim':
            continue
        want = ZERO
        for n in runof[f]:
            want = want + ite(given_cond(by[n], ctx), ONE, ZERO)
        ctx.eq('%s runs exactly with %s' % (f, ', '.join('-' * (2 if len(n) > 1 else 1) + n for n in runof[f])), count(named(occ, f)), want, None, w)
    # the settings they get, one mode at a time
    base = base_config(ctx, by)
    occ = run_main(ctx, ('tau', 'beta'))
    for o in named(occ or [], 'run_sim'):
        conf_same(ctx, 'settings of the default run', conf_arg(o), base, o.at(), pc=o.pc())
    for n, (f, d) in sorted(MODES.items()):
        occ = run_main(ctx, ('tau', 'beta', 'steps', n))
        if occ is None:
            return
        for o in named(occ, f):
            want = dict(base)
            nm = '--%s' % n
            if n == 'langevin':
                want['hsize'] = sel('saved', 'ssize', kind='int')
            conf_same(ctx, 'settings of ' + nm, conf_arg(o), want, o.at(), pc=o.pc())
            vals = others(o)
            if d is not None:
                from alg import bvar
                kind = 'real' if n == 'langevin' else 'int'
                v = core.as_num(vals[0]) if len(vals) == 1 else None
                if v is None:
                    ctx.undecided(nm + ': its value', 'not resolved', o.at())
                else:
                    inner = bvar(('isv', 'args', (by[n], 'Some'), 'None'))
                    ctx.eq(nm + ': its value', when(o.pc(), v), when(o.pc(), ite(inner, num(d), sel('args', by[n], 'Some', 'Some', kind=kind))), None, o.at())
            elif n == 'n-steps':
                taus = [x for x in vals if isinstance(x, (Arr, Tup, Opq))]
                st = [core.as_num(x) for x in vals if core.as_num(x) is not None]
                if len(taus) == 1 and len(st) == 1:
                    g = given_cond(by['steps'], ctx)
                    ctx.eq(nm + ': number of periods', st[0], ite(g, sel('args', by['steps'], 'Some', kind='int'), num(1000)), None, o.at())
                    x = taus[0]
                    if isinstance(x, Arr):
                        i = sym('tauidx', 'int')
                        ctx.eq(nm + ': periods', core.as_num(gsa.arr_at(x, i)) or sym('unresolved'), sel('args', by[n], 'Some', i), None, o.at())
                    else:
                        ctx.undecided(nm + ': periods', repr(x)[:100], o.at())
                else:
                    ctx.undecided(nm + ': arguments', '%d values' % len(vals), o.at())
            elif vals:
                ctx.undecided(nm + ': arguments', '%d more' % len(vals), o.at())


def W(n, *extra):
    return num(-2) * PI * inv(n)


def P38(ctx):
    ctx.rule('a fitting mode sets up its ensemble (fields, period, target), fits, puts the fitted inverse temperature in, samples, and appends one record with setting and results to its file')
    by = fields_by_option(ctx)
    if not by:
        ctx.undecided('sc::main', 'command line not found', 'src/main.rs')
        return
    for n in sorted(FITS):
        if n not in by:
            ctx.undecided('option ' + n, 'not found', 'src/main.rs')
            continue
        occ = run_main(ctx, ('tau', 'beta', n))
        if occ is None:
            return
        want = base_config(ctx, by)
        nm = '-' * (2 if len(n) > 1 else 1) + n
        val = value_of(by, n)
        three = lambda a, b, c: Tup([num(0) + a, num(0) + b, num(0) + c])
        found = lambda f: A(('fn', 'found:' + f, (ZERO,)))
        got = lambda f: [A(('fn', 'got:' + f, (num(i),))) for i in range(4)]
        beta0 = want['beta']
        skip = {}
        stages = []
        if n == 'adiabatic':
            want['tau'] = val
            stages.append(('trajectory_mean_e', dict(want)))
            mean = A(('fn', 'mean:trajectory_mean_e', (ZERO,)))
            want['ednsty'] = mean
            want['hs'] = three(ONE, ZERO, W(val))
            stages.append(('find_beta', dict(want)))
            want['beta'] = found('find_beta')
            stages.append(('get_obs', dict(want)))
            rec = ('beta.dat', [val, beta0, found('find_beta')] + got('get_obs') + [mean], ['tau', 'beta0', 'beta', 'e', 'mx', 'my', 'mz', 'e_target'])
        elif n == 'adiab_full':
            want['tau'] = val
            want['hs'] = three(ONE, ZERO, ZERO)
            want['hfield'] = three(ZERO, ZERO, W(val))
            stages.append(('find_beta2', dict(want)))
            rec = ('beta.dat', [val, beta0, found('find_beta2')], ['tau', 'beta0', 'beta'])
        else:
            f, g = (FITS[n] + [None])[:2] if n != 'high-freq' else (None, 'get_obsh')
            tau = want['tau']
            want['ednsty'] = val
            if n in ('f', 'F'):
                want['hs'] = three(ONE, ZERO, ZERO)
                want['hfield'] = three(ZERO, ZERO, W(tau))
            if n == 'f':
                want['hsize'] = sel('saved', 'ssize', kind='int')
            if n == 'high-freq':
                want['hfield'] = three(ZERO, ZERO, -tau * inv(4 * PI))
            if f:
                stages.append((f, dict(want)))
                want['beta'] = found(f)
            stages.append((g, dict(want)))
            file = {'rot-frame': 'betat-rot.dat', 'magnus-fit': 'betat-maglab.dat'}.get(n, 'betat.dat')
            rec = (file, [tau, val, want['beta']] + got(g), ['tau', 'e_target', 'beta', 'e', 'mx', 'my', 'mz'])
        last = -1
        w = ctx.where('sc::main')
        for f, c in stages:
            os_ = named(occ, f)
            if len(os_) != 1:
                (ctx.undecided if os_ else ctx.violated)('%s: %s' % (nm, f), '%d calls' % len(os_), w)
                continue
            o = os_[0]
            if o.seq < last:
                ctx.violated('%s: order' % nm, '%s comes too early' % f, o.at())
            last = o.seq
            conf_same(ctx, '%s: settings for %s' % (nm, f), conf_arg(o), c, o.at(), pc=o.pc())
        for f in ALL:
            if f not in [s[0] for s in stages] and f != 'run_sim' and named(occ, f):
                ctx.violated('%s: runs its own mode only' % nm, f, named(occ, f)[0].at())
        wr = [o for o in occ if o.callee in ('std::io::Write::write_fmt', 'std::io::Write::write_all', 'std::fs::write')]
        if len(wr) != 1:
            (ctx.undecided if wr else ctx.violated)(nm + ': record', '%d writes' % len(wr), w)
            continue
        o = wr[0]
        ctx.eq(nm + ': one record', count([o]), ONE, None, o.at())
        p = path_in(o.args[0])
        if p is None:
            ctx.undecided(nm + ': file', repr(o.args[0])[:100], o.at())
        elif p.parts == (rec[0],):
            ctx.proved(nm + ': file', rec[0], o.at())
        else:
            ctx.violated(nm + ': file', '%s instead of %s' % (show_str(p), rec[0]), o.at())
        app = [x for x in occ if x.callee.endswith('OpenOptions::append') and x.args[-1] is TRUE]
        trunc = [x for x in occ if x.callee in ('std::fs::File::create', 'std::fs::write') or x.callee.endswith('OpenOptions::truncate') and x.args[-1] is TRUE]
        if app and not trunc:
            ctx.proved(nm + ': earlier records are kept', 'opened for appending', o.at())
        elif trunc:
            ctx.violated(nm + ': earlier records are kept', trunc[0].callee, trunc[0].at())
        else:
            ctx.violated(nm + ': earlier records are kept', 'not opened for appending', o.at())
        s = text_of(o)
        columns(ctx, nm + ': record', s, rec[1], rec[2], None, o.at())
        if isinstance(s, Str) and not (s.parts and isinstance(s.parts[-1], str) and s.parts[-1].endswith('\n')):
            ctx.violated(nm + ': ends the line', 'no line break', o.at())


PROPS = {'P32': P32, 'P38': P38, 'P39': P39}
