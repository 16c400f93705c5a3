"""The configuration file: names, defaults (P30), when the defaults are used (P31), its description (P43)."""
import re
import tomllib
import alg
import gsa
import models
from .flow import *
from . import chains
from alg import band, bnot, bor, TRUE
from gsa import FALSE, Opq, Str

CONFIG = 'config::Config'
# the documented settings: key, field, default (README, output of --config-desc; mc_points, log: Default)
KEYS = [('hsize', 'hsize', 512), ('ssize', 'ssize', 8), ('t', 't', 256), ('dt', 'dt', '0.02'), ('runs', 'runs', 2), ('threads', 'threads', 2),
        ('trel', 'trel', 0), ('tau', 'tau', 10), ('lambda', 'lambda', 1), ('hfield', 'hfield', [0, 0, 0]), ('hs', 'hs', [0, 0, 0]),
        ('jvar', 'jvar', '0.001'), ('hvar', 'hvar', 0), ('method', 'method', 2), ('ednsty', 'ednsty', '-0.66'), ('file', 'file', 'log'),
        ('strob', 'strob', False), ('offset', 'offset', 0), ('beta', 'beta', '2.88'), ('mc_points', 'mc_points', 1000), ('e', 'e', '0.9'),
        ('drivetype', 'drive', 'xyplane'), ('log', 'log', True)]
TEXT = ('file',)
DRIVES = ['xyplane', 'xyelliptic', 'uniaxial', 'staticfield', 'none']


def find(prog, *parts):
    """functions whose path contains all the parts"""
    return [p for p in prog.fns if all(x in p for x in parts)]


def spec_value(v, f):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if f in TEXT:
        return Str([v])
    if f == 'drive':
        return v
    if isinstance(v, list):
        return [spec_value(x, '') for x in v]
    from fractions import Fraction
    return num(Fraction(str(v)))


def is_value(ctx, g, w):
    """True / reason / None"""
    if isinstance(w, str):
        if isinstance(g, St) and g.vname:
            return True if g.vname == w else 'is %s, not %s' % (g.vname, w)
        return None
    if isinstance(w, list):
        try:
            n = gsa.arr_len(g)
            r = num_eq(n, num(len(w)))
            for i, x in enumerate(w):
                if r is True:
                    r = is_value(ctx, arr_at(g, num(i)), x)
            return r
        except Exception:
            return None
    if isinstance(w, gsa.B):
        return None if not isinstance(g, gsa.B) or g not in (TRUE, FALSE) else True if g is w else 'is %s' % ('true' if g is TRUE else 'false')
    if isinstance(w, Str):
        return str_eq(ctx, g, w) if isinstance(g, Str) else None
    return value_eq(ctx, g, w)


def reader(ctx, typ, what):
    return [p for p in ctx.prog.fns if ('for %s>::deserialize::__%s' % (typ, 'FieldVisitor' if what == 'visit_str' else 'Visitor')) in p and p.endswith('::' + what)]


def key_field(ctx, typ, key):
    """the field a key of the file stands for, as the reader sees it"""
    ps = reader(ctx, typ, 'visit_str')
    if len(ps) != 1:
        return None
    I = ctx.run(ps[0], args=[Opq('self'), Str([key])], mods=chains.chain_models())
    v = getattr(I, 'ret', None)
    if isinstance(v, St) and v.vname == 'Ok':
        return v.f.get('0')
    if isinstance(v, St) and v.vname == 'Err':
        return 'unknown'
    return None


def read_with(ctx, field):
    """the configuration read from a file which has just the one given field (None: an empty file)"""
    ps = reader(ctx, CONFIG, 'visit_map')
    if len(ps) != 1:
        return None
    mods = dict(chains.chain_models())

    def next_key(I, fr, path, j, args, t):
        if field is None:
            return models.ok(models.NONE)
        I.seq += 1
        c = alg.bvar(('opqb', 'more', tuple(I.loopk)))
        return models.ok(gsa.gate(c, models.some(field), models.NONE))

    mods['serde::de::MapAccess::next_key'] = next_key
    I = ctx.run(ps[0], mods=mods)
    if I is None:
        return None
    out = []

    def leaves(v):
        if isinstance(v, gsa.Gate):
            leaves(v.a)
            leaves(v.b)
        elif isinstance(v, St) and v.vname == 'Ok' and isinstance(v.f.get('0'), St):
            out.append(v.f['0'])
    leaves(I.ret)
    return out[0] if len(out) == 1 else None


def given(v):
    """True: the value is what the reader finds under the key; False: it is a constant"""
    if isinstance(v, gsa.Gate):
        a, b = given(v.a), given(v.b)
        return True if True in (a, b) else None if None in (a, b) else False
    if isinstance(v, Opq):
        return True if v.tag == 'ok' and isinstance(v.deps[0], Opq) and v.deps[0].tag == 'call:serde::de::MapAccess::next_value' else None
    if isinstance(v, P):
        for a in v.atoms():
            t = alg._atom[a]
            if t[0] == 'ite':
                return given(t[2]) or given(t[3])
            if t[0] == 'opq':
                return 'next_value' in repr(t) or None
        return False
    if isinstance(v, gsa.B):
        if v in (TRUE, FALSE):
            return False
        return True if 'next_value' in ' '.join(repr(alg._batom[x]) for x in alg.bsupport(v)) else None
    if isinstance(v, (Tup, Arr, Str, St)):
        return True if 'next_value' in repr(v) else False
    if 'next_value' in repr(v):
        return True
    return None


def written(ctx, empty):
    """the writer: every setting goes to the file, under a key from which it is read back"""
    w = 'src/config.rs'
    ps = [p for p in ctx.prog.fns if 'serde::Serialize for %s>::serialize' % CONFIG in p]
    I = ctx.run(ps[0], mods=chains.chain_models()) if len(ps) == 1 else None
    if I is None:
        ctx.undecided('keys written', 'the writer is not resolved', w)
        return
    conf_ = config_of(ctx, 'conf').f
    done = {}
    for o in named(list(walk(I.events)), 'serde::ser::SerializeStruct::serialize_field'):
        key, val = o.args[1], o.args[2]
        if not isinstance(key, Str) or len(key.parts) != 1:
            ctx.undecided('keys written', 'not resolved', o.at())
            continue
        key = key.parts[0]
        f = [x for x in conf_ if gsa.same(val, conf_[x])]
        if len(f) != 1:
            ctx.undecided('written key %s' % key, 'value not resolved: %s' % repr(val)[:80], o.at())
            done.setdefault(key, []).append(None)
            continue
        done.setdefault(f[0], []).append(o)
        k = key_field(ctx, CONFIG, key)
        if k is None:
            ctx.undecided('written key %s' % key, 'the reader is not resolved', o.at())
        elif not isinstance(k, St) or k.vname in (None, '__ignore'):
            ctx.violated('written key %s' % key, 'is not read back', o.at())
        else:
            sets(ctx, 'written key %s' % key, k, f[0], empty, w)
    for _, f, v in KEYS:
        nm = 'setting %s is written' % f
        os_ = done.get(f)
        if os_ is None:
            if done:
                ctx.violated(nm, 'it is not', w)
            continue
        if None in os_:
            continue
        c = FALSE
        for o in os_:
            c = bor(c, without_errors(o.pc()))
        if c is TRUE:
            ctx.proved(nm, 'always', w)
            continue
        left_out(ctx, nm, c, conf_[f], empty, f, os_[0].at())


def without_errors(c):
    """the condition, provided that the writer has met no error so far"""
    for x in list(alg.bsupport(c)):
        if 'serde::' in repr(alg._batom[x]) and alg._batom[x][0] in ('opqb', 'eq0', 'isv'):
            t = alg._batom[x]
            if t[:2] == ('opqb', 'ispos'):
                c = cof(c, x, True)
    return c


def left_out(ctx, nm, c, val, empty, f, at):
    """a setting which is not always written: what is left out must be the default which is read instead"""
    d = empty.f.get(f) if isinstance(empty, St) else None
    v, d = (ite(q, ONE, ZERO) if isinstance(q, gsa.B) else q for q in (val, d))
    if isinstance(v, P) and isinstance(d, P):
        ctx.eq(nm + ' unless it has its default', ite(c, d, v), d, None, at)
    else:
        ctx.undecided(nm, 'left out under a condition which is not resolved', at)


def P30(ctx):
    ctx.rule('a setting left out of the file has its documented default; a documented key sets just its setting; every written key is read back')
    w = 'src/config.rs'
    empty = read_with(ctx, None)
    dflt = ctx.run('sc::<config::Config as std::default::Default>::default') if ctx.prog.find('sc::<config::Config as std::default::Default>::default') else None
    srcs = [('empty file', empty), ('Config::default()', getattr(dflt, 'ret', None))]
    for lab, c in srcs:
        if not isinstance(c, St):
            ctx.undecided(lab, 'the settings are not resolved', w)
            continue
        for key, f, v in KEYS:
            if f not in c.f:
                ctx.violated('%s: %s' % (lab, key), 'the setting does not exist', w)
                continue
            require(ctx, '%s: %s' % (lab, key), is_value(ctx, c.f[f], spec_value(v, f)), w, 'default %s' % (v,))
    for key, f, v in KEYS:
        k = key_field(ctx, CONFIG, key)
        nm = 'key %s' % key
        if k is None:
            ctx.undecided(nm, 'the reader is not resolved', w)
            continue
        if k == 'unknown' or not isinstance(k, St) or k.vname in (None, '__ignore', '__other'):
            ctx.violated(nm, 'the documented key %s is not read' % key, w)
            continue
        ctx.proved(nm + ': is read', '', w)
        sets(ctx, nm, k, f, empty, w)
    # written by the program itself
    written(ctx, empty)
    for d in DRIVES:
        k = key_field(ctx, 'config::DriveType', d)
        nm = 'drive %s' % d
        if k is None:
            ctx.undecided(nm, 'the reader is not resolved', w)
        elif k == 'unknown':
            ctx.violated(nm, 'is not read', w)
        else:
            drive(ctx, nm, k, d, w)
    ps = [p for p in ctx.prog.fns if 'serde::Serialize for config::DriveType>::serialize' in p]
    I = ctx.run(ps[0], mods=chains.chain_models()) if len(ps) == 1 else None
    if I is None:
        ctx.undecided('drives written', 'the writer is not resolved', w)
        return
    got = {}
    for o in named(list(walk(I.events)), 'serde::Serializer::serialize_unit_variant'):
        n = o.args[3]
        if isinstance(n, Str) and len(n.parts) == 1:
            got[n.parts[0]] = o.pc()
    isv = lambda d: alg.bvar(('isv', 'self', (), d))
    for d in DRIVES:
        nm = 'drive %s is written by its name' % d
        if d not in got:
            ctx.violated(nm, 'written as something else', w)
            continue
        c = got[d]
        sup = [alg._batom[x] for x in alg.bsupport(c)]
        if any(t[0] != 'isv' for t in sup):
            ctx.undecided(nm, 'not resolved', w)
            continue
        # the value d, and no other, is written so
        ok = all((is_true(c, x) is (x == d)) for x in DRIVES)
        (ctx.proved if ok else ctx.violated)(nm, '' if ok else 'another drive is written so', w)


def is_true(c, d):
    """a condition on the variant, for the variant d"""
    while c is not TRUE and c is not FALSE:
        t = alg._batom[c.v]
        c = c.hi if t[-1] == d else c.lo
    return c is TRUE


def drive(ctx, nm, k, d, w):
    """the variant read for a name is the one of that name: visit_enum maps the field to it"""
    ps = reader(ctx, 'config::DriveType', 'visit_enum')
    if len(ps) != 1 or not isinstance(k, St):
        ctx.undecided(nm, 'the reader is not resolved', w)
        return
    mods = dict(chains.chain_models())
    mods['serde::de::EnumAccess::variant'] = lambda I, fr, path, j, args, t: models.ok(Tup([k, Opq('content')]))
    I = ctx.run(ps[0], mods=mods)
    v = getattr(I, 'ret', None)
    vs = set()

    def leaves(x):
        if isinstance(x, gsa.Gate):
            leaves(x.a)
            leaves(x.b)
        elif isinstance(x, St) and x.vname == 'Ok':
            y = x.f.get('0')
            vs.add(y.vname if isinstance(y, St) else None)
        elif isinstance(x, St) and x.vname == 'Err' or isinstance(x, Opq):
            pass
        else:
            vs.add(None)
    leaves(v)
    if vs == {d}:
        ctx.proved(nm, '', w)
    elif not vs or None in vs:
        ctx.undecided(nm, 'not resolved: %s' % repr(v)[:100], w)
    else:
        ctx.violated(nm, 'is read as %s' % ', '.join(sorted(vs)), w)


def sets(ctx, nm, k, f, empty, w):
    """reading a file with just this key sets the setting f and no other"""
    if not isinstance(empty, St):
        return
    c = read_with(ctx, k)
    if c is None or f not in c.f:
        ctx.undecided(nm + ': sets %s' % f, 'not resolved', w)
        return
    g = given(c.f[f])
    if g is None:
        ctx.undecided(nm + ': sets %s' % f, repr(c.f[f])[:100], w)
    else:
        (ctx.proved if g else ctx.violated)(nm + ': sets %s' % f, '' if g else 'it does not', w)
    bad = [x for x in c.f if x != f and given(c.f[x]) and not gsa.same(c.f[x], empty.f.get(x))]
    (ctx.violated if bad else ctx.proved)(nm + ': sets nothing else', 'it sets %s' % ', '.join(bad) if bad else '', w)


# ------------------------------------------------------------------ when the defaults are used
def notfound(b):
    """what a condition says about 'the file does not exist': variable and the side on which it is so"""
    r = None
    for x in alg.bsupport(b):
        t = alg._batom[x]
        if t[:2] == ('opqb', 'Eq') and 'std::io::Error::kind' in repr(t):
            if ('S', 'std::io::ErrorKind', 'NotFound') in t[2:]:
                return x, True
            r = x, None
        if t[0] == 'eq0' and 'std::io::Error::kind' in repr([alg._atom[a] for a in t[1].atoms()]):
            s = alg.single(t[1])
            if s is not None:
                return x, True
            r = x, None
    return r


def cof(b, x, side):
    """the condition b with the test x decided"""
    if b is TRUE or b is FALSE:
        return b
    if b.v == x:
        return b.hi if side else b.lo
    return alg.bite(alg.bvar_i(b.v), cof(b.hi, x, side), cof(b.lo, x, side))


PANICS = ('std::rt::panic_fmt', 'core::panicking::panic', 'std::rt::begin_panic', 'std::process::exit', 'core::panicking::panic_fmt')


def P31(ctx):
    ctx.rule('the settings are those in the file; only if there is none, the defaults are used and written to config.toml')
    for chain in ('spinchain::SpinChain', 'spinchain_langevin::SpinChainLangevin'):
        path = 'sc::%s::read_config' % chain
        I = ctx.run(path, names=('filename',), mods={})
        if I is None:
            continue
        w = ctx.where(path)
        nm = chain.split('::')[1]
        occ = list(walk(I.events))
        rd = named(occ, 'std::fs::read_to_string')
        if len(rd) != 1 or rd[0].pc() is not TRUE:
            ctx.undecided(nm + ': reads the file', '%d places' % len(rd), w)
            continue
        r = rd[0].args[0]
        require(ctx, nm + ': reads the file asked for', True if isinstance(r, Str) and len(r.parts) == 1 and isinstance(r.parts[0], Opq)
                and r.parts[0].tag == 'strin' else None if not isinstance(r, Str) else show_str(r), rd[0].at())
        for o in named(occ, 'toml::from_str'):
            a = o.args[0]
            good = 'call:std::fs::read_to_string' in repr(gsa.canon(a)) and isinstance(a, Opq) and a.tag in ('field', 'ok')
            require(ctx, nm + ': parses what it read', True if good else None, o.at())
        div = FALSE
        for o in occ:
            if o.callee in PANICS or o.callee.startswith('core::panicking'):
                div = bor(div, o.pc())
        cases = []

        def leaves(v, c):
            if isinstance(v, gsa.Gate):
                leaves(v.a, band(c, v.c))
                leaves(v.b, band(c, bnot(v.c)))
            else:
                cases.append((c, v))
        leaves(I.ret, TRUE)
        kinds = set()
        for c, v in cases:
            c = band(c, bnot(div))
            if c is FALSE:
                continue
            if isinstance(v, Opq) and v.tag in ('field', 'ok') and isinstance(v.deps[0], Opq) and v.deps[0].tag == 'call:toml::from_str':
                ctx.proved(nm + ': the settings in the file', '', w)
                kinds.add('file')
            elif isinstance(v, St) and v.path and v.path.endswith('Config'):
                kinds.add('defaults')
                unless(ctx, nm + ': defaults are used only if there is no file', c, w)
                for key, f, d in KEYS:
                    if f in v.f:
                        r = is_value(ctx, v.f[f], spec_value(d, f))
                        if r is not True:
                            require(ctx, '%s: default %s' % (nm, key), r, w)
            elif isinstance(v, Opq) and 'unwrap_or' in v.tag and 'toml::from_str' in repr(v):
                kinds.add('file')
                ctx.violated(nm + ': an invalid file is not ignored', 'the defaults are used instead', w)
            else:
                kinds = {'file', 'defaults'}
                ctx.undecided(nm + ': settings', 'not resolved: %s' % repr(v)[:100], w)
        for x in ('file', 'defaults'):
            if x not in kinds:
                ctx.violated('%s: uses the %s' % (nm, x), 'never', w)
        for o in occ:
            if o.callee in ('std::fs::write', 'std::fs::File::create', 'std::fs::remove_file', 'std::fs::rename', 'std::fs::OpenOptions::open',
                            'std::io::Write::write_fmt', 'std::io::Write::write_all'):
                if o.callee != 'std::fs::write':
                    ctx.undecided(nm + ': files written', o.callee, o.at())
                    continue
                p = o.args[0]
                require(ctx, nm + ': the defaults are written to config.toml', True if isinstance(p, Str) and p.parts == ('config.toml',) or
                        isinstance(p, Str) and list(p.parts) == ['config.toml'] else show_str(p) if isinstance(p, Str) else None, o.at())
                unless(ctx, nm + ': a file which exists is left alone', o.pc(), o.at())
                src = [q for q in named(occ, 'toml::to_string', 'toml::to_string_pretty') if isinstance(q.args[0], St)]
                if len(src) == 1:
                    bad = [k for k, f, d in KEYS if f not in src[0].args[0].f or is_value(ctx, src[0].args[0].f[f], spec_value(d, f)) is not True]
                    (ctx.violated if bad else ctx.proved)(nm + ': the file written holds the defaults', ', '.join(bad), o.at())
                else:
                    ctx.undecided(nm + ': the file written holds the defaults', 'not resolved', o.at())


def unless(ctx, nm, c, w):
    """c only holds if the file does not exist"""
    v = notfound(c)
    if v is None:
        others = [alg._batom[x] for x in alg.bsupport(c) if 'call:std::fs::read_to_string' not in repr_b(alg._batom[x])]
        if others:
            ctx.undecided(nm, 'depends on something else: %s' % repr(others)[:120], w)
        else:
            ctx.violated(nm, 'also if reading it fails for another reason', w)
        return
    x, side = v
    if side is None:
        ctx.violated(nm, 'it depends on another reason for the failure than that there is no file', w)
    elif cof(c, x, not side) is FALSE:
        ctx.proved(nm, '', w)
    else:
        ctx.violated(nm, 'also if reading it fails for another reason', w)


def repr_b(t):
    if t[0] in ('eq0', 'lt0', 'le0'):
        return repr([alg._atom[a] for a in t[1].atoms()])
    return repr(t)


# ------------------------------------------------------------------ its description
def P43(ctx):
    ctx.rule('--config-desc prints a valid configuration file which names every setting with its default')
    w = ctx.where('sc::print_config_description')
    I = run_bin(ctx, 'sc::print_config_description')
    if I is None:
        return
    out = named(list(walk(I.events)), 'std::io::_print')
    if not out:
        ctx.violated('description: is printed', 'nothing is', w)
        return
    parts = []
    for o in out:
        if o.loops or o.pc() is not TRUE or not isinstance(o.args[0], Str) or not all(isinstance(q, str) for q in o.args[0].parts):
            ctx.undecided('description: is printed', 'not resolved', o.at())
            return
        parts += list(o.args[0].parts)
    try:
        t = tomllib.loads(''.join(parts))
    except Exception as e:
        ctx.violated('description: is a configuration file', 'it cannot be parsed: %s' % e, w)
        return
    if not t:
        ctx.violated('description: names the settings', 'it is empty', w)
        return
    ctx.proved('description: is a configuration file', '', w)
    empty = read_with(ctx, None)
    seen = {}
    for key, v in t.items():
        k = key_field(ctx, CONFIG, key)
        nm = 'description: %s' % key
        if k is None:
            ctx.undecided(nm, 'the reader is not resolved', w)
            continue
        if not isinstance(k, St) or k.vname in (None, '__ignore'):
            ctx.violated(nm, 'no such setting is read', w)
            continue
        c = read_with(ctx, k)
        if c is None or not isinstance(empty, St):
            ctx.undecided(nm, 'the reader is not resolved', w)
            continue
        f = [x for x in c.f if given(c.f[x])]
        if len(f) != 1:
            ctx.undecided(nm, 'the reader is not resolved', w)
            continue
        seen[f[0]] = key
        require(ctx, nm + ': the default is as described', is_value(ctx, empty.f[f[0]], spec_value(tom(v), f[0])), w, 'default %s' % (v,))
    for key, f, _ in KEYS:
        (ctx.proved if f in seen else ctx.violated)('description: describes %s' % key, '' if f in seen else 'it does not', w)
    # the values it offers
    for line in ''.join(parts).splitlines():
        m = re.match(r'\s*drivetype\s*=\s*"[^"]*"\s*#(.*)', line)
        for d in re.findall(r'"([^"]*)"', m.group(1)) if m else ():
            k = key_field(ctx, 'config::DriveType', d)
            if k is None:
                ctx.undecided('description: offered drive %s' % d, 'the reader is not resolved', w)
            else:
                (ctx.violated if k == 'unknown' else ctx.proved)('description: offered drive %s' % d, 'no such drive is read' if k == 'unknown' else '', w)


def tom(v):
    if isinstance(v, list):
        return [tom(x) for x in v]
    return repr(v) if isinstance(v, float) else v


PROPS = {'P30': P30, 'P31': P31, 'P43': P43}
