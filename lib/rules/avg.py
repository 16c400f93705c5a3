"""Averages over log files: --average (P28) and the two-point average (P29)."""
import alg
import neval
from .flow import *
from . import runs
from .runs import obs, trip
from .records import path_in, text_of
from alg import A, Subst, single, deep_atoms

PAT = ('str', ('strin', 'conf', ('file',)), '*.dat')


def atom1(p):
    s = single(p) if isinstance(p, P) else None
    return alg._atom[s] if s is not None else None


def find(p, tag):
    return [a for a in deep_atoms(p) if alg._atom[a][0] == 'opq' and alg._atom[a][1] == tag]


def var_of(b):
    """(what a condition tests, whether it is negated) if it is a single test"""
    if not isinstance(b, gsa.B) or b is TRUE or b is gsa.FALSE:
        return None
    if b.hi is TRUE and b.lo is gsa.FALSE:
        return alg._batom[b.v], False
    if b.lo is TRUE and b.hi is gsa.FALSE:
        return alg._batom[b.v], True
    return None


def left_early(ctx, name, l, what, w):
    """a loop with several ways out, one of them the end of what it goes over; True if it can be left before that"""
    k = l.e.info['k']
    out, n = alg.FALSE, None
    for e in l.e.info['exits']:
        out = alg.bor(out, e[1])
        for v in alg.bsupport(e[1]):
            t = alg.batom_of(v)
            if t[0] in ('lt0', 'le0') and find(t[1], what) and n is None:
                p = t[1] + k
                if not alg.deep_atoms(p) & {single(k)}:
                    n = p
                p = k - t[1] - (ONE if t[0] == 'lt0' else ZERO)
                if n is None and not alg.deep_atoms(p) & {single(k)}:
                    n = p
    if n is None:
        return False
    f = Facts().add_le(-k).add_le(k - n + 2)
    return ctx.eq(name + ': the loop is not left before its end', ite(out, ONE, ZERO), ZERO, f, w) is False


def lines_of(l):
    """(file, condition on its lines or None) of a loop over the lines of a file, or a reason it is something else, or None"""
    t = l.e.info.get('trip')
    a = atom1(t)
    if a is not None and a[:2] == ('opq', 'n:line'):
        return a[2][0], None
    if a is not None and a[:2] == ('opq', 'nfilt'):
        b = atom1(a[2][1])
        if b is not None and b[:2] == ('opq', 'n:line'):
            return b[2][0], a[2][0]
        if isinstance(a[2][1], P) and find(a[2][1], 'n:line'):
            return 'leaves out lines by their number'
    elif isinstance(t, P) and find(t, 'nfilt') and t.atoms() and find(t, 'n:line'):
        return 'stops before the last data line, or leaves out lines: %s' % repr(t)[:80]
    elif isinstance(t, P) and find(t, 'n:line') and not find(t, 'nfilt'):
        return 'leaves out lines by their number, not because they are headers'
    return None


def entry_of(file):
    if isinstance(file, tuple) and file[:1] == ('field',) and isinstance(file[1], tuple) and file[1][:1] == ('entry',):
        return file[1][1], file[1][2]
    return None


def header_test(c, file):
    """True: the condition keeps just the lines which do not begin with '#'; a reason it does not; None"""
    v = var_of(c)
    r = header_reason(c, file)
    if r is not None:
        return r
    if v is None:
        return None
    k, neg = v
    if k[:1] == ('opqb',) and isinstance(k[1], tuple) and k[1][:1] == ('str:starts_with',):
        line, what = k[1][1], k[1][2]
        if isinstance(line, tuple) and line[:1] == ('line',) and line[1] == file:
            if what == ('str', '#'):
                return True if neg else 'reads only the header lines'
    if k[:2] == ('opqb', 'ispos') and k[2][:1] == ('str:strip_prefix',) and k[2][2] == ('str', '#') and k[2][1][:2] == ('line', file):
        return True if neg else 'reads only the header lines'
    return None


SAMPLES = ['#t E', '#', '1 2 -0.5', '-1 2', '0.5 nan 3', '', '1 2 # note', '#1', ' # 1 2', '% 1', ' 1 2', '1#', '# 1 2', '//', 'NaN 1', '+1 2', '.5 1']


class NoValue(Exception):
    pass


def on_line(e, file, x):
    """the value of a string expression when the line is x"""
    if isinstance(e, tuple):
        if e[:2] == ('line', file):
            return x
        if e[0] == 'deref' and len(e) == 2:
            return on_line(e[1], file, x)
        if e[0] == 'str:trim' and len(e) == 2:
            return on_line(e[1], file, x).strip()
        if e[0] == 'str:trim_start' and len(e) == 2:
            return on_line(e[1], file, x).lstrip()
        if e[0] == 'str:trim_end' and len(e) == 2:
            return on_line(e[1], file, x).rstrip()
    raise NoValue()


def pats(q):
    if q[:1] == ('str',) and len(q) == 2 and isinstance(q[1], str):
        return (q[1],)
    if q[:1] == ('T',):
        return tuple(y for z in q[1:] for y in pats(z))
    raise NoValue()


def holds_on(c, file, x):
    """whether the condition holds for a line x"""
    while c not in (TRUE, gsa.FALSE):
        t = alg.batom_of(c.v)
        if t[0] != 'opqb':
            raise NoValue()
        e = t[2] if t[1] == 'ispos' else t[1]
        if not isinstance(e, tuple):
            raise NoValue()
        s = on_line(e[1], file, x)
        if e[0] == 'str:is_empty':
            v = not s
        elif e[0] in ('str:starts_with', 'str:strip_prefix'):
            v = s.startswith(pats(e[2]))
        elif e[0] == 'str:ends_with':
            v = s.endswith(pats(e[2]))
        elif e[0] == 'str:contains':
            v = any(q in s for q in pats(e[2]))
        else:
            raise NoValue()
        c = c.hi if v else c.lo
    return c is TRUE


def header_reason(c, file):
    """a line on which the condition is not what it should be"""
    try:
        for x in SAMPLES:
            v = holds_on(c, file, x)
            if v != (not x.startswith('#')):
                return 'the line %r is %s' % (x, 'taken for data' if v else 'left out')
    except (NoValue, IndexError, AttributeError):
        pass
    return None


def is_line(ln, file, cond, i):
    """does this name the i-th data line of the file"""
    if not (isinstance(ln, tuple) and ln[:1] == ('line',)):
        return None
    if ln[1] != file:
        return 'a line of another file'
    if cond is None:
        at = ln[2]
    else:
        a = atom1(ln[2])
        if a is None or a[:2] != ('opq', 'nth') or not gsa.same(a[2][0], cond):
            return None
        at = a[2][1]
    return True if alg_equal(at, i, Facts()) else 'line %s where line %s is required' % (repr(at)[:60], repr(i)[:60])


def word(v, file, cond, i, y):
    """True: v is the y-th number on the i-th data line of the file"""
    a = atom1(v)
    if a is None or a[:2] != ('opq', 'parsed'):
        return None
    tok, ty = a[2]
    if ty != 'f64':
        return 'is read as %s' % ty
    if not (isinstance(tok, tuple) and tok[:1] in (('token',), ('wtoken',))):
        return None
    r = is_line(tok[1], file, cond, i)
    if r is not True:
        return r
    if tok[0] == 'token' and tok[2] not in (('str', ' '),):
        return 'columns are split at %s' % (tok[2],)
    n = tok[-1]
    b = atom1(n)
    if b is not None and b[:2] == ('opq', 'nth'):
        v = var_of(b[2][0])
        if v is None or v[1] or v[0][:2] != ('opqb', 'parses'):
            return None
        n = b[2][1]
    return True if alg_equal(n, y, Facts()) else 'column %s where column %s is required' % (repr(n)[:60], repr(y)[:60])


def P28(ctx):
    ctx.rule('line i of the average is, column by column, the mean over the log files which have an i-th data line')
    table(ctx, 'average', 'avg.dat', lambda c: None)


def P29(ctx):
    ctx.rule('line i of the two-point average is the mean of the columns times those of the same log at t=0, the time itself excepted')
    table(ctx, 'two_point_average', 'two-point.dat', lambda c: c)


def table(ctx, fname, out, two):
    two = two(True)
    I = run_bin(ctx, obs(fname), names=('conf',))
    if I is None:
        return
    w = ctx.where(obs(fname))
    x, y = sym('row', 'int'), sym('column', 'int')
    loops = list(loops_of(I.events))
    # the accumulators are what the loop over the files carries along
    fl = [l for l in loops if not l.loops and isinstance(l.e.info.get('trip'), P) and find(l.e.info['trip'], 'n:entry')]
    fl = [l for l in fl if atom1(l.e.info['trip']) is None or atom1(l.e.info['trip'])[:2] != ('opq', 'none')]
    D = N = outer = None
    for l in fl:
        for ph in l.e.info['phis']:
            if ph.kind == 'num' or ph.symarr is None:
                continue
            try:
                e = arr_at(ph.symarr, x)
            except Exception:
                continue
            if isinstance(e, (Arr, Tup)):
                D, outer = ph, l
            elif isinstance(e, P) and l.e.info['trip'] is not None:
                N = ph
    if D is None or N is None:
        for l in loops:
            if not l.loops and l.e.info.get('trip') is None and len(l.e.info['exits']) > 1 and left_early(ctx, fname + ': every file', l, 'n:entry', w):
                return
        ctx.undecided(fname + ': sums', 'the accumulated sums are not resolved', w)
        return
    t = atom1(outer.e.info['trip'])
    if t is None or t[:2] != ('opq', 'n:entry'):
        ctx.violated(fname + ': files', 'not every file found is read: %s' % repr(outer.e.info['trip'])[:100], w)
        return
    pat = t[2][0]
    if pat != PAT:
        (ctx.violated if isinstance(pat, tuple) and pat[:1] == ('str',) and not any(isinstance(z, tuple) and z[:1] != ('strin',) for z in pat[1:]) else
         ctx.undecided)(fname + ': files', 'reads the files %s' % (pat,), w)
        return
    ctx.proved(fname + ': files', 'every file named {file}*.dat', w)
    if outer.e.info.get('rets') or len(outer.e.info['exits']) != 1:
        left_early(ctx, fname + ': every file', outer, 'n:entry', w)
        ctx.undecided(fname + ': every file', 'more than one way out of the loop over the files', w)
    k0 = outer.e.info['k']
    ln = gsa.arr_len
    for nm, ph in (('sums', D), ('counts', N)):
        ctx.eq('%s: %s start empty' % (fname, nm), ln(ph.init), ZERO, None, w)
    inner = [l for l in loops if l.loops and l.loops[0] is outer.e and len(l.loops) == 1]
    hit = []
    for l in inner:
        m = {ph.name: ph for ph in l.e.info['phis'] if ph.kind != 'num' and ph.symarr is not None}
        if D.name in m and N.name in m:
            hit.append((l, m[D.name], m[N.name], m))
    if len(hit) != 1:
        ctx.undecided(fname + ': lines', '%d loops add up lines' % len(hit), w)
        return
    l, d, n, m = hit[0]
    if l.e.info.get('trip') is None and len(l.e.info['exits']) > 1 and left_early(ctx, fname + ': every line', l, 'n:line', w):
        return
    li = lines_of(l)
    if li is None:
        ctx.undecided(fname + ': lines', 'not resolved: %s' % repr(l.e.info.get('trip'))[:100], w)
        return
    if isinstance(li, str):
        ctx.violated(fname + ': data lines', li, w)
        return
    file, cond = li
    en = entry_of(file)
    if en is None or en[0] != PAT or not alg_equal(en[1], k0, Facts()):
        ctx.undecided(fname + ': file read', repr(file)[:100], w)
        return
    if cond is None:
        ctx.violated(fname + ': data lines', 'the header line is taken for data', w)
    else:
        require(ctx, fname + ': data lines', header_test(cond, file), w, 'all lines but those which begin with #')
    if l.e.info.get('rets') or len(l.e.info['exits']) != 1:
        ctx.undecided(fname + ': every line', 'more than one way out of the loop over the lines', w)
    i = l.e.info['k']
    # one line
    L, W = ln(n.symarr), sym('width', 'int')
    red = Reduce({ln(d.symarr): L}, W)
    f = Facts().add_le(-x).add_le(-i).add_le(i - L).add_le(-y).add_le(y - W + 1)
    has = f.add_le(x - L)
    at = lambda a, q: red(core.as_num(arr_at(a, q)))
    new = eq(i, L)
    ctx.eq(fname + ': a line number met for the first time is added to the sums', red(ln(d.next)), L + ite(new, ONE, ZERO), f, w)
    ctx.eq(fname + ': a line number met for the first time is added to the counts', red(ln(n.next)), L + ite(new, ONE, ZERO), f, w)
    fnew = f.add_le(i - L).add_le(L - i).add_le(x - L).add_le(L - x)
    fold = f.add_le(i - L + 1).add_le(x - L + 1)
    nx = at(n.next, x)
    ctx.eq(fname + ': files counted, first file', nx, ONE, fnew, w)
    ctx.eq(fname + ': files counted', nx, at(n.symarr, x) + ite(eq(x, i), ONE, ZERO), fold, w)
    wl, wr = sym('numbers_in_the_line', 'int'), sym('numbers_in_the_sum', 'int')
    red2 = Reduce({ln(d.symarr): L}, wl, row=wr)
    raw = core.as_num(arr_at(n.next, x))
    if raw is not None:
        ctx.eq(fname + ': files counted, however long the line', red2(raw), red2(core.as_num(arr_at(n.symarr, x))) + ite(eq(x, i), ONE, ZERO),
               fold.add_le(1 - wl).add_le(1 - wr), w)
    ctx.eq(fname + ': counts so far are kept', nx, at(n.symarr, x), f.add_le(i - L).add_le(L - i).add_le(x - L + 1), w)
    try:
        v = core.as_num(arr_at(arr_at(d.next, x), y))
        s0 = core.as_num(arr_at(arr_at(d.symarr, x), y))
        wid = core.as_num(ln(arr_at(d.next, x)))
    except Exception:
        v = None
    if v is None:
        ctx.undecided(fname + ': sums', 'a row is not resolved', w)
        return
    v, s0 = red(v), red(s0)
    ctx.eq(fname + ': sums so far are kept', v, s0, f.add_le(i - L).add_le(L - i).add_le(x - L + 1), w)
    # the summand: what the first file puts there
    if two:
        # the row at t = 0
        z = z0 = zero_row(ctx, fname, inner, outer, l, file, cond, y, w)
        rows = [(' of the time', f.add_le(y), None), ('', f.add_le(1 - y), z)]
    else:
        rows = [('', f, None)]
    for lab, ff, z in rows:
        fz = ff.add_le(i - L).add_le(L - i).add_le(x - L).add_le(L - x)
        s = alg.Simp(fz).p(v)
        if two and z is None and lab == '':
            continue
        ws = [A(alg._atom[a]) for a in s.atoms() if alg._atom[a][:2] == ('opq', 'parsed')]
        rs = [word(q, file, cond, i, y) for q in ws]
        r = None
        if True in rs:
            r = True
            if two and z is None and z0 is not None and neval.family(atom1(z0) or ()) in {neval.family(alg._atom[a]) for a in s.atoms()}:
                ctx.violated(fname + ': summand' + lab, 'the time is multiplied too', w)
                continue
            want = ws[rs.index(True)] * (red(z) if z is not None else ONE)
            ctx.eq(fname + ': summand' + lab, s, want, fz, w)
        elif any(rs):
            r = [q for q in rs if q][0]
        if r is True:
            ctx.eq(fname + ': sum' + lab, v, s0 + ite(eq(x, i), s, ZERO), ff.add_le(i - L + 1).add_le(x - L + 1), w)
            continue
        require(ctx, fname + ': summand' + lab, r, w, 'the number in this column of this line')
    # widths: no column is lost
    if wid is not None:
        ctx.eq(fname + ': no column is lost', Reduce({ln(d.symarr): L}, W, full=True)(wid), W, f.add_le(x - L + ite(new, ZERO, ONE)), w)
    # from file to file
    for nm, a, b in (('sums', D, d), ('counts', N, n)):
        ctx.eq('%s: %s of the files before' % (fname, nm), ln(b.init), ln(a.symarr), None, w)
        fin = Subst({single(i): l.e.info['trip']}).p
        g = okay(core.as_num(ln(a.next)))
        ctx.eq('%s: %s after a file' % (fname, nm), g, fin(ln(b.symarr)), None, w)
        el = lambda arr: arr_at(arr_at(arr, x), y) if a is D else arr_at(arr, x)
        ctx.eq('%s: values of the %s of the files before' % (fname, nm), core.as_num(el(b.init)), core.as_num(el(a.symarr)), None, w)
        g = core.as_num(el(a.next))
        ctx.eq('%s: values of the %s after a file' % (fname, nm), g if g is None else okay(g), fin(core.as_num(el(b.symarr))), None, w)
    output(ctx, fname, I, out, outer, D, N, two, x, y, w)


def okay(p):
    """the value when the file could be listed"""
    if p is None:
        return None
    sub = {}
    for a in deep_atoms(p):
        t = alg._atom[a]
        if t[:2] == ('opq', 'discr') and t[2][:1] == ('discr',) and isinstance(t[2][1], tuple) and t[2][1][:1] == ('entry',):
            sub[a] = ZERO
    return Subst(sub).p(p) if sub else p


class Reduce:
    """uses what is so by construction: as many sums as counts, all rows of the width of the lines"""

    def __init__(self, m, W, full=False, row=None):
        self.m, self.W, self.full, self.row = m, W, full, W if row is None else row

    def __call__(self, p):
        if p is None:
            return None
        sub = {single(a): b for a, b in self.m.items() if single(a) is not None}
        for a in deep_atoms(p):
            t = alg._atom[a]
            if t[0] != 'opq':
                continue
            if t[1] == 'nfilt' and find(t[2][1], 'n:token') or t[1] == 'nfilt' and find(t[2][1], 'n:wtoken') or t[1] in ('n:token', 'n:wtoken'):
                sub[a] = self.W
            elif str(t[1]).startswith('phi:') and str(t[1]).endswith(':len') and a not in sub and len(t[2]) > self.arity(t):
                sub[a] = self.row
        return Subst(sub).p(p)

    def arity(self, t):
        for a in self.m:
            u = atom1(a)
            if u is not None and u[1] == t[1]:
                return len(u[2])
        return 99


def zero_row(ctx, fname, inner, outer, l, file, cond, y, w):
    """the row of the same log at t = 0: its value in column y"""
    ls = [q for q in inner if q is not l and q.seq_before(l)] if hasattr(l, 'seq_before') else [q for q in inner if q is not l]
    if len(ls) > 1:
        # loops that only put lines together carry no row
        ls = [q for q in ls if any(z.kind != 'num' and z.symarr is not None for z in q.e.info['phis'])]
    if len(ls) != 1:
        ctx.undecided(fname + ': row at t=0', '%d loops look for it' % len(ls), w)
        return None
    q = ls[0]
    li = lines_of(q)
    if not isinstance(li, tuple):
        (ctx.violated if li else ctx.undecided)(fname + ': row at t=0', li or 'lines not resolved', w)
        return None
    if li[0] != file:
        ctx.violated(fname + ': row at t=0', 'is looked for in another file', w)
        return None
    if cond is not None and (li[1] is None or header_test(li[1], file) is not True):
        require(ctx, fname + ': row at t=0: data lines', 'header lines are looked at too' if li[1] is None else header_test(li[1], file), w)
    ph = [z for z in q.e.info['phis'] if z.kind != 'num' and z.symarr is not None]
    if len(ph) != 1:
        ctx.undecided(fname + ': row at t=0', 'not resolved', w)
        return None
    ph = ph[0]
    j = q.e.info['k']
    nx = core.as_num(arr_at(ph.next, y))
    if nx is None:
        ctx.undecided(fname + ': row at t=0', 'not resolved', w)
        return None
    old = core.as_num(arr_at(ph.symarr, y))
    # the value taken when the line is the one at t=0, and the test
    f = Facts().add_le(-y)
    cs = [t for a in nx.atoms() for t in [alg._atom[a]] if t[0] == 'ite']
    t0 = None
    for t in cs:
        for side in (t[2], t[3]):
            a = atom1(side)
            if a is not None and a[:2] == ('opq', 'parsed'):
                t0 = side
    if t0 is None:
        ctx.undecided(fname + ': row at t=0', 'not resolved', w)
        return None
    if not require(ctx, fname + ': row at t=0: its values', word(t0, file, li[1], j, y), w, 'the numbers on that line'):
        return None
    first = Subst({single(y): ZERO}).p(t0)
    at0 = lt(fn('abs', first), num(1) / 100000)
    ln = gsa.arr_len(ph.symarr)
    init = gsa.arr_len(ph.init)
    if ln is not None and single(ln) is not None and init is not None and init.is_const() and single(ln) in alg.any_deep(nx):
        # whether a row has been taken already matters: none yet (its initial value), or one (at least as long as the columns used)
        of = lambda v: Subst({single(ln): v}).p
        have = sym('rowlen', 'int') + y + 1
        ctx.eq(fname + ': row at t=0: which line, when none was found yet', of(init)(nx), of(init)(ite(at0, t0, old)), f, w)
        ctx.eq(fname + ': row at t=0: which line, when one was found', of(have)(nx), of(have)(ite(at0, of(have)(nx), old)), f.add_le(-sym('rowlen', 'int')), w)
    else:
        ctx.eq(fname + ': row at t=0: which line', nx, ite(at0, t0, old), f, w)
    return Subst({single(j): q.e.info['trip']}).p(old)


def output(ctx, fname, I, out, outer, D, N, two, x, y, w):
    occ = [o for o in walk(I.events) if o.callee == 'std::io::Write::write_fmt']
    fs = [o for o in occ if path_in(o.args[0]) is not None]
    if not fs:
        ctx.undecided(fname + ': output', 'not found', w)
        return
    for o in fs:
        p = path_in(o.args[0])
        require(ctx, fname + ': output file', True if p.parts == (out,) else show_str(p), o.at())
    n = outer.e.info['trip']
    fin = lambda v: Subst({single(outer.e.info['k']): n}).p(v)
    rows = fin(gsa.arr_len(D.symarr))
    val = lambda a, b: fin(core.as_num(arr_at(arr_at(D.symarr, a), b))) * inv(fin(core.as_num(arr_at(N.symarr, a))))
    wid = lambda a: fin(core.as_num(gsa.arr_len(arr_at(D.symarr, a))))
    lab = fname + ': output'
    # either a line is put together first and then written, or every number on its own
    ls = {id(o.loops[0]): o.loops[0] for o in fs if o.loops}
    if len(ls) != 1 or any(not o.loops for o in fs):
        ctx.undecided(lab, 'is not written in one loop over the lines', w)
        return
    rl = list(ls.values())[0]
    same_n = {single(fin(gsa.arr_len(N.symarr))): rows}
    red = lambda p: p if p is None or None in same_n else Subst(same_n).p(p)
    if isinstance(rl.info.get('trip'), P):
        ctx.eq(lab + ': every line', red(rl.info['trip']), rows, None, w)
    else:
        ctx.undecided(lab + ': every line', 'loop not resolved', w)
    r = rl.info['k']
    # as many counts as sums (established above)
    f = Facts().add_le(-r).add_le(r - rows + 1)
    nums, ends = [], []
    for o in fs:
        s = text_of(o)
        if not isinstance(s, Str):
            ctx.undecided(lab, 'text not resolved', o.at())
            return
        for q in s.parts:
            if isinstance(q, str):
                if '\n' in q:
                    ends.append((o, q))
            else:
                nums.append((o, q))
    if len(nums) != 1:
        ctx.undecided(lab, '%d values in a line' % len(nums), w)
        return
    o, q = nums[0]
    if isinstance(q, gsa.Opq) and q.tag == 'rep':
        rep(ctx, lab, q, val, wid, r, f, o)
    elif isinstance(q, P):
        if len(o.loops) != 2:
            ctx.violated(lab + ': every column', 'not written for every column', o.at())
            return
        trip(ctx, lab + ': every column', o.loops[1], wid(r), w)
        c = o.loops[1].info['k']
        fc = f.add_le(-c).add_le(c - wid(r) + 1)
        ctx.eq(lab + ': value', q, val(r, c), fc, o.at())
        ctx.eq(lab + ': one value per column', red(count([o], o.loops[1])), ONE, fc, o.at())
    else:
        ctx.undecided(lab, 'value not resolved: %s' % repr(q)[:100], o.at())
        return
    if len(ends) != 1 or ends[0][1].count('\n') != 1:
        ctx.violated(lab + ': one line per line', '%d line breaks' % sum(e[1].count('\n') for e in ends), w)
    else:
        eo = ends[0][0]
        if len(eo.loops) != 1:
            ctx.violated(lab + ': one line per line', 'the line break is not once per line', eo.at())
        else:
            ctx.eq(lab + ': one line per line', red(count([eo], rl)), ONE, f, eo.at())


def rep(ctx, lab, q, val, wid, r, f, o):
    d, n, body = q.deps
    c = sym('rep#%d' % int(d.const()), 'int')
    ctx.eq(lab + ': every column', n, wid(r), f, o.at())
    ps = [p for p in body.parts if not isinstance(p, str)]
    if len(ps) != 1 or not isinstance(ps[0], P):
        ctx.undecided(lab + ': value', 'not resolved', o.at())
        return
    if any('\n' in p for p in body.parts if isinstance(p, str)):
        ctx.violated(lab + ': one line per line', 'a line break after every value', o.at())
    if not any(p.strip(' ') != p or not p for p in body.parts if isinstance(p, str)):
        ctx.violated(lab + ': columns are separated', 'no space between values', o.at())
    ctx.eq(lab + ': value', ps[0], val(r, c), f.add_le(-c).add_le(c - wid(r) + 1), o.at())


PROPS = {'P28': P28, 'P29': P29}
