"""Background writers (P26), profiles (P27), shares of threads (P33), no logs (P36), periods (P37), starting points (P40)."""
import alg
import neval
from .flow import *
from . import chains, runs, records
from .runs import obs, inloop, fld
from .records import columns, text_of, path_in, after, spin_at, check_record, Rec, prints
from alg import mk_sum, Subst, single

BGMODES = [('gen_hist_dynamics', ('conf', 'samples')), ('run_tau', ('taus', 'steps', 'conf')), ('run_mc', ('conf',)),
           ('run_mc_magnus', ('conf',)), ('run_mc_profile', ('conf',)), ('run_dyn_profile', ('conf',))]


def leaves(v, c=TRUE):
    """(condition, value) of a conditional value"""
    if isinstance(v, gsa.Gate):
        yield from leaves(v.a, band(c, v.c))
        yield from leaves(v.b, band(c, bnot(v.c)))
    else:
        yield c, v


def chan_of(v):
    if isinstance(v, gsa.Opq) and v.tag == 'sender':
        return v.deps[0]
    return None


def mentions(v, cid):
    return "('recv', %r" % (cid,) in deep_txt(v) or "'n:recv', (%r" % (cid,) in deep_txt(v)


def deep_txt(v):
    if isinstance(v, Str):
        return ' '.join(deep_txt(p) for p in v.parts)
    if isinstance(v, P):
        return ' '.join(repr(alg._atom[a]) for a in alg.any_deep(v) if alg._atom[a][0] == 'opq')
    if isinstance(v, str):
        return ''
    return repr(gsa.canon_p(v))


def sends(occ):
    """(channel, condition, occurrence)"""
    out = []
    for o in named(occ, 'Sender::send'):
        for c, v in leaves(o.args[0]):
            out.append((chan_of(v), c, o))
    return out


def drained(occ, cid):
    """writes, in threads of their own, of what comes out of the channel"""
    return [o for o in occ if o.callee in ('std::io::Write::write_fmt', 'std::io::Write::write_all') and o.spawns
            and any(mentions(a, cid) for a in o.args)]


def early(ctx, nm, I, cid):
    """a thread which leaves the loop over the channel when no record is there yet"""
    for l in loops_of(I.events):
        for x in [l.e.info.get('trip')] + [e[1] for e in l.e.info['exits']]:
            vs = alg.bsupport(x) if not isinstance(x, (P, type(None))) else ()
            ps = [x] if isinstance(x, P) else [alg.batom_of(v)[1] for v in vs if alg.batom_of(v)[0] in ('lt0', 'le0', 'eq0')]
            for p in ps:
                for a in alg.any_deep(p):
                    t = alg._atom[a]
                    if t[0] == 'opq' and t[1] in ('late', 'n:late') and repr(gsa.canon_p(cid)) in repr(t[2]):
                        ctx.violated(nm + ': drained until the channel is closed', 'the writer stops as soon as no record is waiting for it',
                                     '%s:%s' % tuple(l.e.sp[:2]))
                        return True
    return False


def nrecv(cid):
    return A(('opq', 'n:recv', (gsa.canon_p(cid),), 'int'))


def P26(ctx):
    ctx.rule('a background writer drains its channel until it is closed; the program closes the channel and then waits for the writer, after the jobs were handed out')
    for fname, names in BGMODES:
        I = run_bin(ctx, obs(fname), names=names)
        if I is None:
            continue
        w = ctx.where(obs(fname))
        occ = list(walk(I.events))
        pos = {id(o.e): i for i, o in enumerate(occ)}
        ss = sends(occ)
        if not ss:
            ctx.undecided(fname + ': background writer', 'no records are sent', w)
            continue
        cids = []
        for cid, c, o in ss:
            if cid is None:
                ctx.undecided(fname + ': channel', 'not resolved: %s' % repr(o.args[0])[:100], o.at())
            elif cid not in cids:
                cids.append(cid)
        for n, cid in enumerate(cids):
            nm = fname + (': channel %d' % (n + 1) if len(cids) > 1 else '')
            wr = drained(occ, cid)
            if early(ctx, nm, I, cid):
                continue
            if not wr:
                hidden = [o for o in occ if o.spawns and any(repr(('receiver', cid)) in deep_txt(a) or mentions(a, cid) for a in o.args)]
                (ctx.undecided if hidden else ctx.violated)(nm + ': is written', 'nothing that comes out of the channel is written', w)
                continue
            if len({id(o.spawns[-1]) for o in wr}) != 1 or len(wr[0].spawns) != 1:
                ctx.undecided(nm + ': is written', 'by several threads', w)
                continue
            sp = wr[0].spawns[-1]
            # every record received is written or taken account of
            ls = [l for l in loops_of(I.events) if any(x is sp for x in l.path) and l.e.info.get('trip') is not None
                  and alg.equal(l.e.info['trip'], nrecv(cid), Facts()).ok]
            if not ls:
                other = [l for l in loops_of(I.events) if any(x is sp for x in l.path)]
                ends = '; '.join('%s:%s' % tuple(l.e.sp[:2]) for l in other)
                (ctx.violated if other and all(drain_known(l.e, cid) for l in other) else ctx.undecided)(
                    nm + ': drained until the channel is closed', 'no loop of the writer (%s) ends exactly when the channel is closed' % ends, w)
            else:
                ctx.proved(nm + ': drained until the channel is closed', 'loop at %s:%s' % tuple(ls[0].e.sp[:2]), w)
                if ls[0].pc() is not TRUE or sp.pc is not TRUE:
                    ctx.undecided(nm + ': drained until the channel is closed', 'under the condition %r' % (ls[0].pc(),), w)
            # closing and waiting
            h = sp.info.get('ret')
            joins = [o for o in named(occ, 'JoinHandle::join') if repr(gsa.canon_p(o.args[0])) == repr(gsa.canon_p(h))]
            if not joins:
                ctx.violated(nm + ': the program waits for the writer', 'the writer is never joined: records still in the channel are lost at exit', w)
                continue
            j = joins[0]
            if j.path or j.pc() is not TRUE:
                ctx.undecided(nm + ': the program waits for the writer', 'under the condition %r' % (j.pc(),), j.at())
                continue
            at = pos[id(j.e)]
            late = [o for c, x, o in ss if c == cid and pos[id(o.e)] > at]
            if late:
                ctx.violated(nm + ': the program waits for the writer', 'before records are sent (%s)' % late[0].at(), j.at())
                continue
            ctx.proved(nm + ': the program waits for the writer', 'after all jobs', j.at())
            drops = [o for o in occ if o.e.kind == 'drop' and not o.spawns and any(chan_of(v) == cid for a in o.args for c, v in leaves(a))]
            top = [o for o in drops if not o.path]
            bad = [o for o in top if pos[id(o.e)] > at]
            if bad:
                ctx.violated(nm + ': closed before waiting', 'this thread still holds a sender while it waits: the writer never ends', j.at())
            elif top and any(o.pc() is TRUE for o in top):
                ctx.proved(nm + ': closed before waiting', 'the last sender of this thread is dropped at %s' % top[-1].at(), top[-1].at())
            else:
                ctx.undecided(nm + ': closed before waiting', 'no drop of the sender found', j.at())
            # a plain writer copies the records
            if not any(isinstance(p, P) for p in (text_of(wr[0]).parts if isinstance(text_of(wr[0]), Str) else ())):
                copied(ctx, nm, wr, cid, sp, ls, [o for c, x, o in ss if c == cid], occ)


def drain_known(l, cid):
    """the loop is understood: its number of iterations is known, or it has a way out which is"""
    t = l.info.get('trip')
    return t is not None or any(mentions_b(c, cid) for b, c, m in l.info.get('exits', []))


def mentions_b(c, cid):
    t = repr([alg._atom[a] for a in alg.any_deep(c)])
    return "n:recv" in t and "'phi:" not in t


def repeats(c, cid):
    """c fails when the record is the same as one received before"""
    for v in neval.has_opqb(c):
        t = alg.batom_of(v)
        if t[0] != 'opqb' or t[1] != 'Eq' or len(t) != 4:
            continue
        a, b = repr(t[2]), repr(t[3])
        r = "('recv', %r" % (cid,)
        if (a.startswith(r) and "('phi:" in b or b.startswith(r) and "('phi:" in a) and alg.bcof(c, v, 1) is alg.FALSE:
            return 'it is compared with what the loop kept'
    return None


def shortonly(c, cid):
    """the condition fails for records longer than some length"""
    r = "('recv', %r" % (gsa.canon_p(cid),)
    for v in alg.bsupport(c):
        t = alg.batom_of(v)
        if t[0] not in ('lt0', 'le0'):
            continue
        for m, k in t[1].d.items():
            a = alg._atom[m[0][0]] if len(m) == 1 and m[0][1] == 1 else None
            if a is not None and a[0] == 'opq' and 'len' in str(a[1]) and r in repr(a[2]):
                if alg.bcof(c, v, 1 if k < 0 else 0) is alg.FALSE:
                    return True
    return False


def batched(c):
    """the condition waits for a number of records, or of bytes"""
    for v in alg.bsupport(c):
        t = alg.batom_of(v)
        if t[0] in ('lt0', 'le0', 'eq0') and ("'phi:" in repr([alg._atom[a] for a in alg.any_deep(t[1])]) or "::len'" in repr([alg._atom[a] for a in alg.any_deep(t[1])])):
            if abs(t[1].d.get((), 0)) >= 2 or any(alg._atom[a][:2] in (('fn', 'imod'), ('fn', 'itrem')) for a in alg.any_deep(t[1])):
                return True
    return False


def copied(ctx, nm, wr, cid, sp, ls, mine, occ):
    if len(wr) != 1 or not ls:
        ctx.undecided(nm + ': every record is written once', '%d places' % len(wr), wr[0].at())
        return
    o, l = wr[0], ls[0].e
    if not o.inside(l) or o.loops[-1] is not l:
        ctx.undecided(nm + ': every record is written once', 'not in the loop which drains the channel', o.at())
        return
    k = l.info['k']
    rep = repeats(o.pc(l), cid)
    if rep:
        ctx.violated(nm + ': every record is written once', 'a record which repeats an earlier one is left out (%s)' % rep, o.at())
        return
    if shortonly(o.pc(l), cid):
        ctx.violated(nm + ': every record is written once', 'a long record is left out, and numbers close to zero are written with all their digits', o.at())
        return
    if batched(o.pc(l)) and "'phi:" in deep_txt(text_of(o)) and not any(
            x.spawns and x.spawns[-1] is sp and not x.inside(l) and x.seq > o.seq and
            (x.callee.startswith('std::io::Write::') or x.callee in ('std::fs::write',)) for x in occ):
        ctx.violated(nm + ': every record is written once', 'records are put aside to be written together, and those left when the channel is closed never are', o.at())
        return
    ctx.eq(nm + ': every record is written once', count([o], l), ONE, Facts().add_le(-k).add_le(k - nrecv(cid) + 1), o.at())
    s = text_of(o)
    if not isinstance(s, Str):
        ctx.undecided(nm + ': a record is written as it is', repr(s)[:100], o.at())
        return
    want = Str([gsa.Opq('recv', (cid, k)), '\n'])
    if gsa.same(s, want):
        ctx.proved(nm + ': a record is written as it is', 'one line each', o.at())
    elif gsa.same(s, Str(want.parts[:1])) and mine and all(records.broken(text_of(x)) for x in mine):
        ctx.proved(nm + ': a record is written as it is', 'each record breaks its line', o.at())
    elif all(isinstance(p, str) or isinstance(p, gsa.Opq) and p.tag == 'recv' for p in s.parts):
        ctx.violated(nm + ': a record is written as it is', show_str(s), o.at())
    else:
        ctx.undecided(nm + ': a record is written as it is', show_str(s)[:120], o.at())


# ------------------------------------------------------------------ profiles
def P27(ctx):
    ctx.rule('a profile has one record per site and sample with half the energy of its two bonds and its spin, taken from the state sampled; the file lists for every site the means over the records of that site')
    H = conf('hsize', 'int')
    for fname in ('run_mc_profile', 'run_dyn_profile'):
        I = run_bin(ctx, obs(fname), names=('conf',))
        if I is None:
            continue
        w = ctx.where(obs(fname))
        occ = list(walk(I.events))
        ss = sends(occ)
        so = []
        for c, x, o in ss:
            if o not in so:
                so.append(o)
        if len(so) != 1:
            (ctx.undecided if so else ctx.violated)(fname + ': records', '%d places send records' % len(so), w)
            continue
        o = so[0]
        files = means(ctx, fname, occ, ss, w)
        # one record per site
        if not o.loops:
            ctx.violated(fname + ': a record for every site', 'not sent for every site', o.at())
            continue
        l = o.loops[-1]
        k = l.info['k']
        runs.trip(ctx, fname + ': a record for every site', l, H, w)
        step = 'metropolis_update' if fname == 'run_mc_profile' else 'update'
        steps = [x for x in named(occ, *(chains.STEPS + chains.SAMPLERS)) if all(x.inside(q) for q in o.spawns)]
        last = [x for x in steps if x.seq < o.seq]
        if not last:
            ctx.violated(fname + ': state of a record', 'no move or step precedes the record', o.at())
            continue
        x = max(last, key=lambda q: q.seq)
        if x.callee != step:
            ctx.violated(fname + ': state of a record', '%s instead of %s' % (x.callee, step), x.at())
            continue
        af = after(x, o, conf('dt'))
        if af is None:
            ctx.undecided(fname + ': state of a record', 'not resolved', o.at())
            continue
        v, t, f = af
        f = f.add_le(-k).add_le(k - H + 1).add_le(num(2) - H)
        ch = x.args[0]
        sp = lambda i, c: spin_at(v, i, c)
        try:
            jc = gsa.rd(ch, (('f', 'j_couple'),))
            jj = lambda i, c: core.as_num(gsa.arr_at(gsa.arr_at(jc, i), num(c)))
            le, ri = ite(eq(k, ZERO), H - 1, k - 1), ite(eq(k, H - 1), ZERO, k + 1)
            e = ZERO
            for c in range(3):
                e = e - sp(le, c) * jj(le, c) * sp(k, c) * half() - sp(k, c) * jj(k, c) * sp(ri, c) * half()
        except Exception as ex:
            ctx.undecided(fname + ': energy of a site', 'couplings not resolved: %s' % ex, o.at())
            continue
        if records.broken(text_of(o)):
            ctx.violated(fname + ': record', 'a line break at its end: the last number of the record cannot be read back', o.at())
        columns(ctx, fname + ': record', text_of(o), [k, e] + [sp(k, c) for c in range(3)], ['i', 'e', 'Sx', 'Sy', 'Sz'], f, o.at())
        if fname == 'run_mc_profile':
            n = records.per(x, o)
            if n is None:
                ctx.undecided(fname + ': moves before a profile', 'not resolved', x.at())
            else:
                ctx.eq(fname + ': moves before a profile', n, num(1000000), None, x.at())
            ctx.eq(fname + ': a record for every site, each time', count([o], l), ONE, f, o.at())
            if list(files.values()) and len(files) == 1:
                p = list(files.values())[0]
                require(ctx, fname + ': file', None if p is None else True if p.parts == ('mc_profile.dat',) else show_str(p), w)
        else:
            dyn(ctx, fname, I, occ, o, x, l, files, t, w)


def half():
    return num(1) / 2


def means(ctx, fname, occ, ss, w):
    """what the writers put into the files; channel -> path"""
    H = conf('hsize', 'int')
    files = {}
    cids = []
    for cid, c, o in ss:
        if cid is not None and cid not in cids:
            cids.append(cid)
    for n, cid in enumerate(cids):
        nm = fname + (': profile %d' % (n + 1) if len(cids) > 1 else ': profile')
        wr = drained(occ, cid)
        if len(wr) != 1 or not wr[0].loops:
            (ctx.undecided if wr else ctx.violated)(nm, '%d places write it' % len(wr), w)
            files[cid] = None
            continue
        o = wr[0]
        files[cid] = path_in(o.args[0])
        l = o.loops[-1]
        i = l.info['k']
        runs.trip(ctx, nm + ': a line for every site', l, H, w)
        f = Facts().add_le(-i).add_le(i - H + 1)
        ctx.eq(nm + ': one line for a site', count([o], l), ONE, f, o.at())
        j = sym('record', 'int')
        word = lambda c, ty, kind: A(('opq', 'parsed', (('token', ('recv', gsa.canon_p(cid), j), ('str', ' '), num(c)), ty), kind))
        mine = eq(word(0, 'usize', 'int'), i)
        N = nrecv(cid)
        cnt = mk_sum(ite(mine, ONE, ZERO), j, N)
        want = [i] + [mk_sum(ite(mine, word(c, 'f64', 'real'), ZERO), j, N) * inv(cnt) for c in range(1, 5)]
        columns(ctx, nm, text_of(o), want, ['i', 'mean e', 'mean Sx', 'mean Sy', 'mean Sz'], f, o.at())
        s = text_of(o)
        if isinstance(s, Str) and not (s.parts and isinstance(s.parts[-1], str) and s.parts[-1].endswith('\n')):
            ctx.violated(nm + ': ends the line', 'no line break', o.at())
    return files


def dyn(ctx, fname, I, occ, o, up, l, files, t, w):
    """profiles at 500, 1000, ... 4000 periods"""
    tau, dt = conf('tau'), conf('dt')
    ups = named(occ, 'update')
    if len(ups) != 1:
        ctx.undecided(fname + ': dynamics', '%d places' % len(ups), w)
        return
    tl = up.loops[-1]
    if not o.inside(tl):
        ctx.violated(fname + ': dynamics', 'profiles are not taken during the run', o.at())
        return
    k = tl.info['k']
    samp = named(occ, *chains.SAMPLERS)
    if not samp:
        ctx.violated(fname + ': thermalisation', 'no Monte-Carlo move is made', w)
    else:
        runs.thermal(ctx, fname, samp, w, ups, [o])
    t0 = -conf('trel') + dt * k
    cont = lt(t0, tau * 4000)
    ex = tl.info['exits']
    if len(ex) != 1 or tl.info.get('rets'):
        runs.not_early(ctx, fname + ': end of the run', tl, cont, w)
    else:
        ctx.beq(fname + ': runs for 4000 periods', bnot(ex[0][1]), cont, None, w)
    ctx.eq(fname + ': one step per iteration', count(ups, tl), ite(cont, ONE, ZERO), None, w)
    f = Facts().add_le(dt * 2 - tau * 500)
    near = lambda n: lt(fn('abs', t0 + dt - tau * (500 * n)), dt / 5)
    ik = l.info['k']
    H = conf('hsize', 'int')
    fi = f.add_le(-ik).add_le(ik - H + 1)
    seen = {}
    open_ = False
    for c, v in leaves(o.args[0]):
        cid = chan_of(v)
        p = files.get(cid) if cid is not None else None
        if cid is None:
            g = ite(band(o.pc(tl), c), ONE, ZERO)
            if g.is_zero():
                continue
            if isinstance(v, gsa.Opq) and v.tag in ('nopayload', 'badvariant'):
                continue
            ctx.undecided(fname + ': channel of a record', repr(v)[:100], o.at())
            open_ = True
            continue
        if p is None:
            ctx.undecided(fname + ': file of a profile', 'not resolved', o.at())
            open_ = True
            continue
        seen[p.parts] = seen.get(p.parts, ZERO) + ite(band(o.pc(tl), c), ONE, ZERO)
    for n in range(1, 9):
        name = ('dyn_profile-%d-tau.dat' % (500 * n),)
        c = band(cont, near(n))
        for m in range(1, n):
            c = band(c, bnot(near(m)))
        if name not in seen:
            (ctx.undecided if open_ else ctx.violated)('%s: profile at %d periods' % (fname, 500 * n), 'no record goes to %s' % name[0], w)
            continue
        if open_:
            ctx.undecided('%s: profile at %d periods' % (fname, 500 * n), 'some records are not traced to a file', o.at())
            seen.pop(name)
            continue
        ctx.eq('%s: profile at %d periods' % (fname, 500 * n), seen.pop(name), ite(c, ONE, ZERO), fi, o.at())
    for p in seen:
        ctx.violated(fname + ': file of a profile', 'unexpected file %s' % ''.join(map(str, p)), o.at())


# ------------------------------------------------------------------ shares of the threads
def cases(n, f, depth=0):
    """a number given by cases: (label, its value, facts of the case)"""
    for a in alg.deep_atoms(n):
        t = alg._atom[a]
        if t[0] != 'ite' or depth > 3 or not isinstance(t[1], int):
            continue
        yes, no = f.with_(t[1], True), f.with_(t[1], False)
        for lab, side, fc in ((' (1)', True, yes), (' (2)', False, no)):
            m = alg.Simp(fc).p(Subst({a: t[2] if side else t[3]}).p(n))
            m = Subst({}, {t[1]: TRUE if side else gsa.FALSE}).p(m)
            yield from ((lab + x, y, z) for x, y, z in cases(m, fc, depth + 1))
        return
    yield '', n, f


def P33(ctx):
    ctx.rule('the records of all threads of a Monte-Carlo mode add up to mc_points, for every number of threads')
    points, threads = conf('mc_points', 'int'), conf('threads', 'int')
    for fname in ('run_mc', 'run_mc_magnus', 'run_mc_profile'):
        I = run_bin(ctx, obs(fname), names=('conf',))
        if I is None:
            continue
        w = ctx.where(obs(fname))
        occ = list(walk(I.events))
        snd = named(occ, 'Sender::send')
        if len(snd) != 1 or len(snd[0].loops) < 2:
            (ctx.undecided if snd else ctx.violated)(fname + ': number of records', '%d places send records' % len(snd), w)
            continue
        o = snd[0]
        ls = o.loops[:2]
        if None in [l.info.get('trip') for l in ls]:
            ctx.undecided(fname + ': number of records', 'loops not resolved', w)
            continue
        k = ls[0].info['k']
        n = ls[0].info['trip']
        f = Facts().add_le(num(1) - points).add_le(num(1) - threads)
        new = named(occ, 'new')
        for lab, m, fc in cases(n, f):
            ctx.eq(fname + ': one chain per share' + lab, count(new, ls[0]), ONE, fc.add_le(-k).add_le(k - m + 1), w)
        j = sym('thread', 'int')
        share = Subst({single(k): j}).p(ls[1].info['trip'])
        for lab, m, fc in cases(n, f):
            sh = alg.Simp(fc.add_le(-j).add_le(j - m + 1)).p(share)
            ctx.eq(fname + ': shares add up to the number of points' + lab, mk_sum(sh, j, m), points, fc, w)
        k1 = ls[1].info['k']
        if len(o.loops) == 2:
            for lab, m, fc in cases(n, f):
                fc = fc.add_le(-k).add_le(k - m + 1)
                for lab2, m2, fd in cases(ls[1].info['trip'], fc):
                    ctx.eq(fname + ': a record for every point' + lab + lab2, count([o], ls[0]), ONE, fd.add_le(-k1).add_le(k1 - m2 + 1), o.at())


PROPS = {'P26': P26, 'P27': P27, 'P33': P33}
