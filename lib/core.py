"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import traceback

import alg
from alg import P, B, TRUE, FALSE, Facts, num, sym, equal, ite, ONE, ZERO, show, bshow, eq, subst
import gsa
from gsa import Interp, Program, Opq, Gate, Ref, Tup, Arr, St, arr_at, arr_len, rd
import models
import neval
import build

VERIF = build.VERIF


PROG = []


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.fns = set()
        self.blocks = 0
        self.counts = {}
        self.rules = []
        self.assume = []
        self._prog = None
        self.t0 = time.time()

    # --- program
    @property
    def prog(self):
        if self._prog is None:
            self._prog = Program(build.facts())
            PROG[:] = [self._prog]
        return self._prog

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def fn(self, path):
        f = self.prog.find(path)
        if f is not None:
            self.fns.add(path)
        return f

    def where(self, path):
        f = self.prog.find(path)
        if f is None:
            return path
        sp = f.j.get('sp') or ['?', 0]
        return '%s:%s (%s)' % (sp[0], sp[1], path)

    # --- verdicts
    def ob(self, name, status, detail='', where=''):
        self.obs.append((name, status, detail, where))

    def proved(self, name, detail='', where=''):
        self.ob(name, 'proved', detail, where)

    def violated(self, name, detail='', where=''):
        self.ob(name, 'violated', detail, where)

    def undecided(self, name, detail='', where=''):
        self.ob(name, 'undecided', detail, where)

    def anchor(self, path):
        """the entry point must exist: a rule that lost its subject must not pass"""
        if self.fn(path) is None:
            self.violated('anchor ' + path, 'the entry point %s the property is about no longer exists' % path, path)
            return False
        return True

    def run(self, path, args=None, ov=None, facts=None, mods=None, mem=None, stops=(), tol=True, names=(), checked=False):
        """value graph of a function; returns the Interp or None when the analysis gave up"""
        if not self.anchor(path):
            return None
        I = Interp(self.prog, overrides=ov or {}, facts=facts, models=mods or {}, stops=stops)
        I.checked = checked
        for k, v in (mem or {}).items():
            I.mem[k] = v
        try:
            with limit(100):
                I.run(path, args, names=names)
        except Timeout:
            if not tol:
                raise
            self.undecided('analyse ' + path, 'analysis budget exhausted', self.where(path))
            return None
        except Exception as e:      # an unsupported construct is not a violation
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            self.undecided('analyse ' + path, 'construct outside the analysed fragment: %s: %s' % (type(e).__name__, str(e)[:200]),
                           self.where(path))
            return None
        self.fns.update(I.analysed)
        return I

    def eq(self, name, got, want, facts=None, where='', rules=(), opq_ok=()):
        facts = facts or Facts()
        if not isinstance(got, P):
            got2 = as_num(got)
            if got2 is None:
                self.undecided(name, 'value not resolved: %s' % repr(got)[:120], where)
                return None
            got = got2
        got, want = remainders(got, want)
        try:
            with limit(60):
                v = equal(got, want, facts, rules)
        except Timeout:
            v = alg.Verdict(False, 'budget exhausted')
        except RecursionError:
            v = alg.Verdict(False, 'too deep')
        if v.ok:
            self.proved(name, '%d case(s)' % max(1, v.cases), where)
            return True
        more = neval.unresolved(got, want, facts)
        if more:
            try:
                with limit(10):
                    more = neval.unresolved(alg.Simp(facts).p(got), want, facts)
            except (Timeout, RecursionError):
                pass
        if more:
            self.undecided(name, 'depends on a value the analysis does not resolve (%s)' % ', '.join(
                (a.show() if isinstance(a, neval.Unknown) else alg.ashow(a))[:80] for a in list(more)[:2]), where)
            return None
        try:
            with limit(20):
                d = neval.differ(got, want, facts)
        except (Timeout, RecursionError):
            d = None
        if d is None:
            self.undecided(name, 'normal forms differ but no distinguishing valuation was found: %s' % v.why[:200], where)
            return None
        e, x, y = d
        self.violated(name, 'computes a different function: %s; e.g. with %s the code gives %.6g where the property requires %.6g'
                      % (v.why[:400], ints(e), x, y), where)
        return False

    def beq(self, name, got, want, facts=None, where=''):
        if got is None or not isinstance(got, B):
            self.undecided(name, 'condition not resolved', where)
            return None
        return self.eq(name, ite(got, ONE, ZERO), ite(want, ONE, ZERO), facts, where)

    def vec(self, name, got, want, facts=None, where=''):
        """component-wise comparison of a 3-vector"""
        r = []
        for c in range(len(want)):
            try:
                x = arr_at(got, num(c))
            except Exception as e:
                x = None
            r.append(self.eq('%s[%d]' % (name, c), x, want[c], facts, where))
        return r


def remainders(got, want):
    """a remainder next to the quotient of the same division: a mod b = a - b*(a div b)"""
    at = alg.deep_atoms(got) | alg.deep_atoms(want)
    div = {alg._atom[a][2] for a in at if alg._atom[a][:2] == ('fn', 'idiv')}
    sub = {}
    for a in at:
        t = alg._atom[a]
        if t[:2] == ('fn', 'imod') and t[2] in div:
            x, y = t[2]
            sub[a] = x - y * alg.fn('idiv', x, y)
    if not sub:
        return got, want
    s = alg.Subst(sub)
    return s.p(got), s.p(want)


def ints(e):
    return ', '.join('%s=%d' % kv for kv in sorted(e.ints.items())) or 'generic values'


def as_num(v):
    if isinstance(v, P):
        return v
    if isinstance(v, Gate):
        a, b = as_num(v.a), as_num(v.b)
        if a is None or b is None:
            return None
        return ite(v.c, a, b)
    if isinstance(v, int):
        return num(v)
    return None


class Timeout(BaseException):
    pass


class limit:
    """analysis budget (seconds); nests by restoring the outer timer"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        import signal
        self.old = signal.signal(signal.SIGALRM, self.h)
        self.left = signal.getitimer(signal.ITIMER_REAL)[0]
        self.t = time.time()
        signal.setitimer(signal.ITIMER_REAL, self.s if not self.left else min(self.s, self.left))

    def h(self, *a):
        raise Timeout()

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        if self.left:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, self.left - (time.time() - self.t)))
        return False


def known():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                kv = l[len('finding: '):].split(' ', 1)
                out.append((kv[0].split('=', 1)[1], kv[1].split(' | ')[0]))
    return out


def finish(ctx, level, assumptions, technique):
    viol = [o for o in ctx.obs if o[1] == 'violated']
    kn = {k for p, k in known() if p == ctx.prop}
    seen, new, old = set(), [], []
    for o in viol:
        (old if o[0] in kn else new).append(o)
    st = {s: sum(1 for o in ctx.obs if o[1] == s) for s in ('proved', 'violated', 'undecided')}
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {
        'explanation': 'Static analysis of the type-checked MIR of the current /repo tree: %d obligation(s), %d proved, %d violated, '
                       '%d undecided (reported, not alarmed), over %d function(s). Rules: %s' % (
                           len(ctx.obs), st['proved'], st['violated'], st['undecided'], len(ctx.fns), ' | '.join(ctx.rules)),
        'obligations': len(ctx.obs),
        'discharged': st['proved'],
        'undecided': [list(o) for o in ctx.obs if o[1] == 'undecided'][:80],
        'functions': sorted(ctx.fns),
        'counts': ctx.counts,
        'rules': ctx.rules,
        'obligation_list': [{'name': o[0], 'status': o[1], 'detail': o[2][:300], 'where': o[3]} for o in ctx.obs][:600],
        'violation_list': [{'name': o[0], 'detail': o[2], 'where': o[3], 'known': o[0] in kn} for o in viol],
        'checker_cmd': './check.py %s %s' % (ctx.prop, ctx.tier),
        'trusted_base': ['rustc MIR construction and type checking (nightly)', 'lib/alg.py normal forms', 'lib/gsa.py value graphs',
                         'lib/models.py library models', 'lib/rules'],
    }
    evd = {
        'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov,
        'wall_s': round(time.time() - ctx.t0, 3),
        'assumptions': assumptions + ctx.assume,
        'violations': len(viol),
    }
    path = os.path.join(ev, ctx.prop + '.json')
    with open(path, 'w') as f:
        json.dump(evd, f, indent=1)
    for o in old:
        if o[0] not in seen:
            seen.add(o[0])
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, o[0]))
    print('%s: %d obligations, %d proved, %d violated, %d undecided (%.1fs)' % (
        ctx.prop, len(ctx.obs), st['proved'], st['violated'], st['undecided'], time.time() - ctx.t0))
    for o in ctx.obs:
        if o[1] == 'undecided':
            print('  undecided %s: %s [%s]' % (o[0], o[2][:160], o[3]))
    if new:
        for o in new[:12]:
            print('  %s\n    at %s\n    %s' % (o[0], o[3], o[2][:700]))
        print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
        return 1
    return 0
