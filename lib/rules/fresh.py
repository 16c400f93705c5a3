"""Random numbers are fresh in every run (P46): generators by type and origin, mutable globals, and what parallel jobs share.
A census over the types and calls of the type-checked MIR, with a backward slice of every seed through the call graph."""
import re
from .fallible import operands, callee, strip, Body

# generators seeded by the operating system, one per thread
GOOD = re.compile(r'(^|::)(ThreadRng|OsRng)$')
GEN = re.compile(r'\b((?:Std|Small|Thread|Os|Step|Mock|Jitter|Reseeding|BlockWrapper)?Rng|ChaCha\d*(?:Rng|Core)|Pcg\w*|Lcg\w*|Mcg\w*|XorShiftRng|Xoshiro\w+|Xoroshiro\w+|'
                 r'SplitMix64|Isaac\w*|Hc128\w*|ReseedingRng)\b')
SEEDED = re.compile(r'(seed_from_u64|from_seed|seed_from_u32)$|StepRng::new$|(Pcg|Lcg|Mcg)\w*::new$')
FRESH = re.compile(r'(from_entropy|from_os_rng|thread_rng|rand::rng|rand::random|getrandom|RandomState::new)$')
DRAW = re.compile(r'^rand(_core|_distr)?::')
OPEN = re.compile(r'(SystemTime|Instant)::now|process::id|thread::(current|Thread|ThreadId)|std::env|as_ptr|elapsed|duration_since')
SHARED = re.compile(r'\b(Mutex|RwLock|RefCell|Cell|UnsafeCell|OnceCell|OnceLock|LazyLock|LazyCell|Lazy|Atomic\w+|ReentrantMutex)\b')
STATE = re.compile(r'\b(SpinChain|SpinChainLangevin|Spin)\b')


def real_fns(prog):
    return [(p, f) for p, f in prog.fns.items() if '::tests::' not in p]


def gens(s):
    """generator types named in a type"""
    if re.match(r'^(for<|unsafe fn|fn)', s):
        return set()
    return {m.group(1) for m in GEN.finditer(s)} - {'Rng'}


def calls(fn):
    for b, blk in enumerate(fn.j['blocks']):
        if blk.get('cleanup'):
            continue
        t = blk['term']
        if t['t'] == 'call':
            c = callee(t)
            if c is not None:
                yield b, t, c


def at_(t, p):
    return '%s:%s (%s)' % (tuple(t.get('sp') or ['?', 0]) + (p,))


class Slice:
    """where a value comes from: subset of {'fresh', 'open', 'const', 'param', 'field'}"""

    def __init__(self, prog):
        self.prog = prog
        self.callers = None

    def sites(self, path):
        if self.callers is None:
            self.callers = {}
            for p, f in real_fns(self.prog):
                for b, t, c in calls(f):
                    for q in {c.get('res'), c['path']}:
                        if q:
                            self.callers.setdefault(q, []).append((f, p, t))
        return self.callers.get(path, [])

    def captured(self, path, depth, seen):
        """what a closure gets: captures where it is made, and the other arguments of the call it is handed to"""
        par = path[:path.rindex('::{closure')]
        f = self.prog.find(par)
        if f is None:
            return {'open'}
        out, mine = set(), set()
        for blk in f.j['blocks']:
            if blk.get('cleanup'):
                continue
            for s in blk['st']:
                if s['s'] == 'assign':
                    ty = f.T[f.j['locals'][s['p']['l']]]
                    if ty.get('k') == 'closure' and ty.get('path') == path:
                        mine.add(s['p']['l'])
                        for k, pl in operands(s['r']):
                            out |= self.local(f, par, pl['l'], depth + 1, seen)
        for b, t, c in calls(f):
            used = {pl['l'] for a in t['args'] for k, pl in operands(a)}
            tys = [f.T[f.j['locals'][x]] for x in used]
            if used & mine or any(y.get('k') == 'closure' and y.get('path') == path for y in tys) or any(
                    f.T[a].get('path') == path for a in c.get('args') or [] if isinstance(a, int)):
                for x in used - mine:
                    out |= self.local(f, par, x, depth + 1, seen)
        return out

    def of(self, fn, path, op, depth=0, seen=None):
        seen = set() if seen is None else seen
        out = set()
        for kind, pl in operands(op if isinstance(op, (dict, list)) else {}):
            out |= self.local(fn, path, pl['l'], depth, seen)
        if 'const' in (op or {}):
            out.add('const')
        return out

    def local(self, fn, path, l, depth, seen):
        key = (path, l)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        n = fn.j.get('args', fn.j.get('argc'))
        if isinstance(n, list):
            n = len(n)
        if n is not None and 1 <= l <= n:
            if depth >= 8:
                return {'open'}
            if '{closure' in path:
                return self.captured(path, depth, seen)
            ss = self.sites(path)
            if not ss:
                out.add('param')
            for f2, p2, t in ss:
                if l - 1 < len(t['args']):
                    out |= self.of(f2, p2, t['args'][l - 1], depth + 1, seen)
            return out
        for blk in fn.j['blocks']:
            if blk.get('cleanup'):
                continue
            for s in blk['st']:
                if s['s'] == 'assign' and s['p']['l'] == l:
                    r = s['r']
                    if isinstance(r.get('p'), dict):
                        out |= self.local(fn, path, r['p']['l'], depth, seen)
                    got = False
                    for k, pl in operands(r):
                        got = True
                        out |= self.local(fn, path, pl['l'], depth, seen)
                    if not got and not isinstance(r.get('p'), dict):
                        out.add('const')
            t = blk['term']
            if t['t'] == 'call' and t['dest']['l'] == l:
                c = callee(t)
                name = (c or {}).get('path', '?')
                tys = [fn.T[a]['s'] for a in (c or {}).get('args', []) if isinstance(a, int)]
                if FRESH.search(name) or DRAW.match(name) and any(GOOD.search(x) for x in tys):
                    out.add('fresh')
                elif OPEN.search(name):
                    out.add('open')
                else:
                    for a in t['args']:
                        out |= self.of(fn, path, a, depth, seen)
                    if not t['args']:
                        out.add('const')
                    callee_ = self.prog.find((c or {}).get('res') or name) if c else None
                    if callee_ is not None and re.match(r'^(u|i)(8|16|32|64|128|size)$|^f64$|^\[u', fn.T[fn.j['locals'][l]]['s']) and depth < 8:
                        out |= self.local(callee_, c.get('res') or name, 0, depth + 1, seen)
            elif t['t'] == 'call':
                # a value filled in through a reference, as fill_bytes does
                c = callee(t)
                name = (c or {}).get('path', '?')
                if DRAW.match(name) and re.search(r'fill', name.split('::')[-1]) and any(refers(fn, pl['l'], l) for a in t['args'] for k, pl in operands(a)):
                    out.add('fresh')
        return out


def refers(fn, a, l, depth=0):
    if a == l:
        return True
    if depth > 4:
        return False
    for blk in fn.j['blocks']:
        for s in blk['st']:
            if s['s'] == 'assign' and s['p']['l'] == a:
                r = s['r']
                ps = [r['p']['l']] if isinstance(r.get('p'), dict) else []
                ps += [pl['l'] for k, pl in operands(r)]
                if any(refers(fn, p, l, depth + 1) for p in ps):
                    return True
    return False


def P46(ctx):
    ctx.rule('every random draw uses the generator of its thread, seeded by the operating system')
    ctx.rule('no generator is made from a fixed or configured seed, or copied')
    ctx.rule('no mutable global, and no lock, cell or atomic shared between parallel jobs, holds a chain, spin or generator')
    prog = ctx.prog
    sl = Slice(prog)
    draws = 0
    other = {}
    for p, f in real_fns(prog):
        k = 0
        for b, t, c in calls(f):
            name = strip(c['path'])
            tys = [f.T[a]['s'] for a in (c.get('args') or []) if isinstance(a, int)]
            g = set().union(*[gens(x) for x in tys]) if tys else set()
            at = at_(t, p)
            if SEEDED.search(name) and (g or DRAW.match(name) or 'rand' in name or gens(f.T[f.j['locals'][t['dest']['l']]]['s'])):
                src = set()
                for a in t['args']:
                    src |= sl.of(f, p, a)
                k += 1
                nm = '%s: seed #%d' % (p, k)
                if 'fresh' in src:
                    ctx.proved(nm, 'seeded with a fresh random number', at)
                elif 'open' in src:
                    ctx.undecided(nm, 'the origin of the seed is not resolved', at)
                else:
                    ctx.violated(nm, 'a generator is made from a seed which is the same whenever the program runs (%s)' % ', '.join(sorted(src)), at)
                continue
            if not DRAW.match(c['path']):
                if g and name.endswith('Clone::clone') and not all(x in ('ThreadRng', 'OsRng') for x in g):
                    ctx.violated(p + ': copied generator', 'the state of a generator is copied, so two users draw the same numbers', at)
                continue
            if not g:
                continue
            draws += 1
            k += 1
            bad = {x for x in g if x not in ('ThreadRng', 'OsRng')}
            if not bad:
                ctx.proved('%s: draw #%d' % (p, k), ', '.join(sorted(g)), at)
            else:
                other.setdefault(tuple(sorted(bad)), []).append((p, at))
                made = [q for q, h in real_fns(prog) for _, t2, c2 in calls(h)
                        if (SEEDED.search(c2['path']) or FRESH.search(c2['path']) or re.search(r'from_rng$', c2['path']))]
                if 'StepRng' in bad or 'Mock' in ''.join(bad):
                    ctx.violated('%s: draw #%d' % (p, k), 'drawn from %s, which counts' % ', '.join(bad), at)
                elif made:
                    ctx.proved('%s: draw #%d' % (p, k), '%s, whose seeds are checked where it is made' % ', '.join(sorted(bad)), at)
                else:
                    ctx.undecided('%s: draw #%d' % (p, k), 'it is not resolved where %s is made' % ', '.join(sorted(bad)), at)
    if not draws:
        ctx.undecided('draws', 'no draw was found', '')
    ctx.fns.update(p for p, _ in real_fns(prog))
    globals_(ctx, prog)
    jobs(ctx, prog)


def consts(x):
    if isinstance(x, dict):
        c = x.get('const')
        if isinstance(c, dict):
            yield c
        for v in x.values():
            yield from consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from consts(v)


def globals_(ctx, prog):
    n = bad = 0
    for p, f in real_fns(prog):
        seen = set()
        for c in consts(f.j['blocks']):
            if c.get('c') == 'fn' or not isinstance(c.get('ty'), int):
                continue
            s = f.T[c['ty']]['s']
            n += 1
            if s in seen:
                continue
            mut = s.startswith('*mut ')
            if not mut and not (SHARED.search(s) or re.search(r'\bLocalKey\b', s)):
                continue
            if re.search(r'indicatif|clap|std::io', s):
                continue
            seen.add(s)
            bad += 1
            nm = '%s: global %s' % (p, s[:60])
            if mut and not re.match(r'\*mut (f64|\[|sc::|spin|std::vec|u|i|bool)', s):
                ctx.undecided(nm, 'mutable global', p)
            elif mut or STATE.search(s) or gens(s) or re.search(r'\bf64\b|LocalKey', s):
                ctx.violated(nm, 'a mutable global holds numbers which outlive a run and are seen by other runs', p)
            else:
                ctx.undecided(nm, 'mutable global', p)
    if not bad:
        ctx.proved('no mutable global', '%d constants examined' % n, '')


def upvars(fn, ty, depth=0):
    """types captured by a closure, through nested types"""
    u = ty.get('upvars')
    if isinstance(u, int):
        t = fn.T[u]
        return [t['s']]
    if isinstance(u, list):
        return [fn.T[x]['s'] for x in u]
    return []


def content(s, i):
    """the generic arguments which start at s[i]"""
    if s[i:i + 1] != '<':
        return ''
    d = 0
    for j in range(i, len(s)):
        if s[j] == '<':
            d += 1
        elif s[j] == '>' and s[j - 1] != '-':
            d -= 1
            if d == 0:
                return s[i:j + 1]
    return s[i:]


def jobs(ctx, prog):
    n = 0
    for p, f in real_fns(prog):
        k = 0
        for b, t, c in calls(f):
            if not re.search(r'ThreadPool::execute$|thread::spawn$|thread::Builder::spawn$|Scope.*::spawn$|rayon::(spawn|join|scope)', strip(c['path'])):
                continue
            for a in c.get('args') or []:
                ty = f.T[a] if isinstance(a, int) else {}
                if ty.get('k') != 'closure':
                    continue
                k += 1
                n += 1
                nm = '%s: job #%d' % (p, k)
                at = at_(t, p)
                for s in upvars(f, ty):
                    inner = [content(s, m.end()) for m in SHARED.finditer(s)] + [s[m.end():m.end() + 120] for m in re.finditer(r'\*mut ', s)]
                    if any(STATE.search(x) or gens(x) for x in inner):
                        if True:
                            ctx.violated(nm, 'shares mutable state with other jobs: %s' % s[:120], at)
                            break
                    bad = {x for x in gens(s) if x not in ('ThreadRng', 'OsRng')}
                    if bad:
                        ctx.undecided(nm, 'is given a generator: %s' % ', '.join(bad), at)
                        break
                else:
                    ctx.proved(nm, 'shares no chain or generator', at)


PROPS = {'P46': P46}
