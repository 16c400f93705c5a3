"""Failures of output are never passed over (P44): a typestate analysis of every Result of an output operation, over the MIR."""
import re
from gsa import succs

OUT = [r'std::io::Write::(write_fmt|write_all|write|flush|write_vectored|write_all_vectored)$', r'std::fs::write$',
       r'std::fs::File::(create|create_new|set_len|sync_all|sync_data)$', r'std::fs::OpenOptions::open$',
       r'std::fs::(rename|copy|create_dir|create_dir_all|remove_file)$', r'std::sync::mpsc::(Sync)?Sender<?.*>?::send$',
       r'std::thread::JoinHandle<?.*>?::join$']
OUTRE = re.compile('|'.join(OUT))
NOTFILE = re.compile(r'std::io::(Stdout|Stderr|StdoutLock|StderrLock|Sink|Cursor)|Vec<u8>|std::string::String|indicatif|^&mut \[u8\]')
SAFE = {'unwrap', 'expect', 'unwrap_unchecked', 'branch', 'into_ok'}
SAME = {'map', 'map_err', 'and_then', 'inspect', 'inspect_err', 'and', 'as_ref', 'as_mut', 'context', 'into', 'from', 'clone'}
DROPS = {'ok', 'is_ok', 'is_err', 'unwrap_or', 'unwrap_or_default', 'err', 'iter', 'is_ok_and', 'is_err_and', 'map_or', 'or', 'or_else'}
PRINT = re.compile(r'std::io::(_e?print|stdio::_e?print)|std::fmt|core::fmt|Arguments|std::io::_eprint')


def strip(p):
    return re.sub(r'<[^<>]*>', '', re.sub(r'<[^<>]*>', '', p))


def callee(term):
    c = (term['f'] or {}).get('const') if isinstance(term['f'], dict) else None
    return c if c and c.get('c') == 'fn' else None


def operands(x):
    """all (kind, place) an rvalue or terminator reads"""
    if isinstance(x, dict):
        for k in ('move', 'copy'):
            if k in x and isinstance(x[k], dict) and 'l' in x[k]:
                yield k, x[k]
        for k, v in x.items():
            if k in ('move', 'copy'):
                continue
            yield from operands(v)
    elif isinstance(x, list):
        for v in x:
            yield from operands(v)


class Body:
    def __init__(self, prog, fn):
        self.prog, self.fn, self.j, self.T = prog, fn, fn.j, fn.T
        self.blocks = self.j['blocks']

    def ty(self, l):
        return self.T[self.j['locals'][l]]

    def uses(self, l):
        """(block, index or 'term', statement) where local l is read"""
        for b, blk in enumerate(self.blocks):
            if blk.get('cleanup'):
                continue
            for i, s in enumerate(blk['st']):
                if s['s'] == 'assign':
                    r = s['r']
                    if r.get('r') in ('ref', 'discr', 'addr', 'len', 'rawptr') and isinstance(r.get('p'), dict) and r['p']['l'] == l:
                        yield b, i, s
                    elif any(p['l'] == l for _, p in operands(r)):
                        yield b, i, s
            t = blk['term']
            if t['t'] == 'call':
                if any(p['l'] == l for a in t['args'] for _, p in operands(a)):
                    yield b, 'term', t
            elif t['t'] in ('switch', 'assert') and any(p['l'] == l for _, p in operands(t.get('o'))):
                yield b, 'term', t
            elif t['t'] == 'drop' and t.get('p', {}).get('l') == l:
                yield b, 'term', t

    def rejoins(self, start, stop=()):
        """does control from start get back to normal code; with the calls made until it leaves the blocks only the start reaches"""
        seen, todo, calls = set(), [start], []
        ret = False
        while todo:
            b = todo.pop()
            if b in seen or self.blocks[b].get('cleanup'):
                continue
            seen.add(b)
            t = self.blocks[b]['term']
            if t['t'] == 'call':
                calls.append(t)
            if t['t'] == 'return':
                ret = True
            todo += [x for x in succs(t) if x is not None]
        return ret, seen, calls


def closure_diverges(prog, ty):
    """a closure which never returns"""
    if ty.get('k') != 'closure':
        return None
    f = prog.find(ty['path'])
    if f is None:
        return None
    ret, _, _ = Body(prog, f).rejoins(0)
    return not ret


def result_fate(B, l, seen=None, depth=0):
    """('ok'|'lost'|'open', why, span) for each way the Result in local l is used"""
    seen = seen if seen is not None else set()
    if l in seen or depth > 12:
        return
    seen.add(l)
    if l == 0:
        yield 'ok', 'handed to the caller', None
        return
    used = False
    for b, i, s in B.uses(l):
        sp = s.get('sp')
        if i == 'term' and s['t'] == 'drop':
            continue
        used = True
        if i == 'term' and s['t'] == 'call':
            c = callee(s)
            name = strip((c or {}).get('path', '?')).split('::')[-1]
            if name in SAFE:
                if name == 'branch':
                    yield 'ok', '?', sp
                else:
                    yield 'ok', name, sp
            elif name == 'unwrap_or_else':
                tys = [B.ty(p['l']) for a in s['args'] for _, p in operands(a) if p['l'] != l]
                tys += [B.T[a['const']['ty']] for a in s['args'] if isinstance(a, dict) and 'const' in a and isinstance(a['const'].get('ty'), int)]
                d = [closure_diverges(B.prog, t) for t in tys]
                if any(d):
                    yield 'ok', 'unwrap_or_else', sp
                elif any(x is False for x in d) and not live(B, s['dest']):
                    yield 'lost', 'the failure is replaced by a value nobody uses', sp
                else:
                    yield 'open', 'unwrap_or_else', sp
            elif name in SAME or name in ('ok',):
                yield from result_fate(B, s['dest']['l'], seen, depth + 1)
            elif name in ('is_ok', 'is_err'):
                yield from flag_fate(B, s['dest']['l'], name == 'is_err', sp)
            elif name in DROPS:
                if live(B, s['dest']):
                    yield 'open', name, sp
                else:
                    yield 'lost', 'the failure is discarded by %s' % name, sp
            elif name in ('drop', 'forget'):
                yield 'lost', 'the result is dropped unread', sp
            else:
                yield 'open', 'handed to ' + name, sp
        elif i != 'term':
            r = s['r']
            if r.get('r') == 'discr':
                yield from flag_fate(B, s['p']['l'], None, sp)
            elif r.get('r') in ('use', 'ref') and not s['p']['p']:
                pl = r.get('p') or next((p for _, p in operands(r)), None)
                if pl is not None and pl['p'] and pl['p'] != [['deref']]:
                    used = used
                    continue        # a payload, after its variant was looked at
                yield from result_fate(B, s['p']['l'], seen, depth + 1)
            elif r.get('r') == 'cast' and not s['p']['p']:
                yield from result_fate(B, s['p']['l'], seen, depth + 1)
            else:
                yield 'open', 'stored', sp
        else:
            yield 'open', s['t'], sp
    if not used:
        yield 'lost', 'nobody looks at the result', None


def live(B, place):
    if place['p'] or place['l'] == 0:
        return True
    return any(not (i == 'term' and s['t'] == 'drop') for _, i, s in B.uses(place['l']))


def flag_fate(B, l, iserr, sp):
    """l is the discriminant of the Result (iserr None) or a flag made from it"""
    any_ = False
    for b, i, s in B.uses(l):
        if i == 'term' and s['t'] == 'switch':
            any_ = True
            dest = {v: t for v, t in s['vals']}
            if iserr is None:
                bad = dest.get(1, s['else'])
                good = dest.get(0, s['else'])
            else:
                bad = dest.get(1, s['else']) if iserr else dest.get(0, s['else'])
                good = dest.get(0, s['else']) if iserr else dest.get(1, s['else'])
            if bad == good:
                yield 'lost', 'success and failure go on alike', sp
                continue
            ret, seenb, _ = B.rejoins(bad)
            if not ret and not loops_back(B, bad, b):
                yield 'ok', 'a failure stops the thread', sp
                continue
            _, seeng, _ = B.rejoins(good)
            calls = [B.blocks[x]['term'] for x in seenb - seeng if B.blocks[x]['term']['t'] == 'call']
            act = [strip((callee(c) or {}).get('res') or (callee(c) or {}).get('path', '?')) for c in calls]
            ret0 = B.ty(0)
            if ret0.get('path') == 'std::result::Result':
                yield 'open', 'may be handed to the caller', sp
            elif all(PRINT.search(a) or a.split('::')[-1] in ('fmt', 'new_debug', 'new_display', 'new_const', 'new_v1', 'new', 'kind', 'into_inner') for a in act):
                yield 'lost', 'after a failure the run goes on%s' % (' with a message only' if act else ''), sp
            else:
                yield 'open', 'a failure is handled by %s' % ', '.join(sorted({a.split('::')[-1] for a in act}))[:80], sp
        elif i == 'term' and s['t'] == 'drop':
            continue
        elif i != 'term' and s['r'].get('r') == 'use' and not s['p']['p']:
            any_ = True
            yield from flag_fate(B, s['p']['l'], iserr, sp)
        elif i != 'term' and s['r'].get('r') == 'un' and not s['p']['p'] and iserr is not None:
            any_ = True
            yield from flag_fate(B, s['p']['l'], not iserr, sp)
        else:
            any_ = True
            yield 'open', 'flag', sp
    if not any_:
        if iserr is None:
            return
        yield 'lost', 'nobody looks at the flag', sp


def loops_back(B, start, to):
    _, seen, _ = B.rejoins(start)
    return to in seen


def P44(ctx):
    ctx.rule('the Result of every operation which opens, writes, sends or joins output is unwrapped, propagated, or its failure stops the thread')
    prog = ctx.prog
    carriers = set()
    n = 0
    for rnd in range(4):
        new = set()
        for path, fn in sorted(prog.fns.items()):
            if fn.j.get('derived') or '::tests::' in path:
                continue
            B = Body(prog, fn)
            rt = B.ty(0)
            if rt.get('path') == 'std::result::Result' and any(is_out(B, t) or local_of(t) in carriers for t in calls(B)):
                new.add(path)
        if new <= carriers:
            break
        carriers |= new
    for path, fn in sorted(prog.fns.items()):
        if fn.j.get('derived') or '::tests::' in path:
            continue
        B = Body(prog, fn)
        k = {}
        for t in calls(B):
            o = is_out(B, t)
            if not o and local_of(t) not in carriers:
                continue
            op = o or local_of(t).split('::')[-1]
            ctx.fns.add(path)
            n += 1
            k[op] = k.get(op, 0) + 1
            name = '%s: %s #%d' % (path.split('::', 1)[-1], op, k[op])
            at = '%s:%s (%s)' % (tuple(t.get('sp') or ['?', 0]) + (path,))
            if t['dest']['p']:
                ctx.undecided(name, 'stored in a structure', at)
                continue
            dty = B.ty(t['dest']['l'])
            if dty.get('path') != 'std::result::Result':
                ctx.undecided(name, 'not a Result', at)
                continue
            fates = list(result_fate(B, t['dest']['l']))
            lost = [f for f in fates if f[0] == 'lost']
            if op == 'write' and not lost:
                d = [u for u in B.uses(t['dest']['l']) if u[1] == 'term' and u[2]['t'] == 'call' and callee(u[2])]
                if d and all(not live(B, u[2]['dest']) for u in d if strip(callee(u[2])['path']).split('::')[-1] in ('unwrap', 'expect')) \
                        and all(strip(callee(u[2])['path']).split('::')[-1] in ('unwrap', 'expect') for u in d):
                    lost = [('lost', 'write may write only a part, and the number of bytes written is not looked at', t.get('sp'))]
            if any(f[0] == 'ok' for f in fates) and lost and not any(f[1].startswith('write may') for f in lost):
                # looked at in one place, then let go elsewhere: consumed by the first
                lost = [f for f in lost if f[1] != 'nobody looks at the result']
            if lost:
                ctx.violated(name, lost[0][1], at)
            elif any(f[0] == 'open' for f in fates) and not any(f[0] == 'ok' for f in fates):
                ctx.undecided(name, '; '.join(f[1] for f in fates if f[0] == 'open')[:160], at)
            else:
                ctx.proved(name, fates[0][1] if fates else '', at)
        for l, ti in enumerate(B.j['locals']):
            s = B.T[ti].get('s', '')
            if re.match(r'std::io::(BufWriter|LineWriter)<', s) and drops(B, l):
                fl = any(callee(t) and strip(callee(t)['path']).split('::')[-1] in ('flush', 'into_inner', 'into_parts') for t in calls(B))
                at = '%s:%s (%s)' % (tuple(B.j.get('sp') or ['?', 0]) + (path,))
                if fl:
                    ctx.undecided('%s: buffered output' % path, 'flushed on some path', at)
                else:
                    ctx.violated('%s: buffered output' % path, 'a buffered writer is dropped without a flush, so a failure to write its rest is lost', at)
    if n == 0:
        ctx.undecided('output operations', 'none found', '')


def drops(B, l):
    return any(b['term']['t'] == 'drop' and b['term']['p']['l'] == l and not b['term']['p']['p'] for b in B.blocks if not b.get('cleanup'))


def calls(B):
    for b in B.blocks:
        if not b.get('cleanup') and b['term']['t'] == 'call':
            yield b['term']


def local_of(t):
    c = callee(t)
    if not c:
        return None
    return c.get('path') if c.get('local') else (c.get('res') if c.get('reslocal') else None)


def is_out(B, t):
    c = callee(t)
    if not c:
        return None
    p = c['path']
    q = re.sub(r'<.*?>', '', p).replace('::::', '::')
    if not (OUTRE.search(p) or OUTRE.search(q)):
        return None
    if 'io::Write' in p:
        tys = [B.T[a]['s'] for a in c.get('args', []) if isinstance(a, int)]
        if any(NOTFILE.search(s) for s in tys):
            return None
    return 'fs::write' if 'fs::write' in q else q.split('::')[-1]


PROPS = {'P44': P44}
