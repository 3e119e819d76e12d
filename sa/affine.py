"""Symbolic evaluation of addresses and sizes as polynomials, and coverage of table-walking loops.

A value is a polynomial over symbols: dict monomial -> coefficient, a monomial being a sorted tuple of
symbols.  Symbols are function arguments of the analysed root, loop variables, results of opaque calls and
('ld', address) for memory contents.  Pure straight-line callees are expanded.
"""
from .ir import dominates


def const(c):
    return {(): c} if c else {}


def sym(s):
    return {(s,): 1}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=repr))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def key(p):
    return tuple(sorted(p.items(), key=repr))


def symbols(p):
    return {s for m in p for s in m}


def show(p):
    def s1(s):
        if s[0] == 'arg':
            return s[2] or 'arg%d' % s[1]
        if s[0] == 'ld':
            return '[%s]' % show(dict(s[1]))
        return '%s' % s[0] + ('#%s' % s[2] if len(s) > 2 and s[0] == 'phi' else '')
    t = []
    for m, c in sorted(p.items(), key=repr):
        t.append('*'.join(([str(c)] if c != 1 or not m else []) + [s1(x) for x in m]))
    return ' + '.join(t) or '0'


class Frame:
    """one function activation: args are polynomials, or ('fn', Fn) / ('null',) for function pointers"""

    def __init__(self, prog, fn, args, ctx=(), depth=0):
        self.prog, self.fn, self.args, self.ctx, self.depth = prog, fn, args, ctx, depth
        self.memo = {}
        self.bind = {}

    def fnarg(self, o):
        if o[0] == 'F':
            c = self.prog.resolve(self.fn, o[1])
            return ('fn', c) if c is not None else None
        if o[0] == 'a' and o[1] < len(self.args):
            a = self.args[o[1]]
            return a if isinstance(a, tuple) else None
        return None

    def ev(self, o):
        k = o[0]
        if k == 'i':
            return const(o[1])
        if k in ('n', 'z'):
            return {}
        if k == 'a':
            a = self.args[o[1]] if o[1] < len(self.args) else None
            if isinstance(a, dict):
                return a
            return sym(('fnarg', self.fn.key, o[1], self.ctx))
        if k == 'v':
            r = self.memo.get(o[1])
            if r is None:
                self.memo[o[1]] = sym(('v', self.fn.key, o[1], self.ctx))
                r = self.memo[o[1]] = self.evi(self.fn.defs[o[1]])
            return r
        if k == 'g':
            return sym(('g', o[1]))
        if k == 'gep':
            return self.gep(o[1])
        if k == 'ce':
            a = [self.ev(x) for x in o[2]]
            if len(a) == 1:
                return a[0]
        return sym(('c', str(o)[:80]))

    def gep(self, g):
        p = self.ev(g[0])
        for s in g[1]:
            if s[0] == 'f':
                p = add(p, const(self.prog.structs[s[1]]['el'][s[2]][0]))
            else:
                p = add(p, mul(self.ev(s[1]), const(s[2])))
        return p

    def evi(self, i):
        op = i['op']
        me = ('v', self.fn.key, i['i'], self.ctx)
        if op in ('bitcast', 'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'freeze'):
            return self.ev(i['args'][0])
        if op == 'getelementptr':
            return self.gep(i['gep'])
        if op in ('add', 'sub', 'mul'):
            a, b = self.ev(i['args'][0]), self.ev(i['args'][1])
            if op == 'mul':
                return mul(a, b)
            return add(a, b, 1 if op == 'add' else -1)
        if op == 'shl' and i['args'][1][0] == 'i':
            return mul(self.ev(i['args'][0]), const(1 << i['args'][1][1]))
        if op in ('sdiv', 'udiv') and i['args'][1][0] == 'i' and i['args'][1][1]:
            a, d = self.ev(i['args'][0]), i['args'][1][1]
            if all(c % d == 0 for c in a.values()):
                return {m: c // d for m, c in a.items()}
        if op == 'load':
            a = self.ev(i['args'][0])
            b = self.alloca_value(i)
            if b is not None:
                return b
            return sym(('ld', key(a)))
        if op == 'alloca':
            return sym(('alloca', self.fn.key, i['i'], self.ctx))
        if op == 'phi':
            bi = self.fn.block_of(i['i'])
            if bi in self.fn.headers:
                return sym(('phi', self.fn.key, i['i'], self.ctx))
            vs = [self.ev(o) for _, o in i['in']]
            if all(v == vs[0] for v in vs):
                return vs[0]
            return sym(me)
        if op == 'call' and i['fn'][0] == 'F' and self.depth < 6:
            c = self.prog.resolve(self.fn, i['fn'][1])
            if c is not None:
                r = self.expand(c, i)
                if r is not None:
                    return r
        return sym(me)

    def alloca_value(self, i):
        """value of a local aggregate field that is stored exactly once (plain initialiser)"""
        return None

    def expand(self, c, i):
        rets = [x for x in c.instrs() if x['op'] == 'ret']
        if len(rets) != 1 or not rets[0].get('args') or sum(len(b) for b in c.blocks) > 40:
            return None
        for x in c.instrs():
            if x['op'] in ('store', 'atomicrmw', 'cmpxchg'):
                return None
        f = self.enter(c, i)
        return f.ev(rets[0]['args'][0])

    def enter(self, c, i):
        args = []
        for o in i['args']:
            fa = self.fnarg(o)
            args.append(fa if fa is not None else self.ev(o))
        return Frame(self.prog, c, args, self.ctx + ((self.fn.key, i['i']),), self.depth + 1)


def natural_loop(fn, header):
    body = {header}
    work = [b for b, h in fn.backedges if h == header]
    while work:
        b = work.pop()
        if b in body:
            continue
        body.add(b)
        work += fn.pred[b]
    return body


def dead_block(fn, b, memo=None):
    """every path from b ends without returning (failed assertion)"""
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        t = fn.blocks[x][-1]
        if t['op'] == 'unreachable':
            continue
        if not fn.succ[x]:
            return False
        work += fn.succ[x]
    return True


def innermost_loop(fn, bi):
    best = None
    for h in fn.headers:
        l = natural_loop(fn, h)
        if bi in l and (best is None or len(l) < len(best[1])):
            best = (h, l)
    return best


CONT = {'ult': '<', 'slt': '<', 'ule': '<=', 'sle': '<=', 'ugt': '>', 'sgt': '>', 'uge': '>=', 'sge': '>=', 'ne': '!=', 'eq': '=='}
FLIP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!=', '==': '=='}
NOT = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '!=': '==', '==': '!='}


def guard(fr, cond, truth):
    """(a, rel, b) polynomials that hold when cond == truth"""
    fn = fr.fn
    while cond[0] == 'v':
        i = fn.defs[cond[1]]
        if i['op'] == 'xor' and i['args'][1][0] == 'i':
            truth = not truth
            cond = i['args'][0]
            continue
        if i['op'] == 'icmp':
            rel = CONT[i['pred']]
            if not truth:
                rel = NOT[rel]
            if i['args'][1][0] in ('i', 'n') and i['args'][1][-1 if i['args'][1][0] == 'n' else 1] in (0, 'n') and rel in ('==', '!=') and \
                    i['args'][0][0] == 'v' and fn.defs[i['args'][0][1]]['op'] in ('zext', 'icmp', 'xor'):
                cond = i['args'][0]
                truth = rel == '!='
                continue
            return fr.ev(i['args'][0]), rel, fr.ev(i['args'][1]), i
        if i['op'] in ('zext', 'trunc', 'freeze'):
            cond = i['args'][0]
            continue
        if i['op'] == 'call':
            return ('call', i, truth)
        return None
    return None


def conj(fr, cond, truth, b):
    """conditions that all hold when cond == truth at the end of block b: [(block, guard or None)]"""
    fn = fr.fn
    if cond[0] == 'v':
        i = fn.defs[cond[1]]
        if i['op'] == 'phi' and i.get('ty') == 'i1' and fn.block_of(i['i']) == b:
            out = []
            for p, o in i['in']:
                if o[0] == 'i':
                    if bool(o[1] & 1) == truth:
                        return [(b, None)]
                    t = fn.blocks[p][-1]
                    if t['op'] != 'br' or 'cond' not in t:
                        return [(b, None)]
                    out += conj(fr, t['cond'], t['succ'][0] != b, p)
            rest = [(p, o) for p, o in i['in'] if o[0] != 'i']
            if len(rest) != 1:
                return [(b, None)]
            return out + conj(fr, rest[0][1], truth, rest[0][0])
        if i['op'] == 'xor' and i['args'][1][0] == 'i' and fn.defs.get(i['args'][0][1], {}).get('op') == 'phi':
            return conj(fr, i['args'][0], not truth, b)
        if i['op'] == 'and' and truth or i['op'] == 'or' and not truth:
            if i.get('ty') == 'i1':
                return conj(fr, i['args'][0], truth, b) + conj(fr, i['args'][1], truth, b)
    return [(b, guard(fr, cond, truth))]


class Cover:
    """what a loop passes to a call: every element from first up to bound, or from top down to bound"""

    def __init__(self, **kw):
        self.__dict__.update(kw)


def loop_cover(fr, call, elem):
    """coverage of the loop around `call` in frame fr for the address `elem` (polynomial); (Cover|None, reason)"""
    fn = fr.fn
    bi = fn.block_of(call['i'])
    l = innermost_loop(fn, bi)
    if l is None:
        return None, 'not in a loop'
    h, body = l
    phis = [i for i in fn.blocks[h] if i['op'] == 'phi']
    var = None
    for p in phis:
        s = ('phi', fn.key, p['i'], fr.ctx)
        if any(s in m for m in elem):
            if var is not None:
                return None, 'element depends on two loop variables'
            var = p
    if var is None:
        return None, 'element does not depend on the loop'
    s = ('phi', fn.key, var['i'], fr.ctx)
    # elem = scale * s + off
    scale, off = {}, {}
    for m, c in elem.items():
        if s in m:
            k = list(m)
            k.remove(s)
            if s in k:
                return None, 'non-linear'
            scale[tuple(k)] = c
        else:
            off[m] = c
    init = step = None
    for b, o in var['in']:
        v = fr.ev(o)
        if b in body:
            d = add(v, sym(s), -1)
            if step is not None and step != d:
                return None, 'step differs between paths'
            step = d
        else:
            if init is not None and init != v:
                return None, 'start differs between paths'
            init = v
    if step is None or init is None or any(s in m for m in step):
        return None, 'no linear step'
    exits, bound = [], None
    for b in body:
        t = fn.blocks[b][-1]
        outs = [x for x in fn.succ[b] if x not in body and not dead_block(fn, x)]
        if not outs:
            continue
        if t['op'] != 'br' or 'cond' not in t:
            return None, 'loop left unconditionally'
        stay = [k for k, x in enumerate(t['succ']) if x in body or dead_block(fn, x)]
        for gb, g in conj(fr, t['cond'], bool(stay) and stay[0] == 0, b):
            if g is None:
                return None, 'loop left on an unknown condition'
            if g[0] == 'call':
                exits.append((b, g))
                continue
            a, rel, c, ins = g
            if any(s in m for m in c) and not any(s in m for m in a):
                a, c, rel = c, a, FLIP[rel]
            if not any(s in m for m in a) or any(s in m for m in c):
                exits.append((b, g))
                continue
            # a = s*1 + off2 only
            if a.get((s,)) != 1 or any(s in m and m != (s,) for m in a):
                return None, 'bound on a non-linear value'
            rest = dict(a)
            rest.pop((s,))
            bnd = add(c, rest, -1)
            if bound is not None:
                return None, 'two bounds'
            if not dominates(fn, gb, bi):
                return None, 'bound is checked after the element is used'
            bound = (rel, bnd)
    if bound is None:
        return None, 'no bound found'
    for b, h2 in fn.backedges:
        if h2 == h and not dominates(fn, bi, b):
            return None, 'some iterations skip the call'
    return Cover(fn=fn, var=s, scale=scale, off=off, init=init, step=step, rel=bound[0], bound=bound[1], exits=exits), ''


def covers(c, first, count, stride, unit=None):
    """does Cover c visit first, first+stride, .. (count elements)?  'fwd', 'rev' or (None, reason).
    unit: {symbol: 1} substitutions that make the step constant"""
    def sub(p):
        r = {}
        for m, k in p.items():
            m2 = tuple(x for x in m if not (unit and x in unit))
            v = r.get(m2, 0) + k
            if v:
                r[m2] = v
            else:
                r.pop(m2, None)
        return r
    step = mul(sub(c.step), sub(c.scale))
    at = lambda v: add(mul(sub(v), sub(c.scale)), sub(c.off))
    end = add(first, mul(count, stride))
    e0 = at(c.init)
    B = at(c.bound)
    if step == stride:
        if e0 != first:
            return None, 'starts at %s instead of %s' % (show(e0), show(first))
        if c.rel in ('<', '!=') and B == end:
            return 'fwd', ''
        if c.rel == '<=' and B == add(end, stride, -1):
            return 'fwd', ''
        return None, 'goes on while element %s %s, the table ends at %s' % (c.rel, show(B), show(end))
    if step == mul(stride, const(-1)):
        top = add(end, stride, -1)
        if e0 != top:
            return None, 'starts at %s instead of the last element %s' % (show(e0), show(top))
        # last visited element must be first
        if c.rel == '>=' and B == first:
            return 'rev', ''
        if c.rel in ('>', '!=') and add(B, stride) == first:
            return 'rev', ''
        return None, 'goes on while element %s %s, the table begins at %s' % (c.rel, show(B), show(first))
    return None, 'advances by %s, elements are %s apart' % (show(step), show(stride))
