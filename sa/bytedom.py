"""Abstract interpretation of small pieces of code down to single bytes.

Domain of integers and pointers: linear terms  c + sum(coef * symbol)  ('l', c, terms), where a symbol is an object's address or an unknown number with a
lower bound; masks of bits ('k', known, value, width); one byte of memory as the set of values it may have, each a XOR of named origins ('b', ...); the
outcome of comparing a byte to an unknown character ('q', origin); everything else is unknown ('?',).

Loops with known bounds are followed iteration by iteration (trace partitioning), states that meet in the same iteration of the same block are joined.
No value of the program is executed and no solver is used: a condition that the domain does not decide goes both ways.
"""

TOP = ('?',)
M64 = (1 << 64) - 1


def L(c, terms=()):
    return ('l', c, terms)


def sym(s, coef=1, c=0):
    return ('l', c, ((s, coef),))


def addl(a, b, k=1):
    if a[0] != 'l' or b[0] != 'l':
        return TOP
    d = dict(a[2])
    for s, c in b[2]:
        d[s] = d.get(s, 0) + k * c
        if not d[s]:
            del d[s]
    return ('l', a[1] + k * b[1], tuple(sorted(d.items())))


def byte(*toks):
    return ('b', frozenset(frozenset([t]) for t in toks))


UNINIT = 'uninitialised'


class Stop(Exception):
    def __init__(self, msg, loc):
        Exception.__init__(self, msg, loc)
        self.msg = msg
        self.loc = loc


class State:
    __slots__ = ('mem', 'err', 'ctl', 'facts', 'fail', 'gone')

    def __init__(self):
        self.mem = {}        # (terms, const, size) -> value
        self.err = frozenset()
        self.ctl = {}        # cells that are part of the control state (never joined)
        self.facts = frozenset()
        self.fail = None     # the operation that failed on this path
        self.gone = False

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.err = self.err
        s.ctl = dict(self.ctl)
        s.facts = self.facts
        s.fail = self.fail
        s.gone = self.gone
        return s

    def key(self):
        return (self.err, tuple(sorted(self.ctl.items())), self.facts, self.fail, self.gone)


def joinv(a, b):
    if a == b:
        return a
    if a is not None and b is not None:
        a, b = plain(a), plain(b)
        if a == b:
            return a
    if a is None or b is None:
        x = a if b is None else b
        if x[0] == 'b':
            return ('b', x[1] | frozenset([frozenset([UNINIT])]))
        return TOP
    if a[0] == 'b' and b[0] == 'b':
        return ('b', a[1] | b[1])
    ka, kb = kbits(a), kbits(b)
    if ka and kb:
        known = ka[1] & kb[1] & ~(ka[2] ^ kb[2])
        return ('k', known, ka[2] & known)
    return TOP


def plain(v):
    return v[:3] if v[0] == 'k' else v


def kbits(v):
    if v[0] == 'k':
        return v
    if v[0] == 'l' and not v[2]:
        return ('k', M64, v[1] & M64)
    return None


def norm(v):
    if v[0] == 'k' and v[1] == M64:
        return L(v[2])
    return v


def join(I, a, b):
    for k in set(a.mem) | set(b.mem):
        x, y = a.mem.get(k), b.mem.get(k)
        if x is None or y is None:
            d = I.dom.cell(I, ('l', k[1], k[0]), k[2], a, '?')
            x, y = (d if x is None else x), (d if y is None else y)
        a.mem[k] = joinv(x, y)
    return a


class Interp:
    def __init__(self, prog, dom):
        self.prog = prog
        self.dom = dom          # domain object with hooks: call, load, store, lower
        self.objs = 0
        self.steps = 0
        self.loops = 400
        self.most = 1 << 30

    # ------------------------------------------------------------ arithmetic
    def width(self, ty):
        return int(ty[1:]) if ty and ty[0] == 'i' and ty[1:].isdigit() else 64

    def trunc(self, v, w):
        if v[0] == 'l' and not v[2]:
            return L(v[1] & ((1 << w) - 1))
        if v[0] == 'k':
            m = (1 << w) - 1
            if not ~v[1] & M64 & ~m and not v[2] & ~m:
                return v
            return norm(('k', v[1] | (M64 & ~m), v[2] & m))
        if v[0] == 'l' and w < 64:
            return TOP
        return v

    def low(self, v):
        """smallest value of a linear term, None if unknown (symbols are non-negative)"""
        t = v[1]
        for s, c in v[2]:
            if c < 0:
                return None
            t += c * self.dom.least(s)
        return t

    def binop(self, op, a, b, w):
        if op == 'add':
            r = addl(a, b)
            return self.trunc(r, w) if r[0] == 'l' and not r[2] else r
        if op == 'sub':
            if a[0] == 'l' and b[0] == 'l':
                r = addl(a, b, -1)
                return self.trunc(r, w) if not r[2] else r
            return TOP
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'l' and not x[2] and y[0] == 'l':
                    return ('l', y[1] * x[1], tuple((s, c * x[1]) for s, c in y[2] if c * x[1]))
            return TOP
        if op == 'xor' and a[0] == 'b' and b[0] == 'b':
            return ('b', frozenset(x ^ y for x in a[1] for y in b[1]))
        cb = b[1] if b[0] == 'l' and not b[2] else None
        if op == 'shl' and cb is not None and cb < 64:
            if a[0] == 'l':
                r = ('l', a[1] << cb, tuple((s, c << cb) for s, c in a[2]))
                return self.trunc(r, w) if not r[2] else r
            if a[0] == 'k':
                return norm(self.trunc(('k', ((a[1] << cb) | ((1 << cb) - 1)) & M64, (a[2] << cb) & M64), w))
            return TOP
        if op in ('lshr', 'udiv', 'ashr', 'sdiv') and cb is not None:
            n = cb if op in ('lshr', 'ashr') else (cb.bit_length() - 1 if cb and not cb & (cb - 1) else None)
            if n is None:
                if a[0] == 'l' and not a[2] and cb and a[1] >= 0:
                    return L(a[1] // cb)
                return TOP
            if a[0] == 'l':
                d = 1 << n
                if a[2] and (self.low(a) is None or self.low(a) < 0):
                    return TOP
                if all(c % d == 0 for _, c in a[2]):
                    return ('l', a[1] >> n, tuple((s, c >> n) for s, c in a[2]))
                return TOP
            if a[0] == 'k':
                return norm(('k', (a[1] >> n) | (M64 & ~(M64 >> n)), a[2] >> n))
            return TOP
        if op == 'urem' and cb and not cb & (cb - 1):
            return self.binop('and', a, L(cb - 1), w)
        if op in ('and', 'or', 'xor'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'l' and not x[2] and y[0] == 'l' and y[2]:
                    m = x[1] & M64
                    # low bits of the term are known when all coefficients are multiples of a power of two
                    al = 1 << 63
                    for _, c in y[2]:
                        while c % al:
                            al >>= 1
                    lo = al - 1
                    if op == 'and' and m <= lo:
                        return L(y[1] & m)
                    if op == 'and' and (m | lo) == M64:
                        return ('l', (y[1] & ~lo) | (y[1] & lo & m), y[2])
                    if op == 'or' and m <= lo:
                        return ('l', (y[1] & ~lo) | ((y[1] & lo) | m), y[2])
                    if op == 'xor' and m <= lo:
                        return ('l', (y[1] & ~lo) | ((y[1] & lo) ^ m), y[2])
                    return TOP
            ka, kb = kbits(a), kbits(b)
            if ka is None and a == TOP:
                ka = ('k', 0, 0)
            if kb is None and b == TOP:
                kb = ('k', 0, 0)
            if ka is None or kb is None:
                return TOP
            if op == 'and':
                for x, y in ((ka, kb), (kb, ka)):
                    if len(x) > 3 and y[1] == M64 and not ~x[1] & M64 & ~y[2] and not x[2] & ~y[2]:
                        return x
                one = ka[2] & kb[2]
                zero = (ka[1] & ~ka[2]) | (kb[1] & ~kb[2])
            elif op == 'or':
                one = ka[2] | kb[2]
                zero = (ka[1] & ~ka[2]) & (kb[1] & ~kb[2])
            else:
                kn = ka[1] & kb[1]
                one = (ka[2] ^ kb[2]) & kn
                zero = kn & ~one
            return norm(('k', (one | zero) & M64, one))
        return TOP

    def cmp(self, pred, a, b, w=64):
        """True / False / None, or ('q', origin, negated)"""
        if a[0] == 'l' and b[0] == 'l':
            d = addl(a, b, -1)
            if not d[2]:
                if not a[2] and w <= 64:
                    m = (1 << w) - 1
                    if pred[0] == 's':
                        sg = lambda x: ((x & m) ^ (1 << (w - 1))) - (1 << (w - 1))
                        x, y = sg(a[1]), sg(b[1])
                    else:
                        x, y = a[1] & m, b[1] & m
                else:
                    x, y = d[1], 0
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
                        'slt': x < y, 'sle': x <= y, 'sgt': x > y, 'sge': x >= y}[pred]
            if pred in ('eq', 'ne') and len(a[2]) == 1 and len(b[2]) == 1 and a[2] != b[2] and all(x[2][0][1] == 1 and self.dom.isobject(x[2][0][0]) for x in (a, b)):
                return pred == 'ne'          # pointers into different objects
            lo = self.low(d)
            neg = addl(b, a, -1)
            hi = self.low(neg)
            p = pred if pred in ('eq', 'ne') else pred[1:]
            if lo is not None and lo > 0:          # a > b
                return {'eq': False, 'ne': True, 'lt': False, 'le': False, 'gt': True, 'ge': True}[p]
            if hi is not None and hi > 0:
                return {'eq': False, 'ne': True, 'lt': True, 'le': True, 'gt': False, 'ge': False}[p]
            if lo is not None and lo == 0 and p in ('lt', 'ge'):
                return p == 'ge'
            if hi is not None and hi == 0 and p in ('gt', 'le'):
                return p == 'le'
            return None
        if pred in ('eq', 'ne'):
            ka, kb = kbits(a), kbits(b)
            if ka and kb:
                both = ka[1] & kb[1]
                if (ka[2] ^ kb[2]) & both:
                    return pred == 'ne'
                if ka[1] == M64 and kb[1] == M64:
                    return (ka[2] == kb[2]) == (pred == 'eq')
                for x, y in ((ka, kb), (kb, ka)):
                    if len(x) > 3 and y[1] == M64:
                        return ('e', x[3], x[:3], y[2], pred == 'ne')
                return None
            for x, y in ((a, b), (b, a)):
                if x[0] == 'b' and y[0] == 'l' and y[2] and len(x[1]) == 1:
                    return ('q', next(iter(x[1])), pred == 'ne')
                if x[0] in 'qe' and y == L(0):
                    return x[:-1] + (x[-1] ^ (pred == 'eq'),)
        return None

    # ------------------------------------------------------------ operands
    def val(self, o, env, fn):
        k = o[0]
        if k == 'v':
            return env.get(o[1], TOP)
        if k == 'a':
            return env.get(('a', o[1]), TOP)
        if k == 'i':
            w = o[2] if len(o) > 2 else 64
            return L(o[1] & ((1 << w) - 1))
        if k == 'n':
            return L(0)
        if k == 'F':
            f = self.prog.resolve(fn, o[1])
            return ('f', o[1], f.key if f is not None else None)
        if k == 'G' or k == 'g':
            return sym('G:' + str(o[1]))
        return TOP

    def gep(self, g, env, fn):
        v = self.val(g[0], env, fn)
        for s in g[1]:
            if s[0] == 'f':
                v = addl(v, L(s[3])) if v[0] == 'l' else TOP
            else:
                i = self.val(s[1], env, fn)
                if i[0] == 'l' and not i[2] and s[1][0] == 'i' and i[1] >> ((s[1][2] if len(s[1]) > 2 else 64) - 1):
                    i = L(i[1] - (1 << (s[1][2] if len(s[1]) > 2 else 64)))
                elif i[0] == 'l' and not i[2] and i[1] > M64 // 2:
                    i = L(i[1] - (1 << 64))
                if i[0] != 'l' or v[0] != 'l':
                    return TOP
                v = addl(v, ('l', i[1] * s[2], tuple((t, c * s[2]) for t, c in i[2])))
        return v

    # ------------------------------------------------------------ functions
    def run(self, fn, args, st, depth=0):
        """[(return value, State)]"""
        if depth > 24:
            raise Stop('recursion', fn.loc())
        env0 = {('a', k): v for k, v in enumerate(args)}
        rpo = {b: n for n, b in enumerate(fn.rpo)}
        work = {}
        order = []

        def put(n, b, pred, env, st):
            key = (n, rpo[b], b, st.key())
            # phi nodes
            new = {}
            for i in fn.blocks[b]:
                if i['op'] != 'phi':
                    break
                for pb, o in i['in']:
                    if pb == pred:
                        new[i['i']] = self.val(o, env, fn)
                        break
            live = fn.livein[b]
            e = {k: v for k, v in env.items() if not isinstance(k, int) or k in live}
            e.update(new)
            # loop counters and addresses keep states apart
            key += (tuple(sorted((k, v) for k, v in e.items() if isinstance(k, int) and v[0] in 'lfqe')),)
            w = work.get(key)
            if w is None:
                work[key] = [b, e, st]
                order.append(key)
            else:
                for k in set(w[1]) | set(e):
                    x, y = w[1].get(k, TOP), e.get(k, TOP)
                    w[1][k] = joinv(x, y)
                join(self, w[2], st)

        put(0, 0, None, env0, st)
        out = []
        while work:
            key = min(work, key=lambda k: k[:2])
            b, env, st = work.pop(key)
            n = key[0]
            if n > self.loops or self.steps > self.most:
                raise Stop('loop bound', fn.loc())
            self.block(fn, b, 0, env, st, n, put, out, depth)
        merged = {}
        for r, s in out:
            k = (s.key(), r if r[0] in 'lfqe' else None)
            if k in merged:
                m = merged[k]
                merged[k] = (joinv(m[0], r), join(self, m[1], s))
            else:
                merged[k] = (r, s)
        return list(merged.values())

    def block(self, fn, b, at, env, st, n, put, out, depth):
        ins = fn.blocks[b]
        for x in range(at, len(ins)):
            i = ins[x]
            op = i['op']
            self.steps += 1
            if op == 'phi':
                continue
            if op == 'br':
                if 'cond' not in i or len(i['succ']) == 1:
                    self.edge(fn, b, i['succ'][0], env, st, n, put, depth)
                    return
                c = self.val(i['cond'], env, fn)
                t = None
                if c[0] == 'l' and not c[2]:
                    t = bool(c[1] & 1)
                elif c[0] == 'q':
                    for tok, v in st.facts:
                        if tok == c[1]:
                            t = v ^ c[2]
                    if t is None:
                        t = self.dom.decide(c[1], st)
                        if t is not None:
                            st.facts |= frozenset([(c[1], t)])
                            t ^= c[2]
                if t is not None:
                    self.edge(fn, b, i['succ'][0 if t else 1], env, st, n, put, depth)
                else:
                    for k in (0, 1):
                        s2 = st.copy()
                        if c[0] == 'q':
                            s2.facts |= frozenset([(c[1], (k == 0) ^ c[2])])
                        if c[0] == 'e' and (k == 0) ^ c[-1] and s2.mem.get(c[1]) == c[2]:
                            s2.mem[c[1]] = L(c[3])       # the cell equals a constant
                        self.edge(fn, b, i['succ'][k], dict(env), s2, n, put, depth)
                return
            if op == 'switch':
                c = self.val(i['cond'], env, fn)
                if c[0] == 'l' and not c[2]:
                    t = i['def']
                    for cv, tb in i['cases']:
                        if (cv if not isinstance(cv, list) else cv[1]) == c[1]:
                            t = tb
                    self.edge(fn, b, t, env, st, n, put, depth)
                else:
                    for t in fn.succ[b]:
                        self.edge(fn, b, t, dict(env), st.copy(), n, put, depth)
                return
            if op == 'ret':
                out.append((self.val(i['args'][0], env, fn) if i.get('args') else TOP, st))
                return
            if op == 'unreachable':
                return
            if op in ('call', 'invoke'):
                rs = self.call(fn, i, env, st, depth)
                if rs is None:
                    rs = [(TOP, st)]
                if len(rs) == 1:
                    env[i['i']], st = rs[0]
                    continue
                for r, s2 in rs:
                    e2 = dict(env)
                    e2[i['i']] = r
                    self.block(fn, b, x + 1, e2, s2, n, put, out, depth)
                return
            env[i['i']] = self.simple(fn, i, env, st, depth)
        return

    def edge(self, fn, b, t, env, st, n, put, depth):
        back = (b, t) in fn.backedges
        if back:
            if self.dom.backedge(self, fn, b, t, env, st, depth):
                return
        put(n + (1 if back else 0), t, b, env, st)

    def simple(self, fn, i, env, st, depth):
        op = i['op']
        v = lambda k: self.val(i['args'][k], env, fn)
        if op == 'getelementptr':
            return self.gep(i['gep'], env, fn)
        if op == 'alloca':
            t = ('A%d:%s:%s' % (depth, fn.name, i['i']), 1)
            for m in (st.ctl, st.mem):
                for k in [k for k in m if k[0] == (t,)]:
                    del m[k]
            return sym(t[0])
        if op == 'load':
            return self.load(v(0), i.get('sz', 8), st, fn.loc(i))
        if op == 'store':
            self.store(v(1), v(0), i.get('sz', 8), st, fn.loc(i))
            return TOP
        if op in ('zext', 'sext', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            x = v(0)
            if op == 'sext' and x[0] == 'l' and not x[2]:
                w = self.width(i.get('sty'))
                if x[1] >> (w - 1) & 1:
                    return L(x[1] - (1 << w) & ((1 << self.width(i.get('ty'))) - 1))
            return x
        if op == 'trunc':
            x = v(0)
            if x[0] in 'bqe':
                return x
            return self.trunc(x, self.width(i.get('ty')))
        if op == 'icmp':
            a, b = v(0), v(1)
            r = self.cmp(i['pred'], a, b, min([o[2] for o in i['args'] if o[0] == 'i' and len(o) > 2] or [64]))
            if r is None:
                return TOP
            if isinstance(r, tuple):
                return r
            return L(1 if r else 0)
        if op == 'select':
            c = v(0)
            if c[0] == 'l' and not c[2]:
                return v(1) if c[1] & 1 else v(2)
            return joinv(v(1), v(2))
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'and', 'or', 'xor'):
            a, b = v(0), v(1)
            if a[0] in 'qe' and op == 'xor' and b[0] == 'l' and b[1] & 1:
                return a[:-1] + (not a[-1],)
            return self.binop(op, a, b, self.width(i.get('ty')))
        return TOP

    # ------------------------------------------------------------ memory
    def load(self, a, sz, st, loc):
        if a[0] != 'l' or not a[2]:
            return TOP
        self.dom.access(self, 'read', a, sz, st, loc)
        k = (a[2], a[1], sz)
        if k in st.ctl:
            return st.ctl[k]
        if k in st.mem:
            v = st.mem[k]
            return v + (k,) if v[0] == 'k' else v
        if sz > 1 and self.dom.bytewise(a):
            return ('w', tuple(self.load(addl(a, L(n)), 1, st, loc) for n in range(sz)))
        return self.dom.cell(self, a, sz, st, loc)

    def store(self, a, v, sz, st, loc):
        if a[0] != 'l' or not a[2]:
            self.dom.lost(self, st, loc)
            return
        self.dom.access(self, 'write', a, sz, st, loc)
        v = plain(v)
        if self.dom.control(a, sz):
            st.ctl[(a[2], a[1], sz)] = v
            return
        if sz > 1 and self.dom.bytewise(a):
            for n in range(sz):
                self.store(addl(a, L(n)), v[1][n] if v[0] == 'w' and len(v[1]) == sz else byte('other'), 1, st, loc)
            return
        st.mem[(a[2], a[1], sz)] = v if v[0] != '?' or sz != 1 or not self.dom.bytewise(a) else byte('other')

    def copy(self, d, s, n, st, loc):
        """memcpy of n bytes"""
        if d[0] != 'l' or s[0] != 'l' or n[0] != 'l' or n[2] or n[1] > 4096 or n[1] < 0:
            self.dom.lost(self, st, loc)
            return
        vals = [self.load(addl(s, L(k)), 1, st, loc) for k in range(n[1])]
        for k in range(n[1]):
            self.store(addl(d, L(k)), vals[k], 1, st, loc)

    # ------------------------------------------------------------ calls
    def call(self, fn, i, env, st, depth):
        f = i['fn']
        args = [self.val(a, env, fn) for a in i['args']]
        fv = self.val(f, env, fn)
        loc = fn.loc(i)
        if fv[0] != 'f':
            self.dom.unknown('(indirect)', loc)
            return [(TOP, st)]
        name = fv[1]
        if name.startswith('llvm.memcpy') or name in ('memcpy', 'memmove') or name.startswith('llvm.memmove'):
            self.copy(args[0], args[1], args[2], st, loc)
            return [(args[0], st)]
        if name.startswith('llvm.'):
            return [(TOP, st)]
        callee = self.prog.fns.get(fv[2])
        r = self.dom.call(self, name, callee, args, st, loc, depth, i)
        if r is not None:
            return r
        if callee is not None and callee.blocks:
            return self.run(callee, args, st, depth + 1)
        self.dom.unknown(name, loc)
        return [(TOP, st)]
