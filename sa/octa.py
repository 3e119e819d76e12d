"""Disjunctive abstract interpretation of integer code over any number of symbols.

A state is an octagon over the symbols (bounds of every symbol and of every sum and difference of two) with a value for every SSA register and
memory cell, exact as a linear form in the symbols modulo the register's width. Comparisons, wrap-around and division by constants split the
octagon. Cells are addressed as (object, byte offset); objects are the pointer arguments, local variables and globals."""
from .build import AnalysisBroken
from .intdom import width

BIG = 1 << 200
LIM = 600


class Octagon:
    """difference-bound matrix over +x, -x for every symbol; m[i][j] bounds v_i - v_j"""
    __slots__ = ('names', 'm')

    def __init__(self, bounds=None, names=None, m=None):
        if m is not None:
            self.names, self.m = names, m
            return
        self.names = {n: k for k, n in enumerate(sorted(bounds))}
        n = 2 * len(bounds)
        self.m = [[0 if i == j else BIG for j in range(n)] for i in range(n)]
        for s, (lo, hi) in bounds.items():
            k = 2 * self.names[s]
            self.m[k][k + 1] = 2 * hi
            self.m[k + 1][k] = -2 * lo
        if not self.close():
            raise AnalysisBroken('empty octagon')

    def close(self):
        m = self.m
        n = len(m)
        R = range(n)
        for _ in range(2):
            for k in R:
                mk = m[k]
                for i in R:
                    a = m[i][k]
                    if a >= BIG:
                        continue
                    mi = m[i]
                    for j in R:
                        c = a + mk[j]
                        if c < mi[j]:
                            mi[j] = c
            for i in R:
                if m[i][i] < 0:
                    return False
                c = m[i][i ^ 1]
                if c < BIG:
                    m[i][i ^ 1] = c // 2 * 2
            for i in R:
                for j in R:
                    a, b = m[i][i ^ 1], m[j ^ 1][j]
                    if a < BIG and b < BIG and (a + b) // 2 < m[i][j]:
                        m[i][j] = (a + b) // 2
            if any(m[i][i] < 0 for i in R):
                return False
        return True

    def node(self, s, c):
        return 2 * self.names[s] + (0 if c > 0 else 1)

    def upper(self, f):
        """least known upper bound of a linear form {symbol: coefficient, '': constant}"""
        t = [(s, c) for s, c in f.items() if s and c]
        k = f.get('', 0)
        if len(t) == 2 and all(abs(c) == abs(t[0][1]) for _, c in t):
            a, b = t
            v = self.m[self.node(*a)][self.node(b[0], -b[1])]
            return k + v * abs(a[1]) if v < BIG else BIG
        out = k
        # pair up opposite unit terms greedily, else the bounds of each symbol
        used = set()
        for x in range(len(t)):
            if x in used:
                continue
            best = None
            s, c = t[x]
            one = self.m[self.node(s, c)][self.node(s, -c)]
            one = BIG if one >= BIG else one // 2 * abs(c)
            for y in range(x + 1, len(t)):
                if y in used or abs(t[y][1]) != abs(c):
                    continue
                v = self.m[self.node(s, c)][self.node(t[y][0], -t[y][1])]
                o = self.m[self.node(*t[y])][self.node(t[y][0], -t[y][1])]
                o = BIG if o >= BIG else o // 2 * abs(c)
                if v < BIG and v * abs(c) < one + o:
                    best = (y, v * abs(c))
                    break
            if best:
                used.add(best[0])
                out += best[1]
            elif one >= BIG:
                return BIG
            else:
                out += one
        return out

    def bounds(self, f):
        return -self.upper({s: -c for s, c in f.items()}), self.upper(f)

    def le(self, f):
        """restricted to f <= 0; None if empty"""
        lo, hi = self.bounds(f)
        if hi <= 0:
            return self
        if lo > 0:
            return None
        t = [(s, c) for s, c in f.items() if s and c]
        k = f.get('', 0)
        if len(t) == 1:
            (s, c), = t
            i, j, b = self.node(s, c), self.node(s, -c), -k // abs(c) * 2
        elif len(t) == 2 and abs(t[0][1]) == abs(t[1][1]):
            a, b_ = t
            i, j, b = self.node(*a), self.node(b_[0], -b_[1]), -k // abs(a[1])
        else:
            return self
        m = [list(r) for r in self.m]
        for x, y in ((i, j), (j ^ 1, i ^ 1)):
            if b < m[x][y]:
                m[x][y] = b
        n = Octagon(names=self.names, m=m)
        return n if n.close() else None

    def range(self, f, lo, hi):
        R = self
        if lo is not None:
            R = R.le(plus({'': lo}, f, -1))
        if R is not None and hi is not None:
            R = R.le(plus(f, {'': -hi}))
        return R

    def show(self):
        return ', '.join('%s in %d..%d' % ((s,) + self.bounds({s: 1})) for s in sorted(self.names))


def plus(f, g, k=1):
    h = dict(f)
    for s, c in g.items():
        h[s] = h.get(s, 0) + k * c
        if not h[s] and s:
            del h[s]
    return h


def con(k, w):
    return ('A', w, {'': k})


TOP = ('T',)


class Interp:
    """`model(I, fn, ins, name, args, R, mem)` may return [(R, mem, value)] for a call; `issues` collects undefined arithmetic and failing asserts"""

    def __init__(self, prog, model=None, consts=None):
        self.prog, self.model, self.consts = prog, model, consts or {}
        self.issues = []
        self.stores = 0

    def math(self, R, v, signed):
        if v[0] != 'A':
            return [(R, None)]
        w, f = v[1], v[2]
        M = 1 << w
        base = -(M >> 1) if signed else 0
        lo, hi = R.bounds(f)
        if hi >= BIG or lo <= -BIG:
            return [(R, None)]
        k0, k1 = (lo - base) // M, (hi - base) // M
        if k1 - k0 > 6:
            return [(R, None)]
        out = []
        for k in range(k0, k1 + 1):
            R2 = R.range(f, base + k * M, base + k * M + M - 1)
            if R2 is not None:
                out.append((R2, plus(f, {'': -k * M})))
        return out

    def cmp(self, R, pred, x, y):
        out = []
        signed = pred[0] == 's' or pred in ('eq', 'ne')
        for R1, a in self.math(R, x, signed):
            for R2, b in self.math(R1, y, signed):
                if a is None or b is None:
                    out += [(R2, 1), (R2, 0)]
                    continue
                d = plus(a, b, -1)
                if pred in ('eq', 'ne'):
                    for lo, hi, t in ((None, -1, 0), (0, 0, 1), (1, None, 0)):
                        R3 = R2.range(d, lo, hi)
                        if R3 is not None:
                            out.append((R3, t if pred == 'eq' else 1 - t))
                    continue
                h, l = {'lt': (-1, 0), 'le': (0, 1), 'gt': (0, 1), 'ge': (-1, 0)}[pred[1:]]
                for R3, t in ((R2.range(d, None, h), 1), (R2.range(d, l, None), 0)):
                    if R3 is not None:
                        out.append((R3, t if pred[1:] in ('lt', 'le') else 1 - t))
        return out

    def get(self, env, o, fn=None):
        if o[0] == 'i':
            return con(o[1], o[2])
        if o[0] in ('v', 'a'):
            return env.get((o[0], o[1]), TOP)
        if o[0] == 'n':
            return ('null',)
        if o[0] == 'g':
            return ('ptr', ('g', o[1], env['fn']), 0)
        return TOP

    def run(self, fn, args, R, mem, depth=0):
        """[(R, mem, returned value, location)]"""
        if depth > 10:
            raise AnalysisBroken('recursion in %s' % fn.name)
        out = []
        work = [(0, None, {'fn': fn, **{('a', k): v for k, v in enumerate(args)}}, R, dict(mem), 0)]
        while work:
            b, prev, env, R, mem, n = work.pop()
            if n > 80 or len(out) > LIM:
                self.issues.append((fn, fn.blocks[b][0], 'loop that cannot be bounded', R))
                return [(R, {}, TOP, fn.loc())]
            env = dict(env)
            env.update({('v', i['i']): self.get(env, o) for i in fn.blocks[b] if i['op'] == 'phi' for p, o in i['in'] if p == prev})
            states = [(R, env, mem)]
            term = fn.blocks[b][-1]
            for i in fn.blocks[b]:
                if i['op'] == 'phi' or i is term:
                    continue
                new = []
                for R1, e1, m1 in states:
                    for R2, m2, v in self.ins(fn, i, e1, R1, m1, depth):
                        if v is not None:
                            e2 = dict(e1)
                            e2[('v', i['i'])] = v
                        else:
                            e2 = e1
                        new.append((R2, e2, m2))
                states = new
            for R1, e1, m1 in states:
                if term['op'] == 'ret':
                    out.append((R1, m1, self.get(e1, term['args'][0]) if term['args'] else TOP, fn.loc(term)))
                elif term['op'] == 'br' and 'cond' in term:
                    for R2, t in self.truth(R1, self.get(e1, term['cond'])):
                        work.append((term['succ'][0 if t else 1], b, e1, R2, m1, n + 1))
                elif term['op'] == 'br':
                    work.append((term['succ'][0], b, e1, R1, m1, n + 1))
                elif term['op'] == 'unreachable':
                    pass
                else:
                    raise AnalysisBroken('%s: %s not covered' % (fn.loc(term), term['op']))
        return out

    def truth(self, R, c):
        if c[0] == 'A':
            return self.cmp(R, 'ne', c, con(0, c[1]))
        return [(R, 1), (R, 0)]

    def ins(self, fn, i, env, R, mem, depth):
        op = i['op']
        w = width(i.get('ty'))
        A = [self.get(env, o) for o in i.get('args', [])]
        if op in ('sext', 'zext'):
            return [(R1, mem, ('A', w, f) if f is not None else TOP) for R1, f in self.math(R, A[0], op == 'sext')]
        if op == 'trunc':
            return [(R, mem, ('A', w, A[0][2]) if A[0][0] == 'A' else TOP)]
        if op == 'icmp':
            if all(v[0] in ('ptr', 'null') for v in A):
                eq = A[0] == A[1]
                if i['pred'] in ('eq', 'ne'):
                    return [(R, mem, con(int(eq == (i['pred'] == 'eq')), 1))]
                return [(R, mem, con(k, 1)) for k in (0, 1)]
            if all(v[0] == 'A' for v in A):
                return [(R1, mem, con(t, 1)) for R1, t in self.cmp(R, i['pred'], *A)]
            return [(R, mem, con(k, 1)) for k in (0, 1)]
        if op == 'select':
            return [(R1, mem, A[1] if t else A[2]) for R1, t in self.truth(R, A[0])]
        if op in ('add', 'sub'):
            if A[0][0] == 'A' == A[1][0]:
                s = 1 if op == 'add' else -1
                if i.get('nsw'):
                    for R1, a in self.math(R, A[0], True):
                        for R2, b in self.math(R1, A[1], True):
                            if a is not None and b is not None:
                                lo, hi = R2.bounds(plus(a, b, s))
                                if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
                                    self.issues.append((fn, i, 'signed overflow', R2))
                return [(R, mem, ('A', w, plus(A[0][2], A[1][2], s)))]
            return [(R, mem, TOP)]
        if op == 'mul' and A[0][0] == 'A' == A[1][0]:
            f, g = A[0][2], A[1][2]
            if set(g) <= {''}:
                f, g = g, f
            if set(f) <= {''}:
                out = []
                for R1, h in self.math(R, ('A', w, g), True) if i.get('nsw') else [(R, g)]:
                    h = g if h is None else h
                    r = {s: c * f.get('', 0) for s, c in h.items() if c * f.get('', 0) or not s}
                    if i.get('nsw'):
                        lo, hi = R1.bounds(r)
                        if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
                            self.issues.append((fn, i, 'signed overflow', R1))
                    out.append((R1, mem, ('A', w, r)))
                return out
            return [(R, mem, TOP)]
        if op in ('sdiv', 'srem', 'udiv', 'urem') and A[0][0] == 'A' == A[1][0] and set(A[1][2]) <= {''} and A[1][2].get('', 0) > 0:
            k = A[1][2]['']
            out = []
            for R1, a in self.math(R, A[0], op[0] == 's'):
                lo, hi = R1.bounds(a) if a is not None else (0, BIG)
                q0, q1 = tdiv(lo, k), tdiv(hi, k)
                if a is None or q1 - q0 > 8:
                    out.append((R1, mem, TOP))
                    continue
                for q in range(q0, q1 + 1):
                    l, h = (q * k, q * k + k - 1) if q > 0 else (q * k - k + 1, q * k) if q < 0 else (-k + 1, k - 1)
                    R2 = R1.range(a, l, h)
                    if R2 is not None:
                        out.append((R2, mem, con(q, w) if op[1:] == 'div' else ('A', w, plus(a, {'': -q * k}))))
            return out
        if op in ('and', 'or', 'xor'):
            if all(v[0] == 'A' and set(v[2]) <= {''} for v in A):
                a, b = (v[2].get('', 0) & ((1 << w) - 1) for v in A)
                return [(R, mem, con({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], w))]
            return [(R, mem, TOP)]
        if op == 'getelementptr':
            return [(R, mem, self.gep(i, env))]
        if op == 'alloca':
            return [(R, mem, ('ptr', ('l', fn.key, i['i'], depth), 0))]
        if op == 'load':
            p = A[0]
            v = TOP
            if p[0] == 'ptr':
                v = mem.get((p[1], p[2], i['sz']), self.const_cell(fn, p, i))
            return [(R, mem, v)]
        if op == 'store':
            p = A[1]
            self.stores += 1
            m = dict(mem)
            if p[0] != 'ptr':
                m = {}
            else:
                for a, o, s in list(m):
                    if a == p[1] and o < p[2] + i['sz'] and p[2] < o + s:
                        del m[(a, o, s)]
                m[(p[1], p[2], i['sz'])] = A[0]
            return [(R, m, None)]
        if op in ('freeze', 'bitcast'):
            return [(R, mem, A[0])]
        if op == 'call':
            return self.call(fn, i, A, R, mem, depth)
        return [(R, mem, TOP)]

    def const_cell(self, fn, p, i):
        if p[1][0] == 'g':
            g = self.prog.global_(p[1][2], p[1][1])
            if g and g['const'] and g['init']:
                v = self.prog_cell(g['init'], p[2], i['sz'])
                if v:
                    return v
        return self.consts.get((p[1], p[2]), TOP)

    def prog_cell(self, init, off, size):
        if init[0] == 'i':
            return con(init[1], init[2]) if off == 0 and size * 8 == init[2] else None
        if init[0] == 'S':
            for e, x in zip(self.prog.structs[init[1]]['el'], init[2]):
                if e[0] <= off < e[0] + e[3]:
                    return self.prog_cell(x, off - e[0], size) if x else None
        return None

    def gep(self, i, env):
        b = self.get(env, i['gep'][0])
        if b[0] != 'ptr':
            return TOP
        off = b[2]
        for s in i['gep'][1]:
            if s[0] == 'f':
                off += s[3]
            else:
                v = self.get(env, s[1])
                if v[0] != 'A' or not set(v[2]) <= {''}:
                    return TOP
                off += v[2].get('', 0) * s[2]
        return ('ptr', b[1], off)

    def call(self, fn, i, A, R, mem, depth):
        nm = i['fn'][1] if i['fn'][0] == 'F' else None
        if nm == '__assert_fail':
            self.issues.append((fn, i, 'assertion fails', R))
            return [(R, mem, None)]
        if self.model:
            r = self.model(self, fn, i, nm, A, R, mem)
            if r is not None:
                return r
        if nm and (nm.startswith('llvm.memcpy') or nm in ('memcpy', 'memmove') or nm.startswith('llvm.memmove')):
            m = dict(mem)
            if A[0][0] == A[1][0] == 'ptr' and A[2][0] == 'A' and set(A[2][2]) <= {''}:
                n = A[2][2].get('', 0)
                src = {(o, s): v for (a, o, s), v in m.items() if a == A[1][1] and A[1][2] <= o and o + s <= A[1][2] + n}
                if A[1][1][0] == 'g':
                    for o in range(A[1][2], A[1][2] + n, 4):
                        for s in (8, 4):
                            v = self.const_cell(fn, ('ptr', A[1][1], o), {'sz': s})
                            if v[0] == 'A':
                                src.setdefault((o, s), v)
                for a, o, s in list(m):
                    if a == A[0][1] and o < A[0][2] + n and A[0][2] < o + s:
                        del m[(a, o, s)]
                for (o, s), v in src.items():
                    m[(A[0][1], o - A[1][2] + A[0][2], s)] = v
            else:
                m = {}
            return [(R, m, A[0])]
        if nm and nm.startswith('llvm.'):
            return [(R, mem, TOP)]
        c = self.prog.resolve(fn, nm) if nm else None
        if c is None:
            m = {k: v for k, v in mem.items() if not any(a[0] == 'ptr' and a[1] == k[0] for a in A)}
            return [(R, m, TOP)]
        return [(R1, m1, v) for R1, m1, v, _ in self.run(c, A, R, mem, depth + 1)]


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
