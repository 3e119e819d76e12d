"""Disjunctive abstract interpretation of integer functions of one or two arguments.

An abstract state is a region of the arguments l and r (an octagon: bounds of l, r, l+r, l-r; plus bounds of the product l*r) together with a
value for every SSA register, exact as a form in l and r modulo the register's width. Comparisons split the region; wrapping splits it too.
Quotients by l or r are kept and related to the product when they are compared. The evaluation of a function maps regions to returned forms."""
from fractions import Fraction
from .build import AnalysisBroken

LIM = 400


class Region:
    __slots__ = ('l', 'r', 's', 'd', 'p')

    def __init__(self, l, r, s=None, d=None, p=(None, None)):
        self.l, self.r = l, r
        self.s = s or (l[0] + r[0], l[1] + r[1])
        self.d = d or (l[0] - r[1], l[1] - r[0])
        self.p = p

    def copy(self, **k):
        n = Region(self.l, self.r, self.s, self.d, self.p)
        for a, b in k.items():
            setattr(n, a, b)
        return n.close()

    def close(self):
        for _ in range(12):
            o = (self.l, self.r, self.s, self.d)
            l, r, s, d = o
            s = cap(s, (l[0] + r[0], l[1] + r[1]))
            d = cap(d, (l[0] - r[1], l[1] - r[0]))
            l = cap(cap(l, (s[0] - r[1], s[1] - r[0])), cap((d[0] + r[0], d[1] + r[1]), (-((-(s[0] + d[0])) // 2), (s[1] + d[1]) // 2)))
            r = cap(cap(r, (s[0] - l[1], s[1] - l[0])), cap((l[0] - d[1], l[1] - d[0]), (-((-(s[0] - d[1])) // 2), (s[1] - d[0]) // 2)))
            self.l, self.r, self.s, self.d = l, r, s, d
            if any(x[0] > x[1] for x in (l, r, s, d)):
                return None
            if o == (l, r, s, d):
                break
        a, b = self.prod()
        if a > b:
            return None
        return self

    def prod(self):
        c = [x * y for x in self.l for y in self.r]
        lo, hi = min(c), max(c)
        if self.p[0] is not None:
            lo = max(lo, self.p[0])
        if self.p[1] is not None:
            hi = min(hi, self.p[1])
        return lo, hi

    def bounds(self, f):
        """bounds of a*l + b*r + c"""
        a, b, c = f
        if (a, b) == (1, 1):
            x = self.s
        elif (a, b) == (-1, -1):
            x = (-self.s[1], -self.s[0])
        elif (a, b) == (1, -1):
            x = self.d
        elif (a, b) == (-1, 1):
            x = (-self.d[1], -self.d[0])
        else:
            u = sorted((a * self.l[0], a * self.l[1]))
            v = sorted((b * self.r[0], b * self.r[1]))
            x = (u[0] + v[0], u[1] + v[1])
        return x[0] + c, x[1] + c

    def restrict(self, f, lo, hi):
        """region where lo <= a*l+b*r+c <= hi; None if empty"""
        a, b, c = f
        L = None if lo is None else lo - c
        H = None if hi is None else hi - c
        if (a, b) == (0, 0):
            return self if (L is None or L <= 0) and (H is None or H >= 0) else None
        k = {(1, 1): ('s', 1), (-1, -1): ('s', -1), (1, -1): ('d', 1), (-1, 1): ('d', -1)}.get((a, b))
        if k is None and b == 0:
            k = ('l', a)
        elif k is None and a == 0:
            k = ('r', b)
        if k is None:
            x = self.bounds((a, b, 0))
            return None if (L is not None and x[1] < L) or (H is not None and x[0] > H) else self
        fld, m = k
        if m < 0:
            L, H = (None if H is None else -H), (None if L is None else -L)
            m = -m
        old = getattr(self, fld)
        nl = old[0] if L is None else max(old[0], -((-L) // m))
        nh = old[1] if H is None else min(old[1], H // m)
        if nl > nh:
            return None
        return self.copy(**{fld: (nl, nh)})

    def withp(self, lo, hi):
        p = (lo if self.p[0] is None else self.p[0] if lo is None else max(lo, self.p[0]), hi if self.p[1] is None else self.p[1] if hi is None else min(hi, self.p[1]))
        return self.copy(p=p)

    def show(self, one=False):
        def iv(x):
            return str(x[0]) if x[0] == x[1] else '%d..%d' % x
        return iv(self.l) if one else '(%s, %s)' % (iv(self.l), iv(self.r))


def cap(a, b):
    return max(a[0], b[0]), min(a[1], b[1])


def width(t):
    return int(t[1:]) if t and t[0] == 'i' and t[1:].isdigit() else None


def const(k, w):
    return ('A', w, (0, 0, k))


class Eval:
    """evaluates functions; `report(fn, name)` tells whether a call reports an error (and which): such a path ends there"""

    def __init__(self, prog, report):
        self.prog, self.report = prog, report
        self.issues = []
        self.n = 0

    # ---- interpretation of residues
    def math(self, R, v, signed):
        """[(region, form)]: v as a mathematical value of its width; form ('A', (a,b,c)) | ('P', m) | ('Q', C, k, var) | ('D',) | None"""
        if v[0] == 'A':
            w, f = v[1], v[2]
            M = 1 << w
            base = -(M >> 1) if signed else 0
            lo, hi = R.bounds(f)
            k0, k1 = (lo - base) // M, (hi - base) // M
            if k1 - k0 > 6:
                return [(R, None)]
            out = []
            for k in range(k0, k1 + 1):
                R2 = R.restrict(f, base + k * M, base + k * M + M - 1)
                if R2 is not None:
                    out.append((R2, ('A', (f[0], f[1], f[2] - k * M))))
            return out
        w = v[1]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if v[0] == 'P':
            a, b = sorted((v[2] * R.prod()[0], v[2] * R.prod()[1]))
            return [(R, ('P', v[2]) if lo <= a and b <= hi else None)]
        if v[0] == 'Q':
            b = self.qbounds(R, v)
            return [(R, ('Q',) + v[2:] if b and lo <= b[0] and b[1] <= hi else None)]
        if v[0] == 'D':
            b = self.dbounds(R)
            return [(R, ('D',) if b and lo <= b[0] and b[1] <= hi else None)]
        return [(R, None)]

    def var(self, R, n, k=1):
        x = R.l if n == 'l' else R.r
        return x if k == 1 else (-x[1], -x[0])

    def qbounds(self, R, v):
        x = self.var(R, v[4], v[3])
        if x[0] <= 0 <= x[1]:
            return None
        c = [tdiv(v[2], e) for e in x]
        return min(c), max(c)

    def dbounds(self, R):
        if R.r[0] <= 0 <= R.r[1]:
            return None
        c = [tdiv(a, b) for a in R.l for b in R.r]
        return min(c + [0] if R.l[0] <= 0 <= R.l[1] else c), max(c + [0] if R.l[0] <= 0 <= R.l[1] else c)

    # ---- comparison of mathematical forms: [(region, truth or None)]
    def less(self, R, x, y, strict):
        """x < y (strict) or x <= y"""
        if x is None or y is None:
            return [(R, True), (R, False)]
        if x[0] == 'A' and y[0] == 'A':
            f = tuple(a - b for a, b in zip(x[1], y[1]))
            out = []
            a = R.restrict(f, None, -1 if strict else 0)
            b = R.restrict(f, 0 if strict else 1, None)
            return [(q, t) for q, t in ((a, True), (b, False)) if q is not None]
        if x[0] == 'P' and y[0] == 'A' and y[1][:2] == (0, 0):
            c = y[1][2]
            m = x[1]
            k = c - 1 if strict else c
            return self.pcmp(R, m, k)
        if y[0] == 'P' and x[0] == 'A' and x[1][:2] == (0, 0):
            # c < m p  <=>  not (m p <= c)
            c = x[1][2]
            return [(q, not t) for q, t in self.pcmp(R, y[1], c if strict else c - 1)]
        if x[0] == 'Q' and y[0] == 'A':
            return self.qcmp(R, x, y, 'lt' if strict else 'le')
        if x[0] == 'A' and y[0] == 'Q':
            return self.qcmp(R, y, x, 'gt' if strict else 'ge')
        return [(R, True), (R, False)]

    def pcmp(self, R, m, k):
        """m*p <= k"""
        if m == 1:
            a, b = R.withp(None, k), R.withp(k + 1, None)
        else:
            a, b = R.withp(-k, None), R.withp(None, -k - 1)
        return [(q, t) for q, t in ((a, True), (b, False)) if q is not None]

    def qcmp(self, R, q, y, rel):
        """trunc(C/x) rel y for x = k*var and y = m*other: related to the sign of C - x*y"""
        C, k, var = q[1:]
        a, b, c = y[1]
        other = 'r' if var == 'l' else 'l'
        m = a if other == 'l' else b
        both = [(R, True), (R, False)]
        if c or (b if other == 'l' else a) or m not in (1, -1):
            bd = R.bounds(y[1])
            qb = self.qbounds(R, ('Q', 0) + tuple(q[1:]))
            if qb:
                for t, ok in ((True, {'lt': qb[1] < bd[0], 'le': qb[1] <= bd[0], 'gt': qb[0] > bd[1], 'ge': qb[0] >= bd[1]}[rel]),
                              (False, {'lt': qb[0] >= bd[1], 'le': qb[0] > bd[1], 'gt': qb[1] <= bd[0], 'ge': qb[1] < bd[0]}[rel])):
                    if ok:
                        return [(R, t)]
            return both
        x = self.var(R, var, k)
        if x[0] <= 0 <= x[1]:
            return both
        xpos = x[0] > 0
        floor = (C >= 0) == xpos
        if C == 0:
            # quotient is zero
            f = {'lt': (1, None), 'ge': (None, 0), 'gt': (None, -1), 'le': (0, None)}[rel]
            t = R.restrict(y[1], *f)
            e = {'lt': (None, 0), 'ge': (1, None), 'gt': (0, None), 'le': (None, -1)}[rel]
            u = R.restrict(y[1], *e)
            return [(z, w) for z, w in ((t, True), (u, False)) if z is not None]
        # floor(C/x) < y <=> C/x < y ; ceil(C/x) > y <=> C/x > y
        if floor and rel in ('lt', 'ge'):
            lt = True
        elif not floor and rel in ('gt', 'le'):
            lt = False
        else:
            return both
        # real comparison: C/x < y (lt) or C/x > y;  times x: C < x*y if (lt == xpos) else C > x*y
        km = k * m
        if lt == xpos:
            # C < km*p
            res = [(z, not t) for z, t in self.pcmp(R, km, C)]
        else:
            # km*p < C
            res = self.pcmp(R, km, C - 1)
        return res if rel in ('lt', 'gt') else [(z, not t) for z, t in res]

    def cmp(self, R, pred, x, y):
        """[(region, bool)] of an integer comparison of values of equal width"""
        signed = pred[0] == 's'
        out = []
        if pred in ('eq', 'ne'):
            for R1, a in self.math(R, x, True):
                for R2, b in self.math(R1, y, True):
                    if a is None or b is None or a[0] != 'A' or b[0] != 'A':
                        if a == b and a is not None:
                            out.append((R2, pred == 'eq'))
                        else:
                            out += [(R2, True), (R2, False)]
                        continue
                    f = tuple(u - v for u, v in zip(a[1], b[1]))
                    for lo, hi, t in ((None, -1, False), (0, 0, True), (1, None, False)):
                        R3 = R2.restrict(f, lo, hi)
                        if R3 is not None:
                            out.append((R3, t == (pred == 'eq')))
            return out
        rel = pred[1:]
        for R1, a in self.math(R, x, signed):
            for R2, b in self.math(R1, y, signed):
                if rel == 'lt':
                    out += self.less(R2, a, b, True)
                elif rel == 'le':
                    out += self.less(R2, a, b, False)
                elif rel == 'gt':
                    out += self.less(R2, b, a, True)
                else:
                    out += self.less(R2, b, a, False)
        return out

    # ---- execution
    def run(self, fn, args, R, depth=0):
        """[(region, ('ret', value) | ('err', kind, where))]"""
        if depth > 8:
            raise AnalysisBroken('recursion in %s' % fn.name)
        out = []
        work = [(0, None, {('a', k): v for k, v in enumerate(args)}, R, 0)]
        while work:
            b, prev, env, R, n = work.pop()
            if n > 64 or len(out) > LIM:
                self.issues.append((fn, fn.blocks[b][0], 'loop', R))
                out.append((R, ('ret', ('T',))))
                continue
            phis = {}
            for i in fn.blocks[b]:
                if i['op'] == 'phi':
                    for p, o in i['in']:
                        if p == prev:
                            phis[i['i']] = self.get(env, o, i.get('ty'))
            env = dict(env)
            for k, v in phis.items():
                env[('v', k)] = v
            states = [(R, env)]
            term = fn.blocks[b][-1]
            for i in fn.blocks[b]:
                if i['op'] == 'phi' or i is term:
                    continue
                new = []
                for R1, e1 in states:
                    for R2, v in self.ins(fn, i, e1, R1, depth):
                        if isinstance(v, tuple) and v and v[0] == 'err':
                            out.append((R2, v))
                            continue
                        e2 = dict(e1)
                        e2[('v', i['i'])] = v
                        new.append((R2, e2))
                states = new
            for R1, e1 in states:
                if term['op'] == 'ret':
                    v = self.get(e1, term['args'][0], fn.ret) if term['args'] else ('T',)
                    out.append((R1, ('ret', v, fn.loc(term))))
                elif term['op'] == 'br' and 'cond' in term:
                    for R2, t in self.truth(R1, self.get(e1, term['cond'], 'i1')):
                        work.append((term['succ'][0 if t else 1], b, e1, R2, n + 1))
                elif term['op'] == 'br':
                    work.append((term['succ'][0], b, e1, R1, n + 1))
                elif term['op'] == 'unreachable':
                    pass
                else:
                    out.append((R1, ('ret', ('T',), fn.loc(term))))
        return out

    def get(self, env, o, ty=None):
        if o[0] == 'i':
            return const(o[1], o[2])
        if o[0] in ('v', 'a'):
            return env.get((o[0], o[1]), ('T',))
        if o[0] == 'fp':
            return ('FC', o[1])
        return ('T',)

    def truth(self, R, c):
        if c[0] == 'A':
            return self.cmp(R, 'ne', c, const(0, 1))
        return [(R, True), (R, False)]

    def bool(self, pieces):
        return [(R, const(int(t), 1)) for R, t in pieces]

    def ins(self, fn, i, env, R, depth):
        op = i['op']
        w = width(i.get('ty'))
        A = [self.get(env, o) for o in i.get('args', [])]
        if op in ('sext', 'zext'):
            out = []
            for R1, f in self.math(R, A[0], op == 'sext') if A[0][0] in 'APQD' else [(R, None)]:
                out.append((R1, self.back(f, w)))
            return out
        if op == 'trunc':
            v = A[0]
            return [(R, (v[0], w) + v[2:] if v[0] in ('A', 'P', 'Q', 'D') else v[1] if v[0] == 'pair' else ('T',))]
        if op == 'lshr' and A[0][0] == 'pair' and i['args'][1][0] == 'i':
            return [(R, ('pair', A[0][2], A[0][2]))]
        if op == 'extractvalue':
            v = A[0]
            if v[0] == 'agg':
                return [(R, v[1][i['idx'][0]])]
            return [(R, ('T',))]
        if op == 'icmp':
            if all(v[0] in 'APQD' for v in A):
                return self.bool(self.cmp(R, i['pred'], A[0], A[1]))
            return [(R, const(1, 1)), (R, const(0, 1))]
        if op == 'select':
            return [(R1, A[1] if t else A[2]) for R1, t in self.truth(R, A[0])]
        if op in ('add', 'sub'):
            if A[0][0] == 'A' and A[1][0] == 'A':
                s = 1 if op == 'add' else -1
                f = tuple(x + s * y for x, y in zip(A[0][2], A[1][2]))
                if i.get('nsw'):
                    for R1, a in self.math(R, A[0], True):
                        for R2, b in self.math(R1, A[1], True):
                            if a and b:
                                lo, hi = R2.bounds(tuple(x + s * y for x, y in zip(a[1], b[1])))
                                if lo < -(1 << (w - 1)) or hi >= 1 << (w - 1):
                                    self.issues.append((fn, i, 'signed overflow', R2))
                return [(R, ('A', w, f))]
            return [(R, ('T',))]
        if op == 'mul':
            return [(R, self.mul(fn, i, A, w, R))]
        if op in ('sdiv', 'udiv'):
            return self.div(fn, i, A, w, R, op == 'sdiv')
        if op in ('and', 'or', 'xor') and all(v[0] == 'A' and v[2][:2] == (0, 0) for v in A):
            a, b = A[0][2][2], A[1][2][2]
            return [(R, const({'and': a & b, 'or': a | b, 'xor': a ^ b}[op], w))]
        if op in ('sitofp', 'uitofp'):
            out = []
            for R1, f in self.math(R, A[0], op == 'sitofp') if A[0][0] in 'APQD' else [(R, None)]:
                out.append((R1, ('F', f[1]) if f and f[0] == 'A' else ('T',)))
            return out
        if op in ('fpext', 'fptrunc', 'freeze', 'bitcast'):
            return [(R, A[0])]
        if op == 'fcmp':
            a, b = A
            t = self.fcmp(R, i['pred'], a, b)
            if t is not None:
                return [(R, const(int(t), 1))]
            return [(R, const(1, 1)), (R, const(0, 1))]
        if op == 'call':
            return self.call(fn, i, A, R, depth)
        return [(R, ('T',))]

    def back(self, f, w):
        if f is None:
            return ('T',)
        if f[0] == 'A':
            return ('A', w, f[1])
        return (f[0], w) + tuple(f[1:])

    def mul(self, fn, i, A, w, R):
        if A[0][0] != 'A' or A[1][0] != 'A':
            return ('T',)
        f, g = A[0][2], A[1][2]
        if g[:2] == (0, 0):
            f, g = g, f
        if f[:2] == (0, 0):
            return ('A', w, tuple(f[2] * x for x in g))
        u, v = unit(f), unit(g)
        if u and v and u[0] != v[0]:
            m = u[1] * v[1]
            if i.get('nsw'):
                a, b = sorted((m * R.prod()[0], m * R.prod()[1]))
                if a < -(1 << (w - 1)) or b >= 1 << (w - 1):
                    self.issues.append((fn, i, 'signed overflow', R))
            return ('P', w, m)
        return ('T',)

    def div(self, fn, i, A, w, R, signed):
        if not all(v[0] == 'A' for v in A):
            return [(R, ('T',))]
        out = []
        for R1, a in self.math(R, A[0], signed):
            for R2, b in self.math(R1, A[1], signed):
                if a is None or b is None:
                    out.append((R2, ('T',)))
                    continue
                z = R2.restrict(b[1], 0, 0)
                if z is not None:
                    self.issues.append((fn, i, 'division by zero', z))
                if signed:
                    z = R2.restrict(b[1], -1, -1)
                    z = z and z.restrict(a[1], -(1 << (w - 1)), -(1 << (w - 1)))
                    if z is not None:
                        self.issues.append((fn, i, 'signed overflow in a division', z))
                for lo, hi in ((None, -1), (1, None)):
                    R3 = R2.restrict(b[1], lo, hi)
                    if R3 is None:
                        continue
                    lo2, hi2 = R3.bounds(a[1])
                    bl, bh = R3.bounds(b[1])
                    if lo2 == hi2 and bl == bh:
                        out.append((R3, const(tdiv(lo2, bl), w)))
                    elif lo2 == hi2 and unit(b[1]):
                        u = unit(b[1])
                        out.append((R3, ('Q', w, lo2, u[1], u[0])))
                    elif bl == bh and abs(bl) == 1:
                        out.append((R3, ('A', w, tuple(bl * x for x in a[1]))))
                    elif a[1] == (1, 0, 0) and b[1] == (0, 1, 0):
                        out.append((R3, ('D', w)))
                    else:
                        out.append((R3, ('T',)))
        return out

    def fcmp(self, R, pred, a, b):
        def iv(v):
            if v[0] == 'F':
                return R.bounds(v[1])
            if v[0] == 'FC':
                try:
                    return (Fraction(v[1]),) * 2
                except ValueError:
                    return None
            return None
        x, y = iv(a), iv(b)
        if x is None or y is None:
            return None
        rel = pred[1:]
        if rel == 'lt':
            return True if x[1] < y[0] else False if x[0] >= y[1] else None
        if rel == 'gt':
            return True if x[0] > y[1] else False if x[1] <= y[0] else None
        if rel == 'le':
            return True if x[1] <= y[0] else False if x[0] > y[1] else None
        if rel == 'ge':
            return True if x[0] >= y[1] else False if x[1] < y[0] else None
        return None

    def call(self, fn, i, A, R, depth):
        nm = i['fn'][1] if i['fn'][0] == 'F' else None
        if nm is None:
            return [(R, ('T',))]
        k = self.report(fn, nm)
        if k is not None:
            return [(R, ('err', k, fn.loc(i)))]
        if nm in ('div', 'ldiv', 'lldiv', 'imaxdiv') and len(A) == 2:
            w = 32 if nm == 'div' else 64
            out = []
            for R1, q in self.div(fn, i, [A[0], A[1]], w, R, True):
                out.append((R1, ('pair', q, ('T',)) if nm == 'div' else ('agg', (q, ('T',)))))
            return out
        if nm.startswith('llvm.') and '.with.overflow.' in nm:
            return self.overflow(fn, i, nm, A, R)
        if nm.startswith('llvm.'):
            return [(R, ('T',))]
        c = self.prog.resolve(fn, nm)
        if c is None:
            return [(R, ('T',))]
        out = []
        for R1, r in self.run(c, A, R, depth + 1):
            out.append((R1, r if r[0] == 'err' else r[1]))
        return out

    def overflow(self, fn, i, nm, A, R):
        op, signed = nm.split('.')[1][1:], nm.split('.')[1][0] == 's'
        w = int(nm.rsplit('.i', 1)[1])
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        out = []
        if any(v[0] != 'A' for v in A):
            return [(R, ('agg', (('T',), const(k, 1)))) for k in (0, 1)]
        for R1, a in self.math(R, A[0], signed):
            for R2, b in self.math(R1, A[1], signed):
                if a is None or b is None:
                    out += [(R2, ('agg', (('T',), const(k, 1)))) for k in (0, 1)]
                    continue
                if op in ('add', 'sub'):
                    s = 1 if op == 'add' else -1
                    f = tuple(x + s * y for x, y in zip(a[1], b[1]))
                    for l, h, t in ((None, lo - 1, 1), (lo, hi, 0), (hi + 1, None, 1)):
                        R3 = R2.restrict(f, l, h)
                        if R3 is not None:
                            out.append((R3, ('agg', (('A', w, f), const(t, 1)))))
                else:
                    v = self.mul(fn, {}, [('A', w, a[1]), ('A', w, b[1])], w, R2)
                    if v[0] == 'P' and v[2] == 1:
                        for l, h, t in ((None, lo - 1, 1), (lo, hi, 0), (hi + 1, None, 1)):
                            R3 = R2.withp(l, h)
                            if R3 is not None:
                                out.append((R3, ('agg', (v, const(t, 1)))))
                    elif v[0] == 'A':
                        for l, h, t in ((None, lo - 1, 1), (lo, hi, 0), (hi + 1, None, 1)):
                            R3 = R2.restrict(v[2], l, h)
                            if R3 is not None:
                                out.append((R3, ('agg', (v, const(t, 1)))))
                    else:
                        out += [(R2, ('agg', (v, const(k, 1)))) for k in (0, 1)]
        return out


def unit(f):
    """+-l or +-r: (name, sign)"""
    if f[2] == 0 and f[1] == 0 and f[0] in (1, -1):
        return 'l', f[0]
    if f[2] == 0 and f[0] == 0 and f[1] in (1, -1):
        return 'r', f[1]
    return None


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q
