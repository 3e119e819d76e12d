"""Forward must-dataflow of facts, composed interprocedurally by substitution of value origins.

A rule object R provides
  call(M, fn, i, name, callee, args, st) -> None (descend into a defined callee / ignore) or (gen, kill)
  ins(M, fn, i, st)                      -> (gen, kill) for other instructions
  edge(M, fn, cond, truth, st)           -> facts that hold if the i1 value `cond` is `truth`
Facts and requirements are tuples; frozensets in them are sets of value origins (see flow.py) and are substituted at calls.
M.need(fn, i, req): requirement at this instruction; unmet ones (R.met(req, st) false) are handed to the callers.
`kill` is a set of fact tags (first elements)."""
from .flow import flow


class Sum:
    __slots__ = ('unmet', 'out', 'kill', 'states', 'inn')


class Must:
    def __init__(self, prog, rules, maxiter=4000):
        self.prog, self.F, self.R = prog, flow(prog), rules
        self.memo = {}
        self.max = maxiter
        self.cur = []

    def need(self, req):
        self.cur[-1].append(req)

    def subst(self, t, args):
        return tuple(self.F.substset(x, args) if isinstance(x, frozenset) else x for x in t)

    def summary(self, fn):
        s = self.memo.get(fn.key)
        if s is not None:
            return s
        s = self.memo[fn.key] = Sum()
        s.unmet, s.out, s.kill, s.states = set(), frozenset(), frozenset(), {}
        inn = {0: frozenset()}
        work = [0]
        unmet = {}
        outs = {}
        kills = set()
        n = 0
        pos = {b: k for k, b in enumerate(fn.rpo)}
        while work and n < self.max:
            n += 1
            work.sort(key=lambda b: pos[b])
            b = work.pop(0)
            st = set(inn[b])
            for i in fn.blocks[b]:
                self.step(fn, i, st, unmet, kills, s)
            t = fn.blocks[b][-1]
            if t['op'] == 'ret':
                outs[b] = frozenset(st)
            for x in fn.succ[b]:
                e = frozenset(st | self.edge(fn, t, x, st))
                if x not in inn:
                    inn[x] = e
                    work.append(x)
                else:
                    j = self.join(inn[x], e)
                    if j != inn[x]:
                        inn[x] = j
                        if x not in work:
                            work.append(x)
        for v in unmet.values():
            s.unmet |= v
        o = None
        for v in outs.values():
            o = v if o is None else self.join(o, v)
        s.out = o or frozenset()
        s.kill = frozenset(kills)
        s.inn = inn
        return s

    def join(self, a, b):
        f = getattr(self.R, 'join', None)
        return f(a, b) if f else a & b

    def edge(self, fn, t, x, st):
        if t['op'] == 'switch':
            f = getattr(self.R, 'switch', None)
            return f(self, fn, t, x, st) if f else set()
        if t['op'] != 'br' or 'cond' not in t or t['succ'][0] == t['succ'][1]:
            return set()
        c, truth = t['cond'], t['succ'][0] == x
        while c[0] == 'v':
            i = fn.defs[c[1]]
            if i['op'] == 'xor' and i.get('ty') == 'i1':
                truth = not truth
            elif i['op'] in ('icmp',) and i['pred'] in ('eq', 'ne') and isz(i['args'][1]) and boolish(fn, i['args'][0]):
                if i['pred'] == 'eq':
                    truth = not truth
            elif i['op'] not in ('zext', 'freeze', 'trunc'):
                break
            c = i['args'][0]
        if c[0] != 'v':
            return set()
        return self.R.edge(self, fn, fn.defs[c[1]], truth, st) or set()

    def step(self, fn, i, st, unmet, kills, s):
        self.cur.append([])
        gen, kill = set(), set()
        sub = []
        if i['op'] == 'call':
            g0 = None
            for nm, c in self.F.targets(fn, i) or [('?', None)]:
                r = self.R.call(self, fn, i, nm, c, st)
                if r is None and c is not None:
                    cs = self.summary(c)
                    args = None
                    g = set()
                    if cs.out or cs.unmet:
                        args = [self.F.val(fn, o) for o in i['args']]
                    for f in cs.out:
                        g.add(self.subst(f, args))
                    for req, site in cs.unmet:
                        sub.append((self.subst(req, args), site))
                    kill |= cs.kill
                elif r is None:
                    g = set()
                else:
                    g = set(r[0])
                    kill |= set(r[1])
                g0 = g if g0 is None else g0 & g
            gen = g0 or set()
        else:
            r = self.R.ins(self, fn, i, st)
            if r:
                gen, kill = set(r[0]), set(r[1])
        u = set()
        me = (fn.key, i['i'])
        for req in self.cur.pop():
            if not self.R.met(self, req, st):
                u.add((req, me))
        for req, site in sub:
            if not self.R.met(self, req, st):
                u.add((req, site))
        unmet[i['i']] = u
        kills |= kill
        if kill:
            st.difference_update({f for f in st if f[0] in kill})
        st |= gen


def isz(o):
    return o[0] in ('n', 'z') or (o[0] == 'i' and o[1] == 0)


def boolish(fn, o):
    """o is an i1 value or an extension of one"""
    if o[0] != 'v':
        return False
    i = fn.defs[o[1]]
    return i.get('ty') == 'i1' or i['op'] == 'zext' and boolish(fn, i['args'][0])
