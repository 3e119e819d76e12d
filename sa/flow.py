"""Flow-insensitive value-origin analysis over SSA: where do the operands of a call, or the result of a
function, come from?  Origins are sets of descriptors; calls are composed by substitution, so the arguments of
an operating-system call are described in terms of the parameters of any function above it.

descriptors: ('p', i) parameter | ('i', n) | ('r', name, key of caller, instr) call result | ('ld', desc, path) loaded |
             ('&', desc, path) address of a part | ('alloca', fn key, id) | ('F', name) | ('g', name) | ('fp', x) | ('op', name, (descsets...)) | ('?',)
"""
from .ir import Program

MAX = 24
CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast')
UNK = ('?',)


class Flow:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.stores = {}        # fn key -> {alloca id: [(path, operand)]} or None when escaping
        self.ext = {}           # fn key -> set of (ext name, args, site)
        self.active = set()

    # ---- values inside one function
    def val(self, fn, o, seen=()):
        k = o[0]
        if k == 'a':
            return frozenset([('p', o[1])])
        if k == 'i':
            return frozenset([('i', o[1])])
        if k in ('n', 'z'):
            return frozenset([('i', 0)])
        if k == 'F':
            return frozenset([('F', o[1])])
        if k == 'g':
            return frozenset([('g', o[1])])
        if k == 'fp':
            return frozenset([('fp', str(o[1]))])
        if k == 'u':
            return frozenset()
        if k == 'gep':
            return self.gep(fn, o[1], seen)
        if k == 'ce':
            if o[1] in CASTS:
                return self.val(fn, o[2][0], seen)
            return frozenset([UNK])
        if k != 'v':
            return frozenset([UNK])
        key = (fn.key, o[1])
        r = self.memo.get(key)
        if r is not None:
            return r
        if o[1] in seen:
            return frozenset()
        r = self.ins(fn, fn.defs[o[1]], seen + (o[1],))
        if len(r) > MAX:
            r = frozenset([UNK])
        if not seen:
            self.memo[key] = r
        return r

    def gep(self, fn, g, seen):
        path = tuple(('f', s[1], s[2]) if s[0] == 'f' else ('x',) + ((s[1][1],) if s[1][0] == 'i' else ('*',)) for s in g[1])
        if path and path[0] == ('x', 0):
            path = path[1:]
        out = set()
        for b in self.val(fn, g[0], seen):
            out.add(addr(b, path))
        return frozenset(out)

    def ins(self, fn, i, seen):
        op = i['op']
        if op == 'phi':
            out = set()
            for x in i['in']:
                out |= self.val(fn, x[1], seen)
            return frozenset(out)
        if op == 'select':
            return self.val(fn, i['args'][1], seen) | self.val(fn, i['args'][2], seen)
        if op in CASTS:
            r = self.val(fn, i['args'][0], seen)
            if op == 'trunc':
                w = bits(i.get('ty'))
                r = frozenset(('op', 'trunc', ((d,),)) if w and self.width(fn, d) > w else d for d in r)
            return r
        if op == 'alloca':
            return frozenset([('alloca', fn.key, i['i'])])
        if op == 'getelementptr':
            return self.gep(fn, i['gep'], seen)
        if op == 'load':
            out = set()
            for a in self.val(fn, i['args'][0], seen):
                base, path = (a[1], a[2]) if a[0] == '&' else (a, ())
                if base[0] == 'alloca' and base[1] == fn.key:
                    st = self.local_stores(fn).get(base[2])
                    if st is None:
                        out.add(('ld', base, path))
                    for p, v in st or ():
                        if p == path or UNK in p:
                            out |= self.val(fn, v, seen)
                        elif p == path[:len(p)] or path == p[:len(path)]:
                            out.add(('ld', base, path))
                else:
                    out.add(('ld', base, path))
            return frozenset(out)
        if op == 'call':
            nm = i['fn'][1] if i['fn'][0] == 'F' else '(indirect)'
            return frozenset([('r', nm, fn.key, i['i'])])
        if op in ('atomicrmw', 'cmpxchg'):
            return frozenset([('r', op, fn.key, i['i'])])
        if op == 'icmp':
            return frozenset([('op', 'icmp', ())])
        if op == 'extractvalue':
            return frozenset([('part', d, tuple(i['idx'])) for d in self.val(fn, i['args'][0], seen)])
        if op == 'insertvalue':
            return self.val(fn, i['args'][0], seen) | self.val(fn, i['args'][1], seen)
        if 'args' in i:
            return frozenset([('op', op, tuple(tuple(sorted(self.val(fn, a, seen), key=str)) for a in i['args']))])
        return frozenset([UNK])

    def width(self, fn, d):
        """bits of a parameter or call result (0: unknown)"""
        if d[0] == 'p':
            return bits(fn.args[d[1]])
        if d[0] == 'r' and d[2] == fn.key:
            return bits(fn.defs[d[3]].get('ty'))
        return 0

    def local_stores(self, fn):
        """stores to local variables; None for variables whose address escapes"""
        r = self.stores.get(fn.key)
        if r is not None:
            return r
        r = self.stores[fn.key] = {}
        al = {i['i'] for i in fn.instrs() if i['op'] == 'alloca'}
        for a in al:
            r[a] = []
        ptr = {a: [(a, ())] for a in al}
        for i in fn.instrs():
            if i['op'] == 'getelementptr':
                g = i['gep']
                if g[0][0] == 'v' and g[0][1] in ptr:
                    path = tuple(('f', s[1], s[2]) if s[0] == 'f' else ('x',) + ((s[1][1],) if s[1][0] == 'i' else ('*',)) for s in g[1])
                    if path and path[0] == ('x', 0):
                        path = path[1:]
                    ptr[i['i']] = [(a, p + path) for a, p in ptr[g[0][1]]]
                continue
            if i['op'] == 'store':
                t = i['args'][1]
                if t[0] == 'v' and t[1] in ptr:
                    for a, p in ptr[t[1]]:
                        if r.get(a) is not None:
                            r[a].append((p, i['args'][0]))
                v = i['args'][0]
                if v[0] == 'v' and v[1] in ptr:
                    for a, p in ptr[v[1]]:
                        r[a] = None
                continue
            if i['op'] == 'load':
                continue
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1].startswith(('llvm.lifetime', 'llvm.dbg')):
                continue
            ops = list(i.get('args', ())) + [x[1] for x in i.get('in', ())]
            for o in ops:
                if o[0] == 'v' and o[1] in ptr:
                    for a, p in ptr[o[1]]:
                        r[a] = None
        return r

    # ---- composition
    def subst(self, d, args):
        k = d[0]
        if k == 'p':
            return args[d[1]] if d[1] < len(args) else frozenset([UNK])
        if k == 'ld':
            return frozenset(('ld', b[1], b[2] + d[2]) if b[0] == '&' else ('ld', b, d[2]) for b in self.subst(d[1], args))
        if k == '&':
            return frozenset(addr(b, d[2]) for b in self.subst(d[1], args))
        if k == 'part':
            return frozenset(('part', b, d[2]) for b in self.subst(d[1], args))
        if k == 'op':
            r = []
            for s in d[2]:
                t = set()
                for x in s:
                    t |= self.subst(x, args)
                r.append(tuple(sorted(t, key=str)))
            return frozenset([('op', d[1], tuple(r))])
        return frozenset([d])

    def substset(self, s, args):
        out = set()
        for d in s:
            out |= self.subst(d, args)
        return frozenset(out) if len(out) <= MAX else frozenset([UNK])

    def targets(self, fn, i):
        if i['fn'][0] == 'F':
            return [(i['fn'][1], self.prog.resolve(fn, i['fn'][1]))]
        return [(c.name if c is not None else '?', c) for c in (self.prog.icall_targets(fn, i) or ())]

    def calls(self, fn, want, stop=None, depth=0):
        """calls of functions whose name satisfies want(), reached from fn: (name, argument origins in terms of fn's parameters, (fn key, instr), chain)"""
        memo = self.ext.setdefault((want, stop), {})
        r = memo.get(fn.key)
        if r is not None:
            return r
        memo[fn.key] = []
        out = {}
        for i in fn.instrs():
            if i['op'] != 'call':
                continue
            tg = self.targets(fn, i)
            args = None
            for nm, c in tg:
                if want(nm):
                    if args is None:
                        args = tuple(self.val(fn, o) for o in i['args'])
                    out[(nm, args, (fn.key, i['i']))] = ()
                    if c is None:
                        continue
                if c is None or stop and stop(c):
                    continue
                sub = self.calls(c, want, stop, depth + 1)
                if sub:
                    if args is None:
                        args = tuple(self.val(fn, o) for o in i['args'])
                    for n2, a2, site, chain in sub:
                        a3 = tuple(self.substset(s, args) for s in a2)
                        if len(out) < 400:
                            out.setdefault((n2, a3, site), (c.name,) + chain)
        memo[fn.key] = [(n, a, s, ch) for (n, a, s), ch in out.items()]
        return memo[fn.key]

    def rets(self, fn, depth=0):
        """origins of the result of fn, through the results of defined callees"""
        key = ('ret', fn.key)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = frozenset()
        out = set()
        for i in fn.instrs():
            if i['op'] == 'ret' and i.get('args'):
                for d in self.val(fn, i['args'][0]):
                    out |= self.expand(fn, d)
        self.memo[key] = frozenset(out)
        return self.memo[key]

    def expand(self, fn, d):
        if d[0] != 'r' or d[2] != fn.key:
            return {d}
        i = fn.defs[d[3]]
        if i['op'] != 'call':
            return {d}
        out = set()
        args = None
        for nm, c in self.targets(fn, i) or [('?', None)]:
            if c is None:
                out.add(d if i['fn'][0] == 'F' else ('r', nm, fn.key, i['i']))
                continue
            if args is None:
                args = tuple(self.val(fn, o) for o in i['args'])
            for x in self.rets(c):
                for y in self.subst(x, args):
                    out |= self.expand(fn, y) if y != d else {y}
        return out


def bits(t):
    return int(t[1:]) if isinstance(t, str) and t[:1] == 'i' and t[1:].isdigit() else 0


def addr(b, path):
    if not path:
        return b
    if b[0] == '&':
        return ('&', b[1], b[2] + path)
    return ('&', b, path)


def flow(prog):
    if getattr(prog, '_flow', None) is None:
        prog._flow = Flow(prog)
    return prog._flow
