"""Rules for state that is saved once per transaction, restored by undo and released by finish (errno, floating-point state).

The saved field, its flag and the flag's bit are found in the source: the field is where the current value is stored to, the flag is
the field of the same structure whose bit the store depends on."""
from .must import Must, isz


def fieldof(F, fn, o):
    """(struct, idx) that address operand o designates, if unique and not in a local variable"""
    r = set()
    for d in F.val(fn, o):
        if d[0] != '&':
            return None
        f = [x for x in d[2] if x[0] == 'f']
        if not f or d[1][0] == 'alloca':
            return None
        r.add((f[-1][1], f[-1][2]))
    return r.pop() if len(r) == 1 else None


def bittest(F, fn, o, seen=0):
    """(struct, idx, mask) if operand o is `field & mask`, a loaded boolean field, or the result of a function that returns that;
    with polarity: (.., True) means nonzero iff the bit is set"""
    if seen > 6 or o[0] != 'v':
        return None
    i = fn.defs[o[1]]
    op = i['op']
    if op in ('zext', 'sext', 'freeze', 'trunc'):
        r = bittest(F, fn, i['args'][0], seen + 1)
        return r
    if op == 'xor':
        r = bittest(F, fn, i['args'][0], seen + 1)
        return r and r[:3] + (not r[3],)
    if op == 'icmp' and i['pred'] in ('eq', 'ne'):
        r = bittest(F, fn, i['args'][0], seen + 1)
        if r and isz(i['args'][1]):
            return r[:3] + (r[3] == (i['pred'] == 'ne'),)
        if r and i['args'][1][0] == 'i' and i['args'][1][1] == r[2]:
            return r[:3] + (r[3] == (i['pred'] == 'eq'),)
        return None
    if op == 'and' and i['args'][1][0] == 'i' or op == 'and' and i['args'][0][0] == 'i':
        a, b = i['args'] if i['args'][1][0] == 'i' else i['args'][::-1]
        f = loaded(F, fn, a)
        if f:
            return (f[0], f[1], b[1], True)
        return None
    if op == 'load':
        f = loaded(F, fn, o)
        return f and (f[0], f[1], 1, True)
    if op == 'call' and i['fn'][0] == 'F':
        c = F.prog.resolve(fn, i['fn'][1])
        if c is None:
            return None
        rs = [j for j in c.instrs() if j['op'] == 'ret' and j.get('args')]
        if len(rs) == 1:
            return bittest(F, c, rs[0]['args'][0], seen + 1)
    return None


def loaded(F, fn, o):
    if o[0] != 'v':
        return None
    i = fn.defs[o[1]]
    if i['op'] in ('zext', 'sext', 'freeze', 'trunc'):
        return loaded(F, fn, i['args'][0])
    if i['op'] != 'load':
        return None
    return fieldof(F, fn, i['args'][0])


class SaveOnce:
    """facts: ('set', struct, idx, mask), ('clear', struct, idx, mask), ('stored', name), ('saved', name), ('restored', name), ('failed',)"""

    def __init__(self, states):
        self.states = states            # name -> State
        self.flags = {}                 # name -> (struct, idx, mask) once bound

    def err(self, fn, i, nm):
        return nm.startswith('picotm_error_set_') or nm == 'picotm_error_mark_as_non_recoverable'

    def call(self, M, fn, i, nm, c, st):
        if self.err(fn, i, nm):
            return ([('failed',)], ())
        for s in self.states.values():
            r = s.call(self, M, fn, i, nm, c, st)
            if r is not None:
                return r
        return None

    def ins(self, M, fn, i, st):
        if i['op'] != 'store':
            return None
        f = fieldof(M.F, fn, i['args'][1])
        gen, kill = set(), set()
        if f:
            v = i['args'][0]
            if isz(v):
                for n, b in self.flags.items():
                    if b[:2] == f:
                        gen.add(('clear',) + b)
                        gen.add(('released', n))
                        kill.add('set')
            elif v[0] == 'v':
                d = fn.defs[v[1]]
                while d['op'] in ('zext', 'trunc', 'freeze') and d['args'][0][0] == 'v':
                    d = fn.defs[d['args'][0][1]]
                k = [a for a in d.get('args', ()) if a[0] == 'i']
                for n, b in self.flags.items():
                    if b[:2] != f:
                        continue
                    if d['op'] == 'or' and k and k[0][1] & b[2]:
                        gen |= {('set',) + b, ('marked', n)}
                        if ('stored', n) in st:
                            gen.add(('saved', n))
                        kill.add('clear')
                    elif d['op'] == 'and' and k and not k[0][1] & b[2]:
                        gen |= {('clear',) + b, ('released', n)}
                        kill.add('set')
            elif v[0] == 'i' and v[1]:
                for n, b in self.flags.items():
                    if b[:2] == f and v[1] & b[2]:
                        gen |= {('set',) + b, ('marked', n)}
                        if ('stored', n) in st:
                            gen.add(('saved', n))
                        kill.add('clear')
        for s in self.states.values():
            r = s.ins(self, M, fn, i, st)
            if r:
                gen |= set(r[0])
                kill |= set(r[1])
        return gen, kill

    def edge(self, M, fn, i, truth, st):
        r = set()
        if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in ('picotm_error_is_set', 'picotm_error_is_conflicting') and truth:
            r.add(('failed',))
        b = bittest(M.F, fn, ['v', i['i']])
        if b:
            on = b[3] == truth
            r.add(('set' if on else 'clear',) + b[:3])
            for n, x in self.flags.items():
                if x == b[:3]:
                    r.add(('saved', n) if on else ('restored', n))
        return r

    def met(self, M, req, st):
        if ('failed',) in st:
            return True
        if req[0] == 'clear':
            return any(f[0] == 'clear' and f[1] == req[2] or f == ('marked', req[1]) for f in st)
        if req[0] == 'isset':
            b = self.flags.get(req[1])
            return b is None or ('set',) + b in st
        if req[0] == 'user':
            return all(s.usermet(self, M, req, st) for s in self.states.values())
        return req in st

    def join(self, a, b):
        fa, fb = ('failed',) in a, ('failed',) in b
        if fa and not fb:
            return b
        if fb and not fa:
            return a
        return a & b


class State:
    """one saved value; subclasses tell what saves and restores it"""
    name = ''
    struct = None

    def usermet(self, R, M, req, st):
        return True


def bind(prog, F, R, stores):
    """find the flag that each save depends on: dominating branches on a bit of the same structure, in the saving function or its callers"""
    from .ir import dominates
    for name, sites in stores.items():
        cand = {}
        for fn, i, struct in sites:
            for g in [fn] + [x for x in prog.fns.values() if any(c is fn for _, _, c in prog.callees(x))]:
                for b in g.blocks:
                    t = b[-1]
                    if t['op'] == 'br' and 'cond' in t:
                        x = bittest(F, g, t['cond'])
                        if x and x[0] == struct:
                            cand.setdefault(x[:3], 0)
                            cand[x[:3]] += 2 if g is fn else 1
        if cand:
            R.flags[name] = max(sorted(cand), key=lambda k: cand[k])
