"""Event records: where operations are recorded, with which data, and which handlers replay them."""
from .flow import flow, UNK
from .checks.p25 import handlers


def walk(F, root, maxdepth=9, want=None):
    """every call and gep in functions reached from root by direct calls: (fn, ins, args, chain); args are the operands' origins in terms of
    root's parameters; chain is the list of (fn, call instr) leading here"""
    out = []

    def go(fn, env, chain, active):
        for i in fn.instrs():
            if i['op'] == 'call':
                args = [F.substset(F.val(fn, o), env) if env is not None else F.val(fn, o) for o in i['args']]
                out.append((fn, i, args, chain, env))
                if i['fn'][0] == 'F':
                    c = F.prog.resolve(fn, i['fn'][1])
                    if c is not None and c.key not in active and len(chain) < maxdepth and (want is None or want(c)):
                        go(c, args, chain + ((fn, i),), active | {c.key})
            elif 'gep' in i or i['op'] in ('load', 'store'):
                out.append((fn, i, None, chain, env))
    go(root, None, (), {root.key})
    return out


def orig(F, fn, o, env):
    v = F.val(fn, o)
    return v if env is None else F.substset(v, env)


class Table:
    """constant array of function pointers"""

    def __init__(self, prog, name, g):
        self.name, self.g = name, g
        self.el = []
        for e in g['init'][1]:
            self.el.append(None if e[0] != 'F' else (prog.local.get((g['unit'], e[1])) or prog.ext.get((g['lib'], e[1])) or next((x for x in prog.by_name.get(e[1], ()) if not x.internal), None)))


def table(prog, name, fn=None):
    if fn is not None:
        g = prog.global_(fn, name)
        if g and g['init'] and g['init'][0] == 'A':
            return Table(prog, name, g)
    for (a, n), g in prog.globals.items():
        if n == name and isinstance(a, int) and g['const'] and g['init'] and g['init'][0] == 'A' and any(e[0] == 'F' for e in g['init'][1]):
            return Table(prog, name, g)
    return None


class Dispatch:
    """one indirect call of a handler reached from a module's apply_event or undo_event callback"""
    __slots__ = ('table', 'index', 'args', 'site', 'fn', 'chain', 'env', 'ins', 'each')

    def argsof(self, op):
        return self.each.get(op, self.args) if self.each else self.args


class Cases:
    """handlers that are called directly, selected by comparing the number of the operation"""

    def __init__(self, fn, el, idle=False):
        self.name, self.g = fn.key, None
        self.idle = idle            # other operations return without doing anything
        self.el = [el.get(k) for k in range(max(el) + 1)]


def number(vs):
    """values are the number of the operation: handed in by the transaction, or read from the record"""
    r = set()
    for v in vs:
        while v[0] == 'op' and v[1] in ('trunc', 'zext', 'sext') and len(v[2]) == 1 and len(v[2][0]) == 1:
            v = next(iter(v[2][0]))
        r.add(v)
    return len(r) == 1 and all(v == ('p', 0) or v[0] == 'ld' and v[2] and v[2][-1][0] == 'f' and v[2][-1][1].endswith('_event') for v in r)


def cases(F, fn, env):
    """block that is entered for just one number of the operation: {number: block}"""
    out = {}
    for b in fn.blocks:
        t = b[-1]
        if t['op'] == 'switch':
            o = t.get('cond') or t['args'][0]
            if number(orig(F, fn, o, env)):
                for v, s in t['cases']:
                    out.setdefault(v[1] if isinstance(v, (list, tuple)) else v, s)
        elif t['op'] == 'br' and t.get('cond') and t['cond'][0] == 'v':
            d = fn.defs[t['cond'][1]]
            if d['op'] == 'icmp' and d.get('pred') in ('eq', 'ne') and d['args'][1][0] == 'i' and number(orig(F, fn, d['args'][0], env)):
                out.setdefault(d['args'][1][1], t['succ'][0 if d['pred'] == 'eq' else 1])
    return out


def idle(F, fn, env, cs):
    """numbers without a case of their own reach the return without a call"""
    dest = set()
    for b in fn.blocks:
        t = b[-1]
        if t['op'] == 'switch' and number(orig(F, fn, t.get('cond') or t['args'][0], env)):
            dest.add(t['def'])
    if len(dest) != 1:
        return False
    seen, todo = set(), list(dest)
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        if any(i['op'] in ('call', 'store', 'unreachable') for i in fn.blocks[b]):
            return False
        todo += fn.succ[b]
    return True


def called(F, fn, b):
    """first function of the project that is called from block b on"""
    seen = set()
    while b not in seen and (not seen or len(fn.pred[b]) == 1):
        seen.add(b)
        for i in fn.blocks[b]:
            if i['op'] == 'call' and i['fn'][0] == 'F':
                c = F.prog.resolve(fn, i['fn'][1])
                if c is not None and c.lib == fn.lib:
                    return i, c
        if len(fn.succ[b]) != 1:
            break
        b = fn.succ[b][0]
    return None


def dispatches(prog, F, cb):
    """handler tables used below callback cb"""
    out = []
    seen = set()
    for fn, i, args, chain, env in walk(F, cb):
        if i['op'] == 'call' and i['fn'][0] == 'F' and (fn.key, tuple((f.key, j['i']) for f, j in chain)) not in seen:
            seen.add((fn.key, tuple((f.key, j['i']) for f, j in chain)))
            cs = cases(F, fn, env)
            if len(cs) > 1:
                hs = {k: called(F, fn, b) for k, b in cs.items() if k >= 0}
                hs = {k: h for k, h in hs.items() if h}
                if len(hs) > 1:
                    x = Dispatch()
                    k0 = min(hs)
                    x.table, x.fn, x.ins, x.chain, x.env = Cases(fn, {k: h[1] for k, h in hs.items()}, idle(F, fn, env, cs)), fn, hs[k0][0], chain, env
                    x.index = frozenset([('p', 0)])
                    for b in fn.blocks:
                        t = b[-1]
                        o = None
                        if t['op'] == 'switch':
                            o = t.get('cond') or t['args'][0]
                        elif t['op'] == 'br' and t.get('cond') and t['cond'][0] == 'v' and fn.defs[t['cond'][1]]['op'] == 'icmp':
                            o = fn.defs[t['cond'][1]]['args'][0]
                        if o is not None and number(orig(F, fn, o, env)):
                            x.index = orig(F, fn, o, env)
                    x.each = {k: [orig(F, fn, o, env) for o in h[0]['args']] for k, h in hs.items()}
                    x.args = x.each[k0]
                    x.site = (fn.key, hs[k0][0]['i'])
                    out.append(x)
        if i['op'] != 'call' or i['fn'][0] != 'v':
            continue
        d = fn.defs[i['fn'][1]]
        while d['op'] in ('phi', 'select', 'bitcast') and 'args' in d:
            d = fn.defs[d['args'][0][1]]
        if d['op'] != 'load':
            continue
        a = d['args'][0]
        g = fn.defs[a[1]].get('gep') if a[0] == 'v' else a[1] if a[0] == 'gep' else None
        if not isinstance(g, list):
            continue
        base = orig(F, fn, g[0], env)
        if len(base) != 1:
            continue
        b = next(iter(base))
        while b[0] == '&':
            b = b[1]
        if b[0] != 'g':
            continue
        t = None
        for f2 in [fn] + [c for c, _ in reversed(chain)]:
            t = table(prog, b[1], f2)
            if t:
                break
        if not t:
            continue
        x = Dispatch()
        x.table, x.fn, x.ins, x.chain, x.env = t, fn, i, chain, env
        idx = [s[1] for s in g[1] if s[0] == 'x']
        x.index = orig(F, fn, idx[-1], env) if idx else frozenset([UNK])
        x.args = args
        x.each = None
        x.site = (fn.key, i['i'])
        out.append(x)
    return out


def struct_of_gep(i):
    g = i['gep']
    for s in g[1]:
        if s[0] == 'x' and len(s) > 3 and isinstance(s[3], str) and s[3].startswith('struct.'):
            return s[3], s[1]
        break
    return None, None


def deep(F, fn, d, env, depth=0):
    """expands the results of defined functions inside descriptor d (of function fn, already in terms of the root) where the call is in fn"""
    if depth > 6:
        return {d}
    k = d[0]
    if k == 'r':
        f2 = F.prog.fns.get(d[2])
        i = f2.defs.get(d[3]) if f2 else None
        if i is not None and i['op'] == 'call' and i['fn'][0] == 'F':
            c = F.prog.resolve(f2, i['fn'][1])
            if c is not None:
                out = set()
                args = [F.val(f2, o) for o in i['args']]
                for x in F.rets(c):
                    for y in F.subst(x, args):
                        out |= deep(F, f2, y, env, depth + 1) if y != d else {y}
                if 0 < len(out) <= 12:
                    return out
        return {d}
    if k in ('&', 'ld'):
        r = set()
        for b in deep(F, fn, d[1], env, depth + 1):
            if b[0] == '&':
                r.add((k, b[1], b[2] + d[2]))
            else:
                r.add((k, b, d[2]))
        return r
    return {d}


def deepset(F, fn, s, env=None):
    out = set()
    for d in s:
        out |= deep(F, fn, d, env)
    return frozenset(out)


class Recorder:
    """function that fills an event record and registers it with the transaction"""
    __slots__ = ('fn', 'append', 'struct', 'fields', 'head', 'tail')


def recorders(prog, F):
    out = []
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        for i in fn.instrs():
            if i['op'] == 'call' and i['fn'] == ['F', 'picotm_append_event'] and fn.lib != 'core':
                r = Recorder()
                r.fn, r.append = fn, i
                r.head, r.tail = F.val(fn, i['args'][1]), i['args'][2]
                out.append(r)
    return out


def tailparts(F, fn, o):
    """tail operand as (event pointer operand, base operand, element size)"""
    while o[0] == 'v' and fn.defs[o[1]]['op'] in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'freeze', 'bitcast'):
        o = fn.defs[o[1]]['args'][0]
    if o[0] != 'v':
        return None
    i = fn.defs[o[1]]
    size = 1
    if i['op'] in ('sdiv', 'udiv') and i['args'][1][0] == 'i':
        size = i['args'][1][1]
        o = i['args'][0]
    elif i['op'] in ('ashr', 'lshr') and i['args'][1][0] == 'i':
        size = 1 << i['args'][1][1]
        o = i['args'][0]
    else:
        return None
    if o[0] != 'v' or fn.defs[o[1]]['op'] != 'sub':
        return None
    a, b = fn.defs[o[1]]['args']
    return strip(fn, a), strip(fn, b), size


def strip(fn, o):
    while o[0] == 'v' and fn.defs[o[1]]['op'] in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'zext', 'sext'):
        o = fn.defs[o[1]]['args'][0]
    return o
