"""In-memory program: functions, blocks, CFG, call graph, tables, names."""
import os
from . import build

REPO = build.REPO


class Fn:
    __slots__ = ('prog', 'unit', 'lib', 'name', 'internal', 'file', 'line', 'argn', 'args', 'dty', 'ret', 'blocks',
                 'vis', 'vararg', 'succ', 'pred', 'livein', 'key', 'backedges', 'headers', 'noreturn', '_defs', 'idom', 'rpo', 'users')

    def __repr__(self):
        return '<%s>' % self.key

    def loc(self, ins=None):
        l = ins.get('l') if ins else self.line
        return '%s:%s' % (self.file, l if l else self.line)

    def instrs(self):
        for b in self.blocks:
            for i in b:
                yield i

    @property
    def defs(self):
        if self._defs is None:
            self._defs = {i['i']: i for b in self.blocks for i in b}
        return self._defs

    def block_of(self, iid):
        for bi, b in enumerate(self.blocks):
            for i in b:
                if i['i'] == iid:
                    return bi


def relpath(f, d):
    p = f if os.path.isabs(f) else os.path.join(d or '', f)
    p = os.path.normpath(p)
    try:
        rp = os.path.relpath(os.path.realpath(p), os.path.realpath(REPO))
    except ValueError:
        return p
    return rp if not rp.startswith('..') else p


def vops(o, out):
    """SSA ids used by operand o."""
    k = o[0]
    if k == 'v':
        out.append(o[1])
    return out


def ins_operands(i):
    op = i['op']
    if op == 'phi':
        return [x[1] for x in i['in']]
    r = []
    if 'args' in i:
        r += i['args']
    if op in ('call', 'invoke'):
        r.append(i['fn'])
    if 'gep' in i and isinstance(i['gep'], list):
        g = i['gep']
        r.append(g[0])
        for s in g[1]:
            if s[0] == 'x':
                r.append(s[1])
    if 'cond' in i:
        r.append(i['cond'])
    if 'vla' in i:
        r.append(i['vla'])
    return r


def cfg(fn):
    n = len(fn.blocks)
    fn.succ = [[] for _ in range(n)]
    fn.pred = [[] for _ in range(n)]
    for bi, b in enumerate(fn.blocks):
        t = b[-1]
        if t['op'] == 'br':
            s = list(t['succ'])
        elif t['op'] == 'switch':
            s = [t['def']] + [c[1] for c in t['cases']]
        else:
            s = []
        seen = []
        for x in s:
            if x not in seen:
                seen.append(x)
        fn.succ[bi] = seen
        for x in seen:
            fn.pred[x].append(bi)
    # rpo + dominators + back edges
    order = []
    seen = set()
    stack = [(0, iter(fn.succ[0]))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.succ[s])))
                break
        else:
            order.append(b)
            stack.pop()
    order.reverse()
    fn.rpo = order
    num = {b: k for k, b in enumerate(order)}
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in fn.pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) != new:
                idom[b] = new
                changed = True
    fn.idom = idom
    fn.backedges = set()
    fn.headers = set()
    for b in order:
        for s in fn.succ[b]:
            if dominates(fn, s, b):
                fn.backedges.add((b, s))
                fn.headers.add(s)
    # liveness (SSA live-in per block, phis excluded from live-in uses)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phiuse = [dict() for _ in range(n)]   # block -> {pred: set}
    for bi, b in enumerate(fn.blocks):
        for i in b:
            if i['op'] == 'phi':
                for pb, o in i['in']:
                    if o[0] == 'v':
                        phiuse[bi].setdefault(pb, set()).add(o[1])
                    _ce_uses(o, phiuse[bi].setdefault(pb, set()))
            else:
                for o in ins_operands(i):
                    if o[0] == 'v' and o[1] not in dfn[bi]:
                        use[bi].add(o[1])
            dfn[bi].add(i['i'])
    live = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            out = set()
            for s in fn.succ[b]:
                out |= live[s] - {i['i'] for i in fn.blocks[s] if i['op'] == 'phi'}
                out |= phiuse[s].get(b, set())
            x = use[b] | (out - dfn[b])
            phis = {i['i'] for i in fn.blocks[b] if i['op'] == 'phi'}
            x |= {p for p in phis}
            if x != live[b]:
                live[b] = x
                ch = True
    fn.livein = live


def _ce_uses(o, s):
    return s


def dominates(fn, a, b):
    """block a dominates block b"""
    while True:
        if a == b:
            return True
        nb = fn.idom.get(b)
        if nb is None or nb == b:
            return False
        b = nb


class Program:
    def __init__(self, units=None, extra=()):
        units = list(units if units is not None else build.source_units()) + list(extra)
        self.mods = build.load(units)
        self.fns = {}            # key -> Fn
        self.by_name = {}        # name -> [Fn]
        self.ext = {}            # (lib, name) -> Fn  (external linkage)
        self.local = {}          # (unit, name) -> Fn (internal linkage)
        self.globals = {}        # (unit or lib, name) -> global dict
        self.structs = {}
        self.di = {}
        self.enums = {}
        self.files = []
        for ui, (u, d) in enumerate(self.mods):
            lib, path, srcdir, _ = u
            rp = os.path.relpath(path, REPO) if path.startswith(REPO) else path
            self.files.append(rp)
            self.structs.update({k: v for k, v in d['structs'].items()})
            self.di.update(d['di'])
            for k, v in d['enums'].items():
                self.enums.setdefault(k, {}).update(v)
            for g in d['globals']:
                g['unit'] = ui
                g['lib'] = lib
                self.globals[(ui, g['name'])] = g
                if not g['internal'] and g['init'] is not None:
                    self.globals[(lib, g['name'])] = g
            for f in d['functions']:
                fn = Fn()
                fn.prog = self
                fn.unit = ui
                fn.lib = lib
                fn.name = f['name']
                fn.internal = f['internal']
                fn.file = relpath(f.get('file', path), f.get('dir'))
                fn.line = f.get('line', 0)
                fn.argn = f.get('argn', [])
                fn.args = f['args']
                fn.dty = f.get('dty', [])
                fn.ret = f['ret']
                fn.blocks = f['blocks']
                fn.vis = f['vis']
                fn.vararg = f['vararg']
                fn.noreturn = f.get('noreturn', False)
                fn._defs = None
                cfg(fn)
                if fn.internal:
                    fn.key = '%s:%s' % (rp, fn.name)
                    self.local[(ui, fn.name)] = fn
                else:
                    fn.key = '%s:%s' % (lib, fn.name)
                    self.ext[(lib, fn.name)] = fn
                self.fns[fn.key] = fn
                self.by_name.setdefault(fn.name, []).append(fn)
        self.mods = None
        self.enumval = {}
        for k, v in self.enums.items():
            for n, x in v.items():
                self.enumval.setdefault(n, x)
        self._field_fns = None

    # ---- symbols
    def resolve(self, fn, name):
        """function symbol `name` as seen from fn -> Fn or None (external)"""
        r = self.local.get((fn.unit, name))
        if r is not None:
            return r
        r = self.ext.get((fn.lib, name))
        if r is not None:
            return r
        r = self.ext.get(('core', name))
        if r is not None:
            return r
        c = [f for f in self.by_name.get(name, ()) if not f.internal]
        return c[0] if c else None

    def global_(self, fn, name):
        return self.globals.get((fn.unit, name)) or self.globals.get((fn.lib, name))

    def get(self, name, lib=None, optional=False):
        c = [f for f in self.by_name.get(name, ()) if lib is None or f.lib == lib]
        if not c:
            if optional:
                return None
            raise build.AnalysisBroken('anchor vanished: function %s%s' % (name, ' in ' + lib if lib else ''))
        return c[0]

    def enum(self, name, optional=False):
        if name not in self.enumval:
            if optional:
                return None
            raise build.AnalysisBroken('anchor vanished: enumerator %s' % name)
        return self.enumval[name]

    def fieldname(self, struct, idx):
        s = self.structs.get(struct)
        m = self.di.get(struct)
        if not s or not m:
            return str(idx)
        if idx >= len(s['el']):
            return str(idx)
        off = s['el'][idx][0] * 8
        for n, o, sz, t in m:
            if o == off:
                return n
        return str(idx)

    def fieldidx(self, struct, name, optional=False):
        s = self.structs.get(struct)
        m = self.di.get(struct)
        if s and m:
            for n, o, sz, t in m:
                if n == name:
                    for k, e in enumerate(s['el']):
                        if e[0] * 8 == o:
                            return k
        if optional:
            return None
        raise build.AnalysisBroken('anchor vanished: field %s.%s' % (struct, name))

    # ---- function pointers stored in constant tables: (struct, idx) -> set(Fn)
    def field_functions(self):
        if self._field_fns is None:
            r = {}

            def walk(init, ui, lib):
                if init is None:
                    return
                k = init[0]
                if k == 'S':
                    for n, c in enumerate(init[2]):
                        if c[0] == 'F':
                            f = self.local.get((ui, c[1])) or self.ext.get((lib, c[1])) or \
                                next((x for x in self.by_name.get(c[1], ()) if not x.internal), None)
                            r.setdefault((init[1], n), []).append((f, c[1]))
                        else:
                            walk(c, ui, lib)
                elif k == 'A':
                    for c in init[1]:
                        walk(c, ui, lib)
            for (a, n), g in self.globals.items():
                if isinstance(a, int):
                    walk(g['init'], g['unit'], g['lib'])
            self._field_fns = r
        return self._field_fns

    def icall_targets(self, fn, ins):
        """functions an indirect call may reach, from constant tables; None if unknown"""
        o = ins['fn']
        if o[0] != 'v':
            return None
        d = fn.defs[o[1]]
        if d['op'] != 'load':
            return None
        a = d['args'][0]
        if a[0] == 'v':
            g = fn.defs[a[1]].get('gep')
        elif a[0] == 'gep':
            g = a[1]
        else:
            g = None
        if not isinstance(g, list):
            return None
        last = g[1][-1] if g[1] else None
        if last and last[0] == 'f':
            c = self.field_functions().get((last[1], last[2]))
            return [f for f, n in c] if c else None
        if g[0][0] == 'g':
            gl = self.global_(fn, g[0][1])
            if gl and gl['const'] and gl['init'] and gl['init'][0] == 'A':
                out = []
                for e in gl['init'][1]:
                    if e[0] == 'F':
                        out.append(self.resolve(fn, e[1]))
                return out
        return None

    def rettype(self, fn, r):
        """IR type of the call result R"""
        f = self.fns.get(r[2][0])
        i = f.defs.get(r[2][1]) if f else None
        return i.get('ty') if i else None

    def callees(self, fn):
        """direct callees (names or Fn) with call instruction"""
        for i in fn.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F':
                yield i, i['fn'][1], self.resolve(fn, i['fn'][1])
