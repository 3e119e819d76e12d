"""Path-sensitive, context-sensitive abstract interpreter over LLVM IR.

Finite-domain dataflow: the abstract state of a path is
   facts  - intervals of symbolic values that are still live
   mem    - contents of local variables that live in memory
   err    - status of every struct picotm_error object
   ps     - state of the property automaton of the check that runs
States are merged as soon as they are equal; loops run to a fixpoint (symbols
that change around a loop are opaque).  Callees are analysed in place
(memoised), calls through operation tables fork over the functions in the
tables.  There is no solver: conditions only refine intervals.
"""
import sys
from .build import AnalysisBroken

sys.setrecursionlimit(20000)

I0, I1 = ('i', 0), ('i', 1)
UNDEF = ('u',)
INF = float('inf')
TOP = (-INF, INF, frozenset())
ERR_SET = {
    'picotm_error_set_conflicting': 'conflicting',
    'picotm_error_set_revocable': 'revocable',
    'picotm_error_set_error_code': 'code',
    'picotm_error_set_errno': 'errno',
    'picotm_error_set_kern_return_t': 'kern',
    'picotm_error_set_siginfo_t': 'siginfo',
}
ERR_CLEAR = ('picotm_error_clear',)
ERR_QUERY = {
    'picotm_error_is_set': None,
    'picotm_error_is_conflicting': 'conflicting',
    'picotm_error_is_revocable': 'revocable',
}


def depth(v):
    if not isinstance(v, tuple):
        return 0
    m = 0
    for x in v:
        if isinstance(x, tuple):
            d = depth(x)
            if d > m:
                m = d
    return m + 1


_dcache = {}


def cdepth(v):
    d = _dcache.get(v)
    if d is None:
        d = _dcache[v] = depth(v)
    return d


_mcache = {}


def mentions(v):
    """set of symbolic leaves/subterms occurring in v"""
    r = _mcache.get(v)
    if r is None:
        s = {v}
        for x in v:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                s |= mentions(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        s |= mentions(y)
        r = _mcache[v] = frozenset(s)
    return r


def base_of(v):
    while v[0] == 'P':
        v = v[1]
    return v


def root_of(v):
    """innermost object an access path starts from (through loads too)"""
    while v[0] in ('P', 'L'):
        v = v[1]
    return v


class State:
    __slots__ = ('facts', 'mem', 'err', 'ps', '_key', 'trace')

    def __init__(self, facts, mem, err, ps, trace=None):
        self.facts = facts
        self.mem = mem
        self.err = err
        self.ps = ps
        self._key = None
        self.trace = trace

    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.facts.items()), frozenset(self.mem.items()), frozenset(self.err.items()), self.ps)
        return self._key

    def with_(self, **kw):
        return State(kw.get('facts', self.facts), kw.get('mem', self.mem), kw.get('err', self.err),
                     kw.get('ps', self.ps), kw.get('trace', self.trace))

    def note(self, where, text):
        return State(self.facts, self.mem, self.err, self.ps, (self.trace, where, text))

    def seterr(self, e, kind):
        err = dict(self.err)
        if kind == 'clear':
            err.pop(e, None)
        else:
            err[e] = kind
        return self.with_(err=err)

    def kill(self, sym):
        f = {k: v for k, v in self.facts.items() if sym not in mentions(k)}
        if len(f) == len(self.facts):
            return self
        return self.with_(facts=f)


def trace_list(st, limit=14):
    t, r = st.trace, []
    while t is not None:
        r.append('%s: %s' % (t[1], t[2]))
        t = t[0]
    r.reverse()
    if len(r) > limit:
        r = r[:3] + ['...'] + r[-(limit - 4):]
    return r


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
       'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle',
        'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}


def rng_apply(r, pred, c):
    """refine range r with  value pred c ; None if empty"""
    lo, hi, ex = r
    if pred == 'eq':
        if c < lo or c > hi or c in ex:
            return None
        return (c, c, frozenset())
    if pred == 'ne':
        if lo == hi == c:
            return None
        if lo == c:
            lo = c + 1
        elif hi == c:
            hi = c - 1
        elif len(ex) < 12:
            ex = ex | {c}
    elif pred == 'slt':
        hi = min(hi, c - 1)
    elif pred == 'sle':
        hi = min(hi, c)
    elif pred == 'sgt':
        lo = max(lo, c + 1)
    elif pred == 'sge':
        lo = max(lo, c)
    elif pred in ('ult', 'ule'):
        if c < 0:
            return r
        # a number below zero is a large one here
        lo = max(lo, 0)
        hi = min(hi, c - 1 if pred == 'ult' else c)
    elif pred in ('ugt', 'uge'):
        if c < 0:
            return r
        if pred == 'ugt' and c == 0 or pred == 'uge' and c == 1:
            return rng_apply(r, 'ne', 0)
        if lo >= 0:
            lo = max(lo, c + 1 if pred == 'ugt' else c)
    while lo in ex and lo <= hi:
        lo += 1
    while hi in ex and lo <= hi:
        hi -= 1
    if lo > hi:
        return None
    return (lo, hi, frozenset(x for x in ex if lo < x < hi))


def rng_decide(r, pred, c):
    a = rng_apply(r, pred, c)
    if a is None:
        return False
    b = rng_apply(r, NEG[pred], c)
    if b is None:
        return True
    return None


class Exit:
    __slots__ = ('kind', 'ret', 'st', 'ins')

    def __init__(self, kind, ret, st, ins=None):
        self.kind, self.ret, self.st, self.ins = kind, ret, st, ins


class Plugin:
    """Base of all property automata."""
    track_heap = False
    max_block_states = 60
    max_depth = 9
    max_gep = 12
    keep_facts = False
    keep_loop_syms = True

    def init(self, eng, root):
        return None

    def model(self, eng, name, callee, args, st, site):
        """None: default (inline/extern); 'extern': treat as opaque; list of (ret, State); [] = no return"""
        return None

    def store(self, eng, addr, val, st, site):
        return st

    # every load names the heap at the start of the analysis; different addresses do not overlap
    exact_heap = False

    def addr(self, a):
        """canonical form of an address"""
        return a

    def initial(self, a, st):
        """what is known of the initial content of a location"""
        return None

    def load(self, eng, addr, st, site):
        return st

    def atomic(self, eng, kind, addr, ins, st, site):
        return st

    def rebind(self, sym, st):
        """a symbol standing for a value that changes from round to round gets its next value"""
        return st

    def ret(self, eng, fn, val, st, site):
        return st

    def branch(self, eng, cond, truth, st, site):
        return st

    def choose(self, eng, cond, truth, st, site):
        return st

    def enter(self, eng, fn, args, st, site):
        return st

    def keep(self, ps):
        return ()

    def candidates(self, eng, fv, cands, st, site):
        return cands


class Site:
    __slots__ = ('fn', 'ins', 'ctx')

    def __init__(self, fn, ins, ctx):
        self.fn, self.ins, self.ctx = fn, ins, ctx

    @property
    def where(self):
        return self.fn.loc(self.ins)

    @property
    def id(self):
        return (self.fn.key, self.ins['i'])


class Engine:
    def __init__(self, prog, plugin, budget=400000, inline_depth=40):
        self.prog = prog
        self.plugin = plugin
        self.memo = {}
        self.visits = 0
        self.budget = budget
        self.inline_depth = inline_depth
        self.stack = []
        self.fns_seen = set()
        self.calls_seen = 0
        self.truncated = 0
        self.ctxs = {}

    # ------------------------------------------------------------- values
    def run_root(self, fn, args=None, ps=None, err=None, facts=None):
        args = args if args is not None else self.default_args(fn)
        if ps is None:
            ps = self.plugin.init(self, fn)
        st = State(facts or {}, {}, err or {}, ps)
        self.memo = {}
        return self.run(fn, tuple(args), st, ())

    def default_args(self, fn):
        return tuple(('Arg', fn.dty[k + 1] if k + 1 < len(fn.dty) else '', k, fn.argn[k] if k < len(fn.argn) else '')
                     for k in range(len(fn.args)))

    def getfact(self, st, v):
        if v[0] == 'i':
            return (v[1], v[1], frozenset())
        r = st.facts.get(v)
        if r is not None:
            return r
        if v[0] in ('G', 'F', 'A'):
            return (1, INF, frozenset())
        if v[0] == 'P':
            # address of a field/element of something: non-null if base is an object
            b = base_of(v)
            if b[0] in ('G', 'A', 'F'):
                return (1, INF, frozenset())
            if any(s[0] == 'f' and s[2] > 0 for s in v[2]):
                return (-INF, INF, frozenset({0}))
            r = st.facts.get(b)
            if r is not None and 0 in r[2] or (r and (r[0] > 0 or r[1] < 0)):
                return (-INF, INF, frozenset({0}))
        if v[0] == 'cmp':
            return (0, 1, frozenset())
        if v[0] == 'O':
            if v[1] == 'and' and v[3][0] == 'i' and v[3][1] >= 0:
                r = self.getfact(st, v[2])
                hi = v[3][1]
                if r[0] >= 0:
                    hi = min(hi, r[1])
                return (0, hi, frozenset())
            if v[1] == 'urem' and v[3][0] == 'i' and v[3][1] > 0:
                return (0, v[3][1] - 1, frozenset())
            if v[1] in ('add', 'sub') :
                a, b = self.getfact(st, v[2]), self.getfact(st, v[3])
                if v[1] == 'add':
                    return (a[0] + b[0], a[1] + b[1], frozenset())
                lo = a[0] - b[1] if a[0] != -INF and b[1] != INF else -INF
                hi = a[1] - b[0] if a[1] != INF and b[0] != -INF else INF
                return (lo, hi, frozenset())
            if v[1] == 'lshr' and v[3][0] == 'i' and v[3][1] > 0:
                return (0, INF, frozenset())
        return TOP

    def cmpval(self, pred, a, b, st):
        if a[0] == 'i' and b[0] != 'i':
            a, b, pred = b, a, SWAP[pred]
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if pred[0] == 'u':
                x &= (1 << 64) - 1
                y &= (1 << 64) - 1
            r = {'eq': x == y, 'ne': x != y, 'slt': x < y, 'ult': x < y, 'sle': x <= y, 'ule': x <= y,
                 'sgt': x > y, 'ugt': x > y, 'sge': x >= y, 'uge': x >= y}[pred]
            return I1 if r else I0
        if b[0] == 'i':
            # boolean simplification
            if a[0] == 'cmp' and pred in ('eq', 'ne') and b[1] in (0, 1, -1):
                truth = (b[1] != 0) == (pred == 'eq')
                return a if truth else ('cmp', NEG[a[1]], a[2], a[3]) if a[1] in NEG else ('O', 'not', a)
            r = self.getfact(st, a)
            d = rng_decide(r, pred, b[1])
            if d is not None:
                return I1 if d else I0
        elif a == b:
            if pred in ('eq', 'sle', 'sge', 'ule', 'uge'):
                return I1
            return I0
        elif pred in ('eq', 'ne'):
            # distinct objects
            ra, rb = base_of(a), base_of(b)
            if ra[0] in ('A', 'G', 'F') and rb[0] in ('A', 'G', 'F') and ra != rb and a[0] != 'P' and b[0] != 'P':
                return I0 if pred == 'eq' else I1
            if ra == rb and a[0] == 'P' and b[0] == 'P' and all(s[0] == 'f' or s[1][0] == 'i' for s in a[2] + b[2]) and len(a[2]) == len(b[2]) and a != b:
                return I0 if pred == 'eq' else I1
        v = ('cmp', pred, a, b)
        f = st.facts.get(v)
        if f:
            return I1 if f[0] else I0
        n = ('cmp', NEG[pred], a, b) if pred in NEG else None
        f = st.facts.get(n) if n else None
        if f:
            return I0 if f[0] else I1
        return v

    def assume(self, st, v, truth):
        """refine st with v being true/false; None if contradictory"""
        if v[0] == 'i':
            return st if bool(v[1]) == truth else None
        if v[0] == 'O' and v[1] == 'not':
            return self.assume(st, v[2], not truth)
        if v[0] == 'O' and v[1] == 'xor' and v[3] in (('i', 1), ('i', -1)) and v[2][0] in ('cmp', 'O'):
            return self.assume(st, v[2], not truth)
        if v[0] == 'O' and v[1] == 'and1' and truth:
            s = self.assume(st, v[2], True)
            return self.assume(s, v[3], True) if s else None
        if v[0] == 'cmp':
            pred, a, b = v[1], v[2], v[3]
            if not truth:
                if pred not in NEG:
                    f = dict(st.facts)
                    f[v] = (0, 0, frozenset())
                    return st.with_(facts=f)
                pred = NEG[pred]
            if b[0] == 'i':
                r = rng_apply(self.getfact(st, a), pred, b[1])
                if r is None:
                    return None
                f = dict(st.facts)
                f[a] = r
                # propagate through +/- constant
                x, c = a, 0
                while x[0] == 'O' and x[1] in ('add', 'sub') and x[3][0] == 'i':
                    c += x[3][1] if x[1] == 'add' else -x[3][1]
                    x = x[2]
                if x is not a:
                    lo, hi, ex = self.getfact(st, x)
                    lo, hi = max(lo, r[0] - c), min(hi, r[1] - c)
                    if lo > hi:
                        return None
                    f[x] = (lo, hi, frozenset(e for e in ex if lo < e < hi))
                return st.with_(facts=f)
            if self.cmpval(pred, a, b, st) == I0:
                return None
            f = dict(st.facts)
            f[('cmp', pred, a, b)] = (1, 1, frozenset())
            return st.with_(facts=f)
        # plain value tested for non-zero
        r = rng_apply(self.getfact(st, v), 'ne' if truth else 'eq', 0)
        if r is None:
            return None
        f = dict(st.facts)
        f[v] = r
        return st.with_(facts=f)

    def mkP(self, base, steps):
        steps = tuple(steps)
        if base[0] == 'P':
            steps = base[2] + steps
            base = base[1]
        # normalise: drop zero-index pointer steps
        out = []
        for s in steps:
            if s[0] == 'x' and s[1] == I0 and (not out or s[3] == 'ptr0'):
                continue
            out.append(s)
        if not out:
            return base
        # merge consecutive constant index steps of the same element size
        m = []
        for s in out:
            if m and s[0] == 'x' and m[-1][0] == 'x' and s[2] == m[-1][2] and s[3] == 'ptr0':
                a, b = m[-1][1], s[1]
                m[-1] = ('x', self.arith('add', a, b), s[2], m[-1][3])
                if m[-1][1] == I0 and m[-1][3] == 'ptr0':
                    m.pop()
                continue
            m.append(s)
        if not m:
            return base
        if len(m) > 12:
            return ('T', 'deep', hash(tuple(m)))
        return ('P', base, tuple(m))

    def arith(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            if not isinstance(x, int) or not isinstance(y, int):
                return ('O', op, a, b)
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
                     'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << y, 'lshr': lambda: (x & ((1 << 64) - 1)) >> y, 'ashr': lambda: x >> y,
                     'udiv': lambda: (x & ((1 << 64) - 1)) // y, 'sdiv': lambda: int(x / y),
                     'urem': lambda: (x & ((1 << 64) - 1)) % y, 'srem': lambda: x - y * int(x / y)}.get(op, lambda: None)()
            except ZeroDivisionError:
                r = None
            if r is not None:
                return ('i', r)
        if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr') and b == I0:
            return a
        if op in ('add', 'or', 'xor') and a == I0:
            return b
        if op in ('mul', 'sdiv', 'udiv') and b == I1:
            return a
        if op == 'mul' and a == I1:
            return b
        if op in ('mul', 'and') and (a == I0 or b == I0):
            return I0
        if op in ('add', 'mul', 'and', 'or', 'xor') and a[0] == 'i':
            a, b = b, a
        if op == 'sub' and b[0] == 'i':
            op, b = 'add', ('i', -b[1])
        if op == 'add' and b[0] == 'i' and a[0] == 'O' and a[1] == 'add' and a[3][0] == 'i':
            return self.arith('add', a[2], ('i', a[3][1] + b[1]))
        return ('O', op, a, b)

    def const(self, fn, o):
        k = o[0]
        if k == 'i':
            return ('i', o[1] & 1 if len(o) > 2 and o[2] == 1 else o[1])
        if k == 'n':
            return I0
        if k == 'u':
            return UNDEF
        if k == 'F':
            c = self.prog.resolve(fn, o[1])
            return ('F', o[1], c.unit if c is not None else fn.unit)
        if k == 'g':
            g = self.prog.global_(fn, o[1])
            return ('G', o[1], fn.unit if (g and g['internal']) else -1)
        if k == 'gep':
            return self.gep(fn, o[1], None)
        if k == 'z':
            return I0
        if k == 'fp':
            return ('fp', o[1])
        if k == 'ce':
            a = [self.const(fn, x) for x in o[2]]
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                return a[0]
            if len(a) == 2:
                return self.arith(o[1], a[0], a[1])
        return ('c', str(o)[:60])

    def ev(self, fn, env, args, o):
        k = o[0]
        if k == 'v':
            return env.get(o[1], UNDEF)
        if k == 'a':
            return args[o[1]] if o[1] < len(args) else UNDEF
        return self.const(fn, o)

    def gep(self, fn, g, evf):
        b = evf(g[0]) if evf else self.const(fn, g[0])
        steps = []
        first = True
        for s in g[1]:
            if s[0] == 'f':
                steps.append(('f', s[1], s[2]))
            else:
                v = evf(s[1]) if evf else self.const(fn, s[1])
                steps.append(('x', v, s[2], 'ptr0' if first else 'arr'))
            first = False
        return self.mkP(b, steps)

    def init_at(self, g, steps, fn_unit):
        """constant initialiser element; None if unknown"""
        init = g['init']
        cur = init
        for s in steps:
            if cur is None:
                return None
            if cur[0] == 'z':
                return ['z']
            if s[0] == 'f':
                if cur[0] != 'S' or s[2] >= len(cur[2]):
                    return None
                cur = cur[2][s[2]]
            else:
                if s[1][0] != 'i' or cur[0] != 'A':
                    return None
                if not (0 <= s[1][1] < len(cur[1])):
                    return None
                cur = cur[1][s[1][1]]
        return cur

    def gfind(self, v):
        # v = ('G', name, unit)
        if v[2] >= 0:
            return self.prog.globals.get((v[2], v[1]))
        for (a, n), g in self.prog.globals.items():
            if n == v[1] and not isinstance(a, int):
                return g
        return None

    def loadval(self, fn, addr, st, ins, ctx):
        m = st.mem.get(addr)
        if m is not None:
            return m
        b = base_of(addr)
        if b[0] == 'A':
            # zero-initialised aggregate?
            p = addr
            if st.mem.get(('Z', b)):
                return I0
        if b[0] == 'G':
            g = self.gfind(b)
            if g and g['const'] and g['init'] is not None:
                steps = addr[2] if addr[0] == 'P' else ()
                c = self.init_at(g, steps, fn.unit)
                while c is not None and c[0] in ('A', 'S'):
                    el = c[1] if c[0] == 'A' else c[2]
                    c = el[0] if el else None
                if c is not None:
                    if c[0] in ('i', 'n', 'F', 'z', 'g', 'gep'):
                        class _F:
                            pass
                        f = _F()
                        f.unit = g['unit']
                        f.lib = g['lib']
                        return self.const(f, c)
        if cdepth(addr) > 9:
            return ('T', fn.key, ins['i'], ctx)
        return self.plugin.initial(addr, st) or ('L', addr)

    # ------------------------------------------------------------- running
    def live_values(self, fn, env, args, st, outer):
        s = set()
        for v in env.values():
            s |= mentions(v)
        for v in args:
            s |= mentions(v)
        for k, v in st.mem.items():
            s |= mentions(v)
        for v in self.plugin.keep(st.ps):
            s |= mentions(v)
        return s

    def prune(self, fn, env, args, st):
        if not st.facts or self.plugin.keep_facts:
            return st
        live = self.live_values(fn, env, args, st, None)
        f = {}
        for k, r in st.facts.items():
            if k in live:
                f[k] = r
            elif k[0] == 'cmp':
                if (k[2] in live or k[2][0] == 'i') and (k[3] in live or k[3][0] == 'i'):
                    f[k] = r
        if len(f) == len(st.facts):
            return st
        return st.with_(facts=f)

    def run(self, fn, args, st, ctx):
        key = (fn.key, args, st.key, ctx)
        r = self.memo.get(key)
        if r is not None:
            return r
        if len(ctx) > self.inline_depth or sum(1 for k in self.stack if k == fn.key) >= 2:
            self.truncated += 1
            sym = ('T', fn.key, 'rec')
            outs = [Exit('ret', sym, st)]
            e = self.err_arg(fn, args)
            if e is not None and e not in st.err:
                outs.append(Exit('ret', sym, st.seterr(e, 'code')))
            return outs
        self.stack.append(fn.key)
        self.fns_seen.add(fn.key)
        try:
            r = self._run(fn, args, st, ctx)
        finally:
            self.stack.pop()
        self.memo[key] = r
        return r

    def looped(self, fn, v, ctx, bi, nb):
        """v is the number that a call within the loop bi -> nb has returned"""
        if v[3] != ctx or v[2][0] != fn.key:
            return False
        i = fn.defs.get(v[2][1])
        if i is None or i['op'] != 'call' or i.get('ty') not in ('i32', 'i64'):
            return False
        body, todo = {nb, bi}, [bi] if bi != nb else []
        while todo:
            for p in fn.pred[todo.pop()]:
                if p not in body:
                    body.add(p)
                    todo.append(p)
        return any(i is j for b in body for j in fn.blocks[b])

    def err_arg(self, fn, args):
        for k, t in enumerate(fn.dty[1:]):
            if t == 'struct picotm_error*' and k < len(args):
                return args[k]
        return None

    def _run(self, fn, args, st0, ctx):
        exits = {}
        seen = set()
        percount = {}
        st0 = self.plugin.enter(self, fn, args, st0, None)
        # work item: (block, env(dict restricted to livein), state)
        work = [(0, {}, st0)]
        while work:
            bi, env, st = work.pop()
            self.visits += 1
            if self.visits > self.budget:
                raise AnalysisBroken('state budget exceeded in %s' % fn.key)
            outs = self.block(fn, bi, env, args, st, ctx, exits)
            for (nb, env2, st2) in outs:
                # enter nb from bi
                phis = []
                back = (bi, nb) in fn.backedges
                st3 = st2
                self.plugin.pre = st2
                newphi = {}
                for i in fn.blocks[nb]:
                    if i['op'] != 'phi':
                        break
                    v = UNDEF
                    for pb, o in i['in']:
                        if pb == bi:
                            v = self.ev(fn, env2, args, o)
                            break
                    if back:
                        ok = (v[0] == 'i' and v[1] in (-1, 0, 1)) or v[0] in ('R', 'F', 'Arg', 'G', 'A', 'u')
                        if v[0] == 'cmp':
                            ok = False
                        if ok and v[0] == 'R' and self.looped(fn, v, ctx, bi, nb):
                            ok = False      # the next round's call gives another value
                        if not ok:
                            t = ('T', fn.key, i['i'], ctx)
                            rr = None
                            r0 = self.getfact(st3, v)
                            self.plugin.rv = v
                            st3 = self.plugin.rebind(t, st3.kill(t))
                            if v[0] == 'R':
                                f3 = dict(st3.facts)
                                f3[t] = (min(r0[0], 1) if r0[0] >= 0 else -INF, -1 if r0[1] < 0 else INF, frozenset({0}) if 0 in r0[2] else frozenset())
                                st3 = st3.with_(facts=f3)
                            elif 0 in r0[2] or r0[0] > 0 or r0[1] < 0:
                                # whether it is null survives the round
                                f3 = dict(st3.facts)
                                f3[t] = (-INF, INF, frozenset({0}))
                                st3 = st3.with_(facts=f3)
                            v = t
                    newphi[i['i']] = v
                if back and st3.mem:
                    m2 = None
                    for k, v in st3.mem.items():
                        if not ((v[0] == 'i' and v[1] in (-1, 0, 1)) or v[0] in ('R', 'F', 'Arg', 'G', 'A', 'u', 'T')):
                            if m2 is None:
                                m2 = dict(st3.mem)
                            t = ('T', 'mem', fn.key, ctx, k)
                            if t in mentions(k):
                                del m2[k]
                                continue
                            m2[k] = t
                            self.plugin.rv = v
                            st3 = self.plugin.rebind(t, st3.kill(t))
                    if m2 is not None:
                        st3 = st3.with_(mem=m2)
                e3 = {}
                for x in fn.livein[nb]:
                    if x in newphi:
                        e3[x] = newphi[x]
                    elif x in env2:
                        e3[x] = env2[x]
                st3 = self.prune(fn, e3, args, st3)
                ek = frozenset(e3.items())
                key = (nb, ek, st3.key)
                if key in seen:
                    continue
                ck = (nb, ek, frozenset(st3.err.items()), st3.ps)
                c = percount.get(ck, 0) + 1
                percount[ck] = c
                if c > self.plugin.max_block_states:
                    # widen: forget facts
                    st3 = st3.with_(facts={})
                    key = (nb, ek, st3.key)
                    if key in seen:
                        continue
                seen.add(key)
                work.append((nb, e3, st3))
        return list(exits.values())

    def add_exit(self, exits, fn, args, ex):
        st = ex.st
        # remove locals of this frame
        mem = {k: v for k, v in st.mem.items() if not self.is_local(k, fn)}
        err = {k: v for k, v in st.err.items() if not self.is_local(k, fn)}
        if len(mem) != len(st.mem) or len(err) != len(st.err):
            st = st.with_(mem=mem, err=err)
        live = set()
        if ex.ret is not None:
            live |= mentions(ex.ret)
        for a in args:
            live |= mentions(a)
        for v in mem.values():
            live |= mentions(v)
        for v in self.plugin.keep(st.ps):
            live |= mentions(v)
        f = {k: r for k, r in st.facts.items() if k in live} if not self.plugin.keep_facts else st.facts
        if len(f) != len(st.facts):
            st = st.with_(facts=f)
        key = (ex.kind, ex.ret, st.key)
        if key not in exits:
            exits[key] = Exit(ex.kind, ex.ret, st, ex.ins)

    def is_local(self, a, fn):
        if a[0] == 'Z':
            a = a[1]
        b = base_of(a)
        return b[0] == 'A' and b[1] == fn.key and len(self.stack) and True

    def block(self, fn, bi, env, args, st, ctx, exits):
        states = [(dict(env), st)]
        plugin = self.plugin
        for ins in fn.blocks[bi]:
            op = ins['op']
            if op == 'phi':
                continue
            nxt = []
            iid = ins['i']
            for env, st in states:
                ev = lambda o, env=env: self.ev(fn, env, args, o)
                if op == 'br':
                    if 'cond' not in ins:
                        return_states = [(ins['succ'][0], env, st)]
                        nxt += return_states
                        continue
                    c = ev(ins['cond'])
                    for k, truth in ((0, True), (1, False)):
                        s2 = self.assume(st, c, truth)
                        if s2 is not None:
                            s2 = plugin.branch(self, c, truth, s2, Site(fn, ins, ctx))
                            if s2 is None:
                                continue
                            nxt.append((ins['succ'][k], env, s2))
                    continue
                if op == 'switch':
                    c = ev(ins['cond'])
                    rest = st
                    for cv, tb in ins['cases']:
                        if rest is None:
                            break
                        t = self.cmpval('eq', c, ('i', cv), rest)
                        s2 = self.assume(rest, t, True)
                        if s2 is not None:
                            nxt.append((tb, env, s2))
                        rest = self.assume(rest, self.cmpval('eq', c, ('i', cv), rest), False)
                    if rest is not None:
                        nxt.append((ins['def'], env, rest))
                    continue
                if op == 'ret':
                    v = ev(ins['args'][0]) if ins.get('args') else None
                    s2 = plugin.ret(self, fn, v, st, Site(fn, ins, ctx))
                    if s2 is not None:
                        self.add_exit(exits, fn, args, Exit('ret', v, s2, ins))
                    continue
                if op == 'unreachable':
                    continue
                if op == 'call':
                    for v, s2 in self.call(fn, ins, env, args, st, ctx, exits):
                        e2 = env
                        if 'ty' in ins:
                            e2 = dict(env)
                            e2[iid] = v
                        nxt.append((e2, s2))
                    continue
                s2 = st
                if op == 'load':
                    a = plugin.addr(ev(ins['args'][0]))
                    s2 = plugin.load(self, a, st, Site(fn, ins, ctx))
                    if s2 is None:
                        continue
                    if 'ord' in ins:
                        s2 = plugin.atomic(self, 'load', a, ins, s2, Site(fn, ins, ctx))
                        v = ('R', 'load', (fn.key, iid), ctx)
                        s2 = s2.kill(v)
                        mv = st.mem.get(a)
                        if mv is not None:
                            v = mv
                    else:
                        v = self.loadval(fn, a, s2, ins, ctx)
                elif op == 'store':
                    val, a = ev(ins['args'][0]), plugin.addr(ev(ins['args'][1]))
                    s2 = plugin.store(self, a, val, st, Site(fn, ins, ctx))
                    if s2 is None:
                        continue
                    if 'ord' in ins:
                        plugin.ev = [ev(x) for x in ins['args']]
                        s2 = plugin.atomic(self, 'store', a, ins, s2, Site(fn, ins, ctx))
                        if s2 is None:
                            continue
                    s2 = self.do_store(s2, a, val)
                    nxt.append((env, s2))
                    continue
                elif op == 'getelementptr':
                    v = self.gep(fn, ins['gep'], ev)
                    if cdepth(v) > plugin.max_gep:
                        v = ('T', fn.key, iid, ctx)
                elif op == 'icmp':
                    v = self.cmpval(ins['pred'], ev(ins['args'][0]), ev(ins['args'][1]), st)
                elif op == 'alloca':
                    v = ('A', fn.key, iid, ctx)
                    # (re-)entering the scope
                elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                    v = self.arith(op, ev(ins['args'][0]), ev(ins['args'][1]))
                    if cdepth(v) > plugin.max_depth:
                        v = ('T', fn.key, iid, ctx)
                        s2 = s2.kill(v)
                elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
                    v = ev(ins['args'][0])
                elif op == 'select':
                    c = ev(ins['args'][0])
                    done = False
                    for truth, k in ((True, 1), (False, 2)):
                        s3 = self.assume(st, c, truth)
                        if s3 is not None:
                            s3 = plugin.choose(self, c, truth, s3, Site(fn, ins, ctx))
                        if s3 is not None:
                            e2 = dict(env)
                            e2[iid] = ev(ins['args'][k])
                            nxt.append((e2, s3))
                    continue
                elif op in ('atomicrmw', 'cmpxchg'):
                    a = ev(ins['args'][0])
                    plugin.ev = [ev(x) for x in ins['args']]
                    s2 = plugin.atomic(self, op, a, ins, st, Site(fn, ins, ctx))
                    if s2 is None:
                        continue
                    v = ('R', op, (fn.key, iid), ctx)
                    s2 = s2.kill(v)
                    if a in s2.mem:
                        m = dict(s2.mem)
                        m.pop(a)
                        s2 = s2.with_(mem=m)
                elif op == 'extractvalue':
                    x = ev(ins['args'][0])
                    v = ('X', x, tuple(ins['idx']))
                    if x[0] == 'V':
                        v = dict(x[1]).get(tuple(ins['idx']), UNDEF)
                elif op == 'insertvalue':
                    x, y = ev(ins['args'][0]), ev(ins['args'][1])
                    d = dict(x[1]) if x[0] == 'V' else {}
                    d[tuple(ins['idx'])] = y
                    v = ('V', tuple(sorted(d.items())))
                elif op == 'fence':
                    s2 = plugin.atomic(self, 'fence', None, ins, st, Site(fn, ins, ctx))
                    nxt.append((env, s2))
                    continue
                else:
                    aa = tuple(ev(o) for o in ins.get('args', ()))
                    if op in ('fcmp',):
                        v = ('O', 'fcmp', ins.get('pred')) + aa
                    elif op in ('fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui'):
                        v = ('O', op) + aa
                    else:
                        v = ('T', fn.key, iid, ctx)
                        s2 = s2.kill(v)
                    if cdepth(v) > plugin.max_depth:
                        v = ('T', fn.key, iid, ctx)
                        s2 = s2.kill(v)
                e2 = dict(env)
                e2[iid] = v
                nxt.append((e2, s2))
            if op in ('br', 'switch'):
                return nxt
            states = nxt
            if not states:
                return []
            if len(states) > 1:
                states = self.dedupe(states)
        return []

    def dedupe(self, states):
        d = {}
        for env, st in states:
            d.setdefault((frozenset(env.items()), st.key), (env, st))
        return list(d.values())

    def do_store(self, st, a, val):
        b = base_of(a)
        if b[0] == 'A' or (self.plugin.track_heap and a[0] != 'T'):
            m = dict(st.mem)
            if b[0] == 'A' and a in st.err and val == I0:
                pass
            if b[0] != 'A' and not self.plugin.exact_heap:
                last = a[2][-1] if a[0] == 'P' else None
                for k in list(m):
                    if k != a and k[0] == 'P' and k[2][-1] == last and base_of(k)[0] != 'A':
                        del m[k]
            m[a] = val
            st = st.with_(mem=m)
        if b[0] != 'A' and st.facts and not self.plugin.exact_heap:
            last = a[2][-1] if a[0] == 'P' else None
            lk = (last[1], last[2]) if last is not None and last[0] == 'f' else None
            f = {}
            for k, r in st.facts.items():
                hit = False
                for x in mentions(k):
                    if x[0] == 'L' and x[1][0] not in ('A',):
                        if x[1] == a:
                            hit = True
                        elif lk and x[1][0] == 'P' and x[1][2][-1][0] == 'f' and x[1][2][-1][1:3] == lk and root_of(x[1]) [0] != 'A':
                            hit = True
                if not hit:
                    f[k] = r
            if len(f) != len(st.facts):
                st = st.with_(facts=f)
        return st

    # --------------------------------------------------------------- calls
    def call(self, fn, ins, env, args, st, ctx, exits):
        ev = lambda o: self.ev(fn, env, args, o)
        f = ins['fn']
        cargs = tuple(ev(o) for o in ins['args'])
        site = Site(fn, ins, ctx)
        self.calls_seen += 1
        if f[0] == 'asm':
            return [(UNDEF, st)]
        if f[0] == 'F':
            return self.call_named(fn, ins, f[1], self.prog.resolve(fn, f[1]), cargs, st, site, exits)
        fv = ev(f)
        cands = self.targets(fn, fv)
        cands = self.plugin.candidates(self, fv, cands, st, site)
        if cands is None:
            r = self.plugin.model(self, '(indirect)', None, (fv,) + cargs, st, site)
            if r is not None and r != 'extern':
                return r
            v = ('R', 'icall', (fn.key, ins['i']), ctx)
            return self.opaque(v, cargs, ins, fn, st)
        out = []
        for nm, cf in cands:
            out += self.call_named(fn, ins, nm, cf, cargs, st, site, exits)
        return out

    def opaque(self, v, cargs, ins, fn, st):
        st = st.kill(v)
        st = self.clobber(st, cargs)
        return [(v, st)]

    def clobber(self, st, cargs):
        ch = {base_of(a) for a in cargs if base_of(a)[0] == 'A'}
        if ch:
            m = {k: v for k, v in st.mem.items() if base_of(k[1] if k[0] == 'Z' else k) not in ch}
            if len(m) != len(st.mem):
                st = st.with_(mem=m)
        return st

    def targets(self, fn, fv):
        """candidate functions of a function value: [(name, Fn|None)] or None"""
        prog = self.prog
        if fv[0] == 'F':
            class _F:
                pass
            g = _F()
            u = fv[2]
            c = prog.local.get((u, fv[1]))
            if c is None:
                c = next((x for x in prog.by_name.get(fv[1], ()) if not x.internal), None)
            return [(fv[1], c)]
        if fv[0] == 'L' and fv[1][0] == 'P':
            last = fv[1][2][-1]
            b = base_of(fv[1])
            if last[0] == 'f':
                c = prog.field_functions().get((last[1], last[2]))
                if c:
                    seen, out = set(), []
                    for f, n in c:
                        k = f.key if f else n
                        if k not in seen:
                            seen.add(k)
                            out.append((n, f))
                    return out
            if last[0] == 'x' and b[0] == 'G':
                g = self.gfind(b)
                if g and g['const'] and g['init'] and g['init'][0] == 'A':
                    out, seen = [], set()
                    for e in g['init'][1]:
                        if e[0] == 'F':
                            c = prog.local.get((g['unit'], e[1])) or next((x for x in prog.by_name.get(e[1], ()) if not x.internal), None)
                            k = c.key if c else e[1]
                            if k not in seen:
                                seen.add(k)
                                out.append((e[1], c))
                    return out
        return None

    def call_named(self, fn, ins, name, callee, cargs, st, site, exits):
        ctx = site.ctx
        R = ('R', name, (fn.key, ins['i']), ctx)
        # intrinsics
        if name.startswith('llvm.'):
            if name.startswith('llvm.memset') or name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
                return self.call_mem(name, cargs, st, site, R)
            if name.startswith('llvm.threadlocal.address'):
                return [(cargs[0], st)]
            r = self.plugin.model(self, name, None, cargs, st, site)
            if isinstance(r, list):
                return r
            return [(R, st.kill(R))]
        if callee is None and name in ('memcpy', 'memmove', 'memset') and len(cargs) > 2:
            return [(cargs[0], s2) for _, s2 in self.call_mem(name, cargs, st, site, R)]
        r = self.plugin.model(self, name, callee, cargs, st, site)
        if isinstance(r, list):
            return r
        if r == 'inline' and callee is not None:
            return self.inline(fn, ins, callee, cargs, st, site, exits)
        # error objects
        if name in ERR_SET:
            return [(UNDEF, st.seterr(cargs[0], ERR_SET[name]))]
        if name in ERR_QUERY:
            kind = st.err.get(cargs[0])
            if kind == '?':
                a = st.with_()
                return [(I1, st), (I0, st.seterr(cargs[0], 'clear'))]
            if ERR_QUERY[name] is None:
                return [(I1 if kind else I0, st)]
            return [(I1 if kind == ERR_QUERY[name] else I0, st)]
        if name in ERR_CLEAR:
            return [(UNDEF, st.seterr(cargs[0], 'clear'))]
        if name == 'picotm_error_is_error':
            kind = st.err.get(cargs[0])
            return [(I1 if kind and kind != 'conflicting' else I0, st)]
        if name == 'picotm_error_mark_as_non_recoverable':
            return [(UNDEF, st)]
        if name in ('__assert_fail', 'abort', '_exit', 'exit', '_Exit', 'siglongjmp', 'longjmp') and callee is None:
            return []
        if r == 'extern' or callee is None:
            return self.opaque(R, cargs, ins, fn, st)
        return self.inline(fn, ins, callee, cargs, st, site, exits)

    def inline(self, fn, ins, callee, cargs, st, site, exits):
        ctx2 = site.ctx + ((fn.key, ins['i']),)
        # facts relevant for the callee
        live = set()
        for a in cargs:
            live |= mentions(a)
        for v in st.mem.values():
            live |= mentions(v)
        for v in self.plugin.keep(st.ps):
            live |= mentions(v)
        sub = {k: v for k, v in st.facts.items() if k in live} if not self.plugin.keep_facts else st.facts
        # memory relevant for the callee: locals reachable from arguments or from other locals
        reach = {base_of(a) for a in cargs}
        mm, hold = {}, {}
        todo = True
        keys = list(st.mem.items())
        while todo:
            todo = False
            for k, v in keys:
                kb = base_of(k[1] if k[0] == 'Z' else k)
                if (kb in reach or kb[0] != 'A') and k not in mm:
                    mm[k] = v
                    vb = base_of(v) if isinstance(v, tuple) and v else None
                    if vb is not None and vb[0] == 'A' and vb not in reach:
                        reach.add(vb)
                        todo = True
        for k, v in keys:
            if k not in mm:
                hold[k] = v
        ee, ehold = {}, {}
        for k, v in st.err.items():
            b = base_of(k)
            if b[0] != 'A' or b in reach:
                ee[k] = v
            else:
                ehold[k] = v
        st_in = State(sub, mm, ee, st.ps, st.trace)
        out = []
        for ex in self.run(callee, cargs, st_in, ctx2):
            f = dict(st.facts)
            f.update(ex.st.facts)
            m = dict(hold)
            m.update(ex.st.mem)
            e = dict(ehold)
            e.update(ex.st.err)
            s2 = State(f, m, e, ex.st.ps, ex.st.trace)
            if ex.kind == 'ret':
                out.append((ex.ret if ex.ret is not None else UNDEF, s2))
            else:
                self.add_exit(exits, fn, (), Exit(ex.kind, ex.ret, s2, ex.ins))
        return out

    def call_mem(self, name, cargs, st, site, R):
        r = self.plugin.model(self, name, None, cargs, st, site)
        if isinstance(r, list):
            return r
        dst = cargs[0]
        b = base_of(dst)
        m = dict(st.mem)
        err = dict(st.err)
        if 'memset' in name:
            for k in list(m):
                kk = k[1] if k[0] == 'Z' else k
                if kk == dst or (kk[0] == 'P' and dst == base_of(kk)):
                    del m[k]
            if cargs[1] == I0:
                err.pop(dst, None)
                if dst[0] == 'A':
                    m[('Z', dst)] = I1
        else:
            src = cargs[1]
            for k in list(m):
                kk = k[1] if k[0] == 'Z' else k
                if kk == dst or (kk[0] == 'P' and dst == base_of(kk)):
                    del m[k]
            if dst in err or src in err:
                if src in err:
                    err[dst] = err[src]
                elif base_of(src)[0] == 'G':
                    err.pop(dst, None)
                else:
                    err.pop(dst, None)
            if b[0] == 'A':
                for k, v in list(m.items()):
                    if k[0] == 'P' and k[1] == src and dst[0] != 'P':
                        m[('P', dst, k[2])] = v
                if m.get(('Z', src)):
                    m[('Z', dst)] = I1
        return [(R, st.with_(mem=m, err=err))]
