"""P19: reader/writer locks exclude writers and publish what they protect."""
from ..build import AnalysisBroken
from ..engine import Engine, I0, I1, UNDEF, base_of, mentions, trace_list
from ..locks import JUMP
from .errflow import ErrPlugin

EXPLANATION = (
    "(1) word: the lock word of a reader/writer lock is a finite domain of 256 values; every path of the three public lock functions is followed (waiting may succeed or fail, the word may change between any two accesses) and each compare-exchange or "
    "read-modify-write on the word is evaluated over all words that satisfy the conditions of the path. A read lock adds one reader where there is no writer and less than 14 readers, a write lock needs a free word, an upgrade needs exactly one reader, and each keeps the "
    "waiter index; a path changes the word exactly once if it succeeds and not at all if it reports an error; releasing takes away exactly the caller's share. (2) index: whoever else changes the word keeps the counter. (3) init: a new lock is free. "
    "(4) state: over all three states of a transaction's lock status, each operation calls the right lock function, moves to the right state on success and keeps the state on failure. (5) spin: a spinlock is acquired only from free to taken and is released to free. "
    "(6) count: references are counted one up or down, and first and last are recognised by the old value. (7) order: each of these acquisitions has acquire order and each release has release order; pointers are published with release order, and no pointer read with a weaker order than acquire is used "
    "except during single-threaded teardown. (8) atomic: no lock word, counter or published pointer is accessed with a plain load or store outside initialisation.")

RW = ('struct.picotm_rwlock', 'n')
WRITER = 15
ACQ = ('acquire', 'acq_rel', 'seq_cst')
REL = ('release', 'acq_rel', 'seq_cst')
M64 = (1 << 64) - 1


# ------------------------------------------------------------------ known bits

def kb(e, env):
    """(known mask, value) of a 64 bit expression, words bound by env; None: not known at all"""
    k = env.get(e)
    if k is not None:
        return k
    t = e[0]
    if t == 'i' and isinstance(e[1], int):
        return (M64, e[1] & M64)
    if t == 'n':
        return (M64, 0)
    if t == 'cmp':
        r = cmp(e, env)
        return (M64, int(r)) if r is not None else (M64 ^ 1, 0)
    if t == 'O':
        op = e[1]
        ka, va = kb(e[2], env)
        kc, vc = kb(e[3], env)
        if op == 'and':
            return ((ka & kc) | (ka & ~va) | (kc & ~vc)) & M64, va & vc & M64
        if op == 'or':
            k = ((ka & kc) | (ka & va) | (kc & vc)) & M64
            return k, (va | vc) & k
        if op == 'xor':
            return ka & kc, (va ^ vc) & ka & kc
        if op == 'shl' and kc == M64 and vc < 64:
            return ((ka << vc) | ((1 << vc) - 1)) & M64, (va << vc) & M64
        if op in ('lshr', 'ashr') and kc == M64 and vc < 64:
            return (ka >> vc) | (M64 ^ (M64 >> vc)), va >> vc
        if op in ('add', 'sub', 'mul') and ka == M64 and kc == M64:
            return M64, {'add': va + vc, 'sub': va - vc, 'mul': va * vc}[op] & M64
        if op in ('add', 'sub', 'mul'):
            n = 0
            while n < 64 and (ka >> n) & 1 and (kc >> n) & 1:
                n += 1
            m = (1 << n) - 1
            return m, {'add': va + vc, 'sub': va - vc, 'mul': va * vc}[op] & m
        if op in ('udiv', 'urem') and ka == M64 and kc == M64 and vc:
            return M64, va // vc if op == 'udiv' else va % vc
    return 0, 0


def signed(v):
    return v - (1 << 64) if v >> 63 else v


def cmp(e, env):
    p = e[1]
    (ka, va), (kc, vc) = kb(e[2], env), kb(e[3], env)
    if ka == M64 and kc == M64:
        if p[0] == 's':
            va, vc = signed(va), signed(vc)
        return {'eq': va == vc, 'ne': va != vc, 'lt': va < vc, 'le': va <= vc, 'gt': va > vc, 'ge': va >= vc}[p if p in ('eq', 'ne') else p[1:]]
    if p in ('eq', 'ne') and (va ^ vc) & ka & kc:
        return p == 'ne'
    return None


def words(e, prog):
    """the 8 bit words an expression is made of"""
    r = set()
    for m in mentions(e):
        if m[0] == 'R' and m[1] == 'load' or m[0] == 'X' and m[2] == (0,) or m[0] == 'R' and m[1] == 'atomicrmw':
            r.add(m)
        elif m[0] == 'T' and m[1] in prog.fns and isinstance(m[2], int) and prog.fns[m[1]].defs.get(m[2], {}).get('ty') == 'i8':
            r.add(m)
    # an extracted word makes its exchange no word of its own
    return {w for w in r if not any(w is not x and w in mentions(x) for x in r)}


def engfield(prog, a):
    while a[0] == 'P':
        for s in reversed(a[2]):
            if s[0] == 'f':
                return (s[1], prog.fieldname(s[1], s[2]))
        a = a[1]
    return None


# ------------------------------------------------------------------ lock word

class Word(ErrPlugin):
    """ps: (conditions on observed words, changes of the word made by this path)"""
    max_block_states = 400

    def __init__(self, prog, hold=None, target=RW):
        self.target = target
        ErrPlugin.__init__(self, prog)
        self.hold = hold                # set of words while the caller holds its lock
        self.changes = []
        self.sites = set()
        self.seen = {}                  # (addr, R) of the exchange -> expected, desired, ins

    def init(self, eng, root):
        self.root = root
        return (frozenset(), ())

    def keep(self, ps):
        return [x for c, t in ps[0] for x in words(c, self.prog) | {c}]

    def failedres(self, v, st):
        return None

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def word(self, a):
        return engfield(self.prog, a) == self.target

    def fresh(self, st, tok):
        return st.with_(ps=(frozenset(c for c in st.ps[0] if tok not in mentions(c[0])), st.ps[1]))

    def rebind(self, sym, st):
        return self.fresh(st, sym)

    def choose(self, eng, cond, truth, st, site):
        return self.branch(eng, cond, truth, st, site)

    def asserting(self, site, truth):
        """whether the other way of a branch is a failing assertion"""
        i = site.ins
        if i['op'] != 'br':
            return False
        b = i['succ'][1 if truth else 0]
        return any(c['op'] == 'call' and c['fn'] == ['F', '__assert_fail'] for c in site.fn.blocks[b])

    def branch(self, eng, cond, truth, st, site):
        if self.asserting(site, truth):
            return st           # assertions are not relied on
        while True:
            if cond[0] == 'O' and cond[1] == 'xor' and cond[3] in (('i', -1), I1):
                cond, truth = cond[2], not truth
            elif cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and cond[3] in (I0, I1) and cond[2][0] in ('X', 'cmp') and (cond[2][0] == 'cmp' or cond[2][2] == (1,)):
                cond, truth = cond[2], truth == ((cond[1] == 'ne') == (cond[3] == I0))
            else:
                break
        if cond[0] == 'X' and cond[2] == (1,) and cond[1] in self.seen:
            a, e, d, ins, where = self.seen[cond[1]]
            if (cond, True) in st.ps[0] or (cond, False) in st.ps[0]:
                return st if (cond, truth) in st.ps[0] else None
            st = st.with_(ps=(st.ps[0] | {(cond, truth)}, st.ps[1]))
            if truth:
                return self.change(st, ('cas', e, d, ins, site), site)
            return st
        if cond[0] == 'cmp' and words(cond, self.prog):
            return st.with_(ps=(st.ps[0] | {(cond, truth)}, st.ps[1]))
        return st

    def change(self, st, c, site):
        kind, e, d, ins, where = c
        # the conditions of the path bound the words it may have seen
        pairs = self.pairs(st, kind, e, d)
        if not pairs:
            return None
        return st.with_(ps=(st.ps[0], (st.ps[1] + ((kind, pairs, ins.get('ord'), site.where, site.fn.name),))[:3])).note(site.where, 'changes the lock word')

    def domain(self, w):
        return self.hold if self.hold is not None and w[0] != 'T' else range(256)

    def pairs(self, st, kind, e, d):
        """the changes (old, new) as pairs of known bits of a byte"""
        toks = sorted(words(e, self.prog) | words(d, self.prog), key=repr)
        allc = [(c, t, words(c, self.prog)) for c, t in st.ps[0] if c[0] == 'cmp']
        rel = toks[:2]
        for w in {w for c, t, ws in allc if len(ws) == 1 for w in ws if w not in rel}:
            # a word seen earlier: the path must be possible
            if not any(all(cmp(c, {w: (M64, n)}) in (None, t) for c, t, ws in allc if ws == {w}) for n in self.domain(w)):
                return frozenset()
        conds = [(c, t) for c, t, ws in allc if ws and ws <= set(rel)]
        binds = []
        for c, t in conds:
            if c[0] == 'cmp' and (c[1] == 'eq') == t and c[1] in ('eq', 'ne'):
                for x, y in ((c[2], c[3]), (c[3], c[2])):
                    if x[0] in ('Arg', 'T', 'R', 'L') and x not in rel and words(y, self.prog):
                        binds.append((x, y))
        out = set()
        space = [{}]
        for w in rel:
            space = [s | {w: (M64, n)} for s in space for n in self.domain(w)]
        for env in space:
            for x, y in binds:
                v = kb(y, env)
                if v[0] == M64:
                    env[x] = v
            if any(cmp(c, env) not in (None, t) for c, t in conds):
                continue
            if kind == 'rmw':
                for n in (self.hold if self.hold is not None else range(256)):
                    out.add(((255, n), self.rmw(d, e, n, env)))
            else:
                ke, ve = kb(e, env)
                kd, vd = kb(d, env)
                if self.hold is not None and ke & 255 == 255 and (ve & 255) not in self.hold:
                    continue
                out.add(((ke & 255, ve & 255), (kd & 255, vd & 255)))
        return frozenset(out)

    @staticmethod
    def rmw(op, x, n, env):
        k, v = kb(x, env)
        if op == ('rmw', 'xchg'):
            return (k & 255, v & 255)
        if op == ('rmw', 'and'):
            k2 = (k | ~n) & 255
            return (k2, n & v & k2)
        if op == ('rmw', 'or'):
            k2 = (k | n) & 255
            return (k2, (n | v) & k2)
        if k & 255 != 255:
            return (0, 0)
        f = {'add': n + v, 'sub': n - v, 'xor': n ^ v}.get(op[1])
        return (255, f & 255) if f is not None else (0, 0)

    def atomic(self, eng, kind, a, ins, st, site):
        if a is None or not self.word(a):
            return st
        self.sites.add((site.id, kind))
        ev = getattr(self, "ev", None)
        if kind == 'load':
            return self.fresh(st, ('R', 'load', site.id, site.ctx))
        if kind == 'store':
            return self.change(st, ('rmw', ev[0], ('rmw', 'xchg'), ins, site), site)
        R = ('R', kind, site.id, site.ctx)
        st = self.fresh(self.fresh(st, ('X', R, (0,))), R)
        if kind == 'cmpxchg':
            self.seen[R] = (a, ev[1], ev[2], ins, site.where)
            return st
        return self.change(st, ('rmw', ev[1], ('rmw', ins['rmw']), ins, site), site)

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        if name in JUMP or name == '__assert_fail':
            return []
        if callee is not None and callee.key in self.inline:
            return 'inline'
        return ErrPlugin.default(self, eng, name, callee, args, st, site)


def leaves(prog):
    """functions that only compute"""
    memo = {}

    def leaf(f, d=0):
        r = memo.get(f.key)
        if r is None:
            memo[f.key] = False
            r = True
            for i in f.instrs():
                if 'ord' in i or i['op'] in ('store', 'fence'):
                    r = False
                elif i['op'] == 'call':
                    c = prog.resolve(f, i['fn'][1]) if i['fn'][0] == 'F' else None
                    if i['fn'][0] == 'F' and (i['fn'][1].startswith('llvm.') or i['fn'][1] in JUMP or i['fn'][1] == '__assert_fail'):
                        continue
                    if c is None or not leaf(c):
                        r = False
            memo[f.key] = r
        return r
    return {f.key for f in prog.fns.values() if leaf(f)}


def field_of(prog, fn, o):
    """(struct, field) an address operand of fn denotes, if it is a field"""
    while o[0] == 'v':
        i = fn.defs.get(o[1])
        if i is None:
            return None
        if i['op'] == 'getelementptr':
            fs = [s for s in i['gep'][1] if s[0] == 'f']
            if fs:
                return (fs[-1][1], prog.fieldname(fs[-1][1], fs[-1][2]))
            o = i['gep'][0]
        elif i['op'] in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze'):
            o = i['args'][0]
        else:
            return None
    return None


def accesses(prog):
    """every access to memory that is accessed atomically somewhere: (fn, ins, field, operand index of address)"""
    out = []
    for f in prog.fns.values():
        for i in f.instrs():
            k = {'load': 0, 'store': 1, 'atomicrmw': 0, 'cmpxchg': 0}.get(i['op'])
            if k is None:
                continue
            out.append((f, i, field_of(prog, f, i['args'][k])))
    return out


def reach(prog, seed, stop=()):
    """functions that reach one of seed by calls of functions known by name or handed over as constants"""
    callers = {}
    for f in prog.fns.values():
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F':
                c = prog.resolve(f, i['fn'][1])
                if c is not None:
                    callers.setdefault(c.key, set()).add(f.key)
    seen, work = set(seed), list(seed)
    while work:
        for k in callers.get(work.pop(), ()):
            if k not in seen and k not in stop:
                seen.add(k)
                work.append(k)
    return seen


def public(prog, name):
    return prog.get(name, 'core')


def show(p):
    (ke, ve), (kd, vd) = p
    def h(k, v):
        return '%s|%s' % (v >> 4 if k >> 4 == 15 else '?', v & 15 if k & 15 == 15 else '?')
    return '%s -> %s' % (h(ke, ve), h(kd, vd))


def legal(op, p):
    (ke, ve), (kd, vd) = p
    if ke & 15 != 15 or kd & 15 != 15:
        return 'the counter of the new or old word is not determined'
    o, n = ve & 15, vd & 15
    if op == 'index':
        return None if o == n else 'the counter changes'
    if ke != 255 or kd != 255 or ve >> 4 != vd >> 4:
        return 'the waiter index is not kept'
    if op == 'read':
        if o == WRITER:
            return 'a reader enters while a writer holds the lock'
        if n == WRITER:
            return 'the number of readers overflows into the mark of a writer'
        return None if n == o + 1 else 'the lock does not count exactly one more reader'
    if op == 'write':
        if o:
            return 'a writer enters while the lock is held'
        return None if n == WRITER else 'the lock is not marked as held by a writer'
    if op == 'upgrade':
        if o != 1:
            return 'a reader upgrades although it is not the only one'
        return None if n == WRITER else 'the lock is not marked as held by a writer'
    if op == 'unread':
        return None if n == o - 1 else 'releasing a read lock does not take away exactly one reader'
    if op == 'unwrite':
        return None if n == 0 else 'releasing a write lock does not free the lock'


def run_word(prog, rep, leaf, direct):
    seed = {f.key for f, i, fl in direct if 'ord' in i}
    inl = reach(prog, seed) | leaf
    readers = {n for n in range(256) if 0 < n & 15 < WRITER}
    writer = {n for n in range(256) if n & 15 == WRITER}
    covered = set()
    n = 0
    for api, op, args, hold in (('picotm_rwlock_try_rdlock', 'read', {}, None), ('picotm_rwlock_try_wrlock', 'write', {1: I0}, None), ('picotm_rwlock_try_wrlock', 'upgrade', {1: I1}, readers),
                                ('picotm_rwlock_unlock', 'unread', {}, readers), ('picotm_rwlock_unlock', 'unwrite', {}, writer)):
        fn = public(prog, api)
        pl = Word(prog, hold)
        pl.inline = inl
        eng = Engine(prog, pl)
        a = list(eng.default_args(fn))
        for k, v in args.items():
            a[k] = v
        exits = eng.run_root(fn, args=tuple(a))
        covered |= eng.fns_seen
        n += len(pl.sites)
        ret = [x for x in exits if x.kind == 'ret']
        if not ret or not pl.sites:
            raise AnalysisBroken('%s does not reach the lock word' % api)
        some = False
        errs = [v for v in a if v[0] == 'Arg' and v[1] == 'struct picotm_error*']
        for x in ret:
            failed = any(x.st.err.get(e) for e in errs)
            ch = x.st.ps[1]
            rep.count('word')
            key = '%s:%s' % (api, op)
            if failed:
                if ch:
                    rep.bad('word', key + ':failed', ch[0][3], '%s changes the lock word although it reports an error' % fn.name, trace_list(x.st))
                continue
            some = True
            if len(ch) != 1:
                rep.bad('word', key + ':number', ch[1][3] if ch else fn.loc(), '%s %s' % (fn.name, 'succeeds without changing the lock word' if not ch else 'changes the lock word %d times on one path' % len(ch)), trace_list(x.st))
                continue
            kind, pairs, order, where, inf = ch[0]
            for p in sorted(pairs):
                why = legal(op, p)
                if why:
                    rep.bad('word', key + ':' + inf, where, '%s: %s (index|count %s)' % (fn.name, why, show(p)), trace_list(x.st))
                    break
            need, what = (REL, 'release') if op.startswith('un') else (ACQ, 'acquire')
            rep.ob('order', order in need, key + ':' + inf, where, '%s changes the lock word with order %s instead of %s' % (fn.name, order, what))
        if not some:
            rep.bad('word', '%s:%s:never' % (api, op), fn.loc(), '%s never succeeds' % fn.name)
    rep.floor('accesses to the lock word on the paths of the lock functions', n, 8)
    # everybody else
    others = sorted({f.key for f, i, fl in direct if 'ord' in i and i['op'] in ('cmpxchg', 'atomicrmw', 'store') and f.key not in covered})
    for k in others:
        fn = prog.fns[k]
        pl = Word(prog, None)
        pl.inline = inl
        eng = Engine(prog, pl)
        for x in eng.run_root(fn):
            for kind, pairs, order, where, inf in x.st.ps[1]:
                rep.count('index')
                for p in sorted(pairs):
                    why = legal('index', p)
                    if why:
                        rep.bad('index', fn.name, where, '%s: %s (index|count %s)' % (fn.name, why, show(p)), trace_list(x.st))
                        break
    rep.floor('other functions that change the lock word', len(others), 1)
    return covered


def inlines(prog, target, acc, leaf):
    return reach(prog, {f.key for f, i, fl in acc if fl == target and 'ord' in i}) | leaf


def exits_of(prog, fn, pl, inl, args=None):
    pl.inline = inl
    eng = Engine(prog, pl)
    return eng, [x for x in eng.run_root(fn, args=args) if x.kind == 'ret']


def run_spin(prog, rep, leaf, acc):
    T = ('struct.picotm_spinlock', 'is_locked')
    inl = inlines(prog, T, acc, leaf)
    n = 0
    for api in ('picotm_spinlock_try_lock', 'picotm_spinlock_lock', 'picotm_spinlock_unlock'):
        for fn in prog.by_name.get(api, ())[:1]:
            n += 1
            pl = Word(prog, None, T)
            eng, ex = exits_of(prog, fn, pl, inl)
            some = False
            for x in ex:
                ch = x.st.ps[1]
                rep.count('spin')
                if api.endswith('unlock'):
                    ok = ch and all((kd & 255, vd & 255) == (255, 0) for kind, pairs, o, w, inf in ch for (ke, ve), (kd, vd) in pairs)
                    rep.ob('spin', ok, api, ch[0][3] if ch else fn.loc(), '%s returns without freeing the lock' % api, trace_list(x.st))
                    for kind, pairs, o, w, inf in ch:
                        rep.ob('order', o in REL, api, w, '%s frees the lock with order %s' % (api, o))
                    some = True
                    continue
                got = True
                if api.endswith('try_lock'):
                    lo, hi, exc = eng.getfact(x.st, x.ret)
                    got = None if lo <= 0 <= hi and 0 not in exc and not lo == hi == 0 else not lo == hi == 0
                if got is None:
                    rep.bad('spin', api + ':result', fn.loc(), '%s: the result does not tell whether the lock was taken' % api, trace_list(x.st))
                elif got:
                    some = True
                    ok = len(ch) == 1 and all(p == ((255, 0), (255, 1)) or p[0] == (255, 0) and p[1][0] == 255 and p[1][1] for p in ch[0][1])
                    rep.ob('spin', ok, api, ch[0][3] if ch else fn.loc(), '%s reports that it took the lock %s' % (api, 'without having changed it from free to taken' if ch else 'without having changed it'), trace_list(x.st))
                    for kind, pairs, o, w, inf in ch:
                        rep.ob('order', o in ACQ, api, w, '%s takes the lock with order %s' % (api, o))
                else:
                    rep.ob('spin', not ch, api, ch[0][3] if ch else fn.loc(), '%s changes the lock although it reports that it did not take it' % api, trace_list(x.st))
            if not some:
                rep.bad('spin', api + ':never', fn.loc(), '%s never succeeds' % api)
    rep.floor('spinlock functions', n, 2)


class Count(Word):
    """ps: as above, the old value being the word"""

    def change(self, st, c, site):
        kind, e, d, ins, where = c
        return st.with_(ps=(st.ps[0], (st.ps[1] + ((kind, (e, d), ins.get('ord'), site.where, ('R', 'atomicrmw', site.id, site.ctx)),))[:3]))


def run_count(prog, rep, leaf, acc):
    T = ('struct.picotm_shared_ref16', 'count')
    inl = inlines(prog, T, acc, leaf)
    n = 0
    for api, op, edge, need in (('__picotm_shared_ref16_up', 'add', 0, ('acquire',)), ('__picotm_shared_ref16_down', 'sub', 1, ('acquire', 'release'))):
        for fn in prog.by_name.get(api, ())[:1]:
            n += 1
            pl = Count(prog, None, T)
            eng, ex = exits_of(prog, fn, pl, inl)
            for x in ex:
                ch = x.st.ps[1]
                rep.count('count')
                if len(ch) != 1 or ch[0][0] != 'rmw' or ch[0][1][1] != ('rmw', op) or ch[0][1][0] != I1:
                    rep.bad('count', api, ch[0][3] if ch else fn.loc(), '%s does not count exactly one reference %s' % (api, 'up' if op == 'add' else 'down'), trace_list(x.st))
                    continue
                o = ch[0][2]
                rep.ob('order', all(o in (ACQ if k == 'acquire' else REL) for k in need), api, ch[0][3], '%s counts with order %s' % (api, o))
                old = ch[0][4]
                r = eng.getfact(x.st, old)
                bad = None
                for v in list(range(0 if op == 'add' else 1, 300)) + [1 << 15, (1 << 16) - 2]:
                    if v < r[0] or v > r[1] or v in r[2]:
                        continue
                    k, b = kb(x.ret, {old: (M64, v)})
                    lo, hi, exc = eng.getfact(x.st, x.ret)
                    if lo == hi:
                        k, b = M64, lo
                    if not k & 1 or bool(b & 1) != (v == edge):
                        bad = v
                        break
                rep.ob('count', bad is None, api + ':edge', fn.loc(), '%s with a count of %s before: the result does not tell the %s reference' % (api, bad, 'first' if op == 'add' else 'last'), trace_list(x.st))
    S = 'struct.picotm_ref16'
    k = prog.fieldidx(S, 'count', True)
    for api, d, edge in (('__picotm_ref16_up', 1, 0), ('__picotm_ref16_down', -1, 1)):
        for fn in prog.by_name.get(api, ())[:1]:
            n += 1
            pl = RwState(prog)
            eng = Engine(prog, pl)
            args = eng.default_args(fn)
            a = ('P', args[0], (('f', S, k),))
            for x in eng.run_root(fn):
                if x.kind != 'ret':
                    continue
                rep.count('count')
                old, bad = ('L', a), None
                for v in list(range(0 if d > 0 else 1, 300)) + [1 << 15, (1 << 16) - 2]:
                    lo, hi, exc = eng.getfact(x.st, old)
                    if v < lo or v > hi or v in exc:
                        continue
                    nk, nv = kb(x.st.mem.get(a, old), {old: (M64, v)})
                    rk, rv = kb(x.ret, {old: (M64, v)})
                    if nk & 0xffff != 0xffff or nv & 0xffff != v + d or not rk & 1 or bool(rv & 1) != (v == edge):
                        bad = v
                        break
                rep.ob('count', bad is None, api, fn.loc(), '%s with a count of %s before does not count one %s or does not tell the %s reference' % (api, bad, 'up' if d > 0 else 'down', 'first' if d > 0 else 'last'), trace_list(x.st))
    rep.floor('reference counting functions', n, 2)


class RwState(ErrPlugin):
    """ps: calls of lock functions"""
    track_heap = True

    def init(self, eng, root):
        return ()

    def keep(self, ps):
        return ()

    def failedres(self, v, st):
        return None

    def model(self, eng, name, callee, args, st, site):
        if callee is not None and callee.unit == site.fn.unit and not any('picotm_error' in t for t in callee.dty[1:]):
            return 'inline'
        return ErrPlugin.model(self, eng, name, callee, args, st, site)

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        if name in JUMP or name == '__assert_fail':
            return []
        if name in ('picotm_rwlock_try_rdlock', 'picotm_rwlock_try_wrlock', 'picotm_rwlock_unlock'):
            up = ''
            if name.endswith('wrlock'):
                lo, hi, ex = eng.getfact(st, args[1])
                up = '?' if lo != hi else 'upgrade' if lo else 'fresh'
            s2 = st.with_(ps=st.ps + ((name, args[0], up, site.where),)).note(site.where, '%s %s' % (name, up))
            if name.endswith('unlock'):
                return [(UNDEF, s2)]
            return [(UNDEF, s2), (UNDEF, s2.seterr(args[-1], (frozenset({'conflicting'}), name, site.where, False)).note(site.where, 'conflict'))]
        return ErrPlugin.default(self, eng, name, callee, args, st, site)


def run_state(prog, rep, leaf):
    S = 'struct.picotm_rwstate'
    k = prog.fieldidx(S, 'status')
    U, R, W = (prog.enum('PICOTM_RWSTATE_' + x) for x in ('UNLOCKED', 'RDLOCKED', 'WRLOCKED'))
    names = {U: 'unlocked', R: 'read-locked', W: 'write-locked'}
    spec = {}
    for s in (U, R, W):
        spec['picotm_rwstate_try_rdlock', s] = (None, s) if s != U else (('picotm_rwlock_try_rdlock', ''), R)
        spec['picotm_rwstate_try_wrlock', s] = (None, s) if s == W else (('picotm_rwlock_try_wrlock', 'upgrade' if s == R else 'fresh'), W)
        spec['picotm_rwstate_unlock', s] = (None, s) if s == U else (('picotm_rwlock_unlock', ''), U)
        spec['picotm_rwstate_init', s] = (None, U)
    from ..engine import State
    for (api, s), (call, to) in sorted(spec.items()):
        fn = public(prog, api)
        pl = RwState(prog)
        eng = Engine(prog, pl)
        args = eng.default_args(fn)
        a = ('P', args[0], (('f', S, k),))
        eng.memo = {}
        for x in eng.run(fn, args, State({}, {a: ('i', s)}, {}, ()), ()):
            if x.kind != 'ret':
                continue
            err = any(x.st.err.get(v) for v in args)
            now = x.st.mem.get(a)
            lo, hi, ex = eng.getfact(x.st, now) if now else (0, 1, ())
            got = tuple((c[0], c[2]) for c in x.st.ps)
            key = '%s:%s' % (api, names[s])
            where = x.st.ps[0][3] if x.st.ps else fn.loc()
            want = (call,) if call else ()
            rep.ob('state', got == want, key + ':call', where, '%s on a lock state that is %s %s' % (api, names[s], 'calls %s instead of %s' % (', '.join(' '.join(g) for g in got) or 'nothing', ' '.join(call) if call else 'nothing')), trace_list(x.st))
            if got != want:
                continue
            if call and len(args) > 1:
                rep.ob('state', x.st.ps[0][1] == args[1], key + ':lock', where, '%s works on another lock' % api, trace_list(x.st))
            goal = s if err else to
            rep.ob('state', lo == hi == goal and (not err or bool(call)), key + ':result', where, '%s on a lock state that is %s %s leaves it %s' % (api, names[s], 'fails and' if err else 'and', names.get(lo, 'undetermined') if lo == hi else 'undetermined'), trace_list(x.st))


def weak_uses(prog, fn, ins):
    """uses, other than comparisons, of a value read atomically"""
    taint, cells, out = set(), set(), []
    if ins['op'] == 'load':
        taint.add(ins['i'])
    changed = True
    while changed:
        changed = False
        for i in fn.instrs():
            if i['i'] in taint:
                continue
            op = i['op']
            ops = [o for o in (i.get('args') or [])] + [o for b, o in (i.get('in') or [])]
            if i.get('gep'):
                ops.append(i['gep'][0])
            hit = any(o[0] == 'v' and o[1] in taint for o in ops)
            if op == 'extractvalue' and ins['op'] == 'cmpxchg' and i['args'][0] == ['v', ins['i']] and i['idx'] == [0]:
                taint.add(i['i'])
                changed = True
            elif op in ('phi', 'zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'select', 'getelementptr', 'add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr') and hit:
                taint.add(i['i'])
                changed = True
            elif op == 'store' and i['args'][0][0] == 'v' and i['args'][0][1] in taint and i['args'][1][0] == 'v':
                d = fn.defs.get(i['args'][1][1])
                if d is not None and d['op'] == 'alloca' and d['i'] not in cells:
                    cells.add(d['i'])
                    changed = True
            elif op == 'load' and i['args'][0][0] == 'v' and i['args'][0][1] in cells:
                taint.add(i['i'])
                changed = True
    for i in fn.instrs():
        def t(o):
            return o[0] == 'v' and o[1] in taint
        if i['op'] == 'load' and t(i['args'][0]) or i['op'] == 'store' and (t(i['args'][1]) or t(i['args'][0]) and not (i['args'][1][0] == 'v' and (fn.defs.get(i['args'][1][1]) or {}).get('op') == 'alloca')):
            out.append((i, 'dereferenced' if t(i['args'][0]) and i['op'] == 'load' or i['op'] == 'store' and t(i['args'][1]) else 'stored'))
        elif i['op'] == 'ret' and any(t(o) for o in i['args']):
            out.append((i, 'returned'))
        elif i['op'] == 'call' and any(t(o) for o in i['args']):
            out.append((i, 'handed on'))
    return out


def teardown_only(prog):
    """functions that only run during teardown: every way to reach them starts in a public *_uninit function"""
    callers = {}
    for f in prog.fns.values():
        for i in f.instrs():
            ops = list(i.get('args') or [])
            if i['op'] == 'call':
                ops.append(i['fn'])
            for o in ops:
                if isinstance(o, list) and o and o[0] == 'F':
                    c = prog.resolve(f, o[1])
                    if c is not None:
                        callers.setdefault(c.key, set()).add(f.key)
    memo = {}

    def td(k, stack=()):
        f = prog.fns[k]
        if f.name.endswith('_uninit'):
            return True
        if k in stack:
            return True
        cs = callers.get(k, set()) - {k}
        return bool(cs) and all(td(c, stack + (k,)) for c in cs)
    return {k for k in prog.fns if td(k)}


def run_publish(prog, rep, acc):
    locks = {RW, ('struct.picotm_spinlock', 'is_locked'), ('struct.picotm_shared_ref16', 'count')}
    td = teardown_only(prog)
    n = 0
    for f, i, fl in acc:
        if 'ord' not in i or fl in locks or f.lib not in ('core', 'ptrdata'):
            continue
        n += 1
        key = '%s:%s' % (f.name, i['op'])
        if i['op'] in ('cmpxchg', 'store', 'atomicrmw'):
            v = i['args'][0] if i['op'] == 'store' else i['args'][-1]
            if not (v[0] == 'n' or v[0] == 'i' and v[1] == 0):
                rep.ob('order', i['ord'] in REL, key + ':publish', f.loc(i), '%s publishes a pointer with order %s' % (f.name, i['ord']))
        o = i.get('ford') if i['op'] == 'cmpxchg' else i['ord']
        if i['op'] in ('load', 'cmpxchg') and o not in ACQ:
            uses = [] if f.key in td else weak_uses(prog, f, i)
            rep.ob('order', not uses, key + ':use', f.loc(uses[0][0]) if uses else f.loc(i), '%s reads a published pointer with order %s (%s); it is %s afterwards' % (f.name, o, f.loc(i), uses[0][1] if uses else ''))
    rep.floor('accesses to published pointers', n, 8)
    # plain accesses
    fields = {(f.unit, fl) for f, i, fl in acc if 'ord' in i and fl}
    glob = locks | {('struct.picotm_shared_treemap', 'root')}
    for g in glob - {('struct.value', 'data')}:
        rep.count('atomic')
        if not any(fl == g and 'ord' in i for f, i, fl in acc):
            rep.bad('atomic', '%s.%s' % g, 'include/picotm', 'no access to %s.%s is atomic' % g)
    for f, i, fl in acc:
        if 'ord' in i or not fl or not (fl in glob or (f.unit, fl) in fields):
            continue
        ok = i['op'] == 'store' and f.key in td
        if i['op'] == 'store':
            o = i['args'][1]
            while o[0] == 'v' and f.defs[o[1]]['op'] in ('getelementptr', 'bitcast'):
                d = f.defs[o[1]]
                o = d['gep'][0] if d['op'] == 'getelementptr' else d['args'][0]
            fresh = o[0] == 'v' and f.defs[o[1]]['op'] in ('call', 'phi')
            ok = ok or fresh or f.name.endswith('_init')
        rep.ob('atomic', ok, '%s:%s.%s' % ((f.name,) + fl), f.loc(i), '%s accesses %s.%s with a plain %s' % (f.name, fl[0].replace('struct.', ''), fl[1], i['op']))


def run(prog, rep):
    leaf = leaves(prog)
    acc = accesses(prog)
    direct = [x for x in acc if x[2] and x[2] == RW]
    run_word(prog, rep, leaf, direct)
    run_spin(prog, rep, leaf, acc)
    run_count(prog, rep, leaf, acc)
    run_state(prog, rep, leaf)
    run_init(prog, rep)
    run_publish(prog, rep, acc)


def run_init(prog, rep):
    fn = public(prog, 'picotm_rwlock_init')
    k = prog.fieldidx(RW[0], RW[1])
    pl = RwState(prog)
    eng = Engine(prog, pl)
    args = eng.default_args(fn)
    for x in eng.run_root(fn):
        if x.kind == 'ret':
            v = x.st.mem.get(('P', args[0], (('f', RW[0], k),)))
            rep.ob('init', v == I0, 'picotm_rwlock_init', fn.loc(), 'picotm_rwlock_init does not leave the lock free')
