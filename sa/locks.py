"""Lock-set analysis of the internal locks (mutexes, rwlocks, spinlocks): balance and nesting order.

Functions are processed bottom-up.  A function whose every path ends with the locks it started with is
neutral and opaque to its callers; others (wrappers that return holding a lock) are analysed in place.
"""
from .engine import Engine, Plugin, I0, I1, UNDEF, trace_list, mentions, base_of
from .checks.errflow import ErrPlugin, errparams, pure
from .build import AnalysisBroken

ACQ_INT = {'pthread_mutex_lock': 'mutex', 'pthread_rwlock_rdlock': 'rd', 'pthread_rwlock_wrlock': 'wr', 'pthread_spin_lock': 'spin',
           'pthread_mutex_trylock': 'mutex', 'pthread_rwlock_tryrdlock': 'rd', 'pthread_rwlock_trywrlock': 'wr',
           'pthread_mutex_timedlock': 'mutex', 'pthread_rwlock_timedrdlock': 'rd', 'pthread_rwlock_timedwrlock': 'wr'}
ACQ_VOID = {'picotm_spinlock_lock': 'spin'}
REL = {'pthread_mutex_unlock', 'pthread_rwlock_unlock', 'pthread_spin_unlock', 'picotm_spinlock_unlock'}
TRY_BOOL = {'picotm_spinlock_try_lock': 'spin', 'picotm_spinlock_trylock': 'spin'}
WAIT = {'pthread_cond_wait': 1, 'pthread_cond_timedwait': 1}
PRIM = set(ACQ_INT) | set(ACQ_VOID) | REL | set(TRY_BOOL) | set(WAIT)
JUMP = ('picotm_recover_from_error', 'picotm_recover_from_error_code', 'picotm_recover_from_errno', 'picotm_recover_from_kern_return_t',
        'picotm_recover_from_siginfo_t', 'picotm_resolve_conflict', 'picotm_restart', 'picotm_irrevocable', 'siglongjmp', 'longjmp',
        '__longjmp_chk', '__siglongjmp_chk', '_longjmp')


def lockclass(prog, v):
    """(struct, field) or global a lock belongs to"""
    while v[0] == 'P':
        path = [s for s in v[2] if s[0] == 'f']
        # innermost picotm_* or libc wrapper struct fields (os_mutex.instance, ...) are skipped
        path = [s for s in path if not s[1].startswith('struct.picotm_os_') and not s[1].startswith('struct.picotm_spinlock') and not s[1].startswith('union.')]
        if path:
            return '%s.%s' % (path[-1][1].replace('struct.', ''), prog.fieldname(path[-1][1], path[-1][2]))
        v = v[1]
    if v[0] == 'G':
        return v[1]
    if v[0] == 'Arg':
        return '(%s)' % v[1].replace('struct ', '').rstrip('*')
    return '?'


def called_params(prog, fn, depth=0):
    """numbers of the parameters that fn (or a callee it passes them to) calls"""
    memo = prog.__dict__.setdefault('_calledparams', {})
    if fn.key not in memo:
        memo[fn.key] = set()
        r = set()
        for i in fn.instrs():
            if i['op'] != 'call':
                continue
            if i['fn'][0] == 'a':
                r.add(i['fn'][1])
            c = prog.resolve(fn, i['fn'][1]) if i['fn'][0] == 'F' else None
            if c is not None:
                q = None
                for k, o in enumerate(i['args']):
                    if o[0] == 'a':
                        q = called_params(prog, c) if q is None else q
                        if k in q:
                            r.add(o[1])
        memo[fn.key] = r
    return memo[fn.key]


EXCL = 'picotm_lock_manager.exclusive_lo_lock'     # held by transactions by design; property P06 follows it


def callers(prog):
    """(direct callers per function, functions whose address is taken)"""
    if getattr(prog, '_lockcallers', None) is None:
        direct, taken = {}, set()
        for f in prog.fns.values():
            if f.lib.startswith('inst_'):
                continue
            for i in f.instrs():
                ops = []
                if i['op'] == 'call':
                    if i['fn'][0] == 'F':
                        c = prog.resolve(f, i['fn'][1])
                        if c is not None:
                            direct.setdefault(c.key, set()).add(f.key)
                    ops = i['args']
                elif i['op'] == 'store':
                    ops = [i['v']] if 'v' in i else []
                for o in ops:
                    if o[0] == 'F':
                        c = prog.resolve(f, o[1])
                        if c is not None:
                            taken.add(c.key)
        for fns in prog.field_functions().values():
            for c in fns:
                k = getattr(c, 'key', None)
                if k:
                    taken.add(k)
        prog._lockcallers = (direct, taken)
    return prog._lockcallers


def arg_rooted(a):
    return a[0] == 'Arg' or a[0] == 'P' and a[1][0] == 'Arg'


class Summary:
    def __init__(self):
        self.neutral = True
        self.acquires = set()       # lock classes taken (transitively)
        self.waits = None           # site of a wait on a condition
        self.waitclass = set()      # locks given up by the wait


class Coupled(Exception):
    pass


class Locks:
    def __init__(self, prog, coupled):
        self.prog = prog
        self.coupled = coupled      # classes whose instances are taken hand over hand: balance is not decided
        self.sum = {}
        self.active = set()
        self.edges = {}             # (class, class) -> [(where, text)]
        self.viol = []              # (rule, key, where, msg, trace, fn)
        self.analysed = []
        self.under = []             # (held classes, callee key or name, where, fn)
        self.params = {}            # (fn key, arg) -> set of frozenset(held)  : called while holding
        self.sites = 0
        self.sigs = []              # (class held, where, fn): signal handlers installed under a lock
        self.relevant = self.closure()

    def closure(self):
        """functions that reach a lock primitive"""
        prog = self.prog
        callers, seed = {}, set()
        for f in prog.fns.values():
            for i in f.instrs():
                if i['op'] != 'call':
                    continue
                if i['fn'][0] == 'F':
                    if i['fn'][1] in PRIM:
                        seed.add(f.key)
                    c = prog.resolve(f, i['fn'][1])
                    if c is not None:
                        callers.setdefault(c.key, set()).add(f.key)
                else:
                    for c in prog.icall_targets(f, i) or ():
                        if c is not None:
                            callers.setdefault(c.key, set()).add(f.key)
                for o in i['args']:
                    if o[0] == 'F':
                        c = prog.resolve(f, o[1])
                        if c is not None:
                            callers.setdefault(c.key, set()).add(f.key)
        work, seen = list(seed), set(seed)
        while work:
            k = work.pop()
            for c in callers.get(k, ()):
                if c not in seen:
                    seen.add(c)
                    work.append(c)
        return seen

    def summary(self, fn):
        s = self.sum.get(fn.key)
        if s is not None:
            return s
        if fn.key in self.active:
            return Summary()
        self.active.add(fn.key)
        s = Summary()
        if fn.key in self.relevant and fn.name not in PRIM:
            need = False
            for i in fn.instrs():
                if i['op'] != 'call':
                    continue
                cs = []
                if i['fn'][0] == 'F':
                    nm = i['fn'][1]
                    if nm in PRIM:
                        need = True
                        continue
                    if nm in JUMP:
                        continue        # leaves: the rule 'jump' decides
                    cs.append(self.prog.resolve(fn, nm))
                else:
                    cs += self.prog.icall_targets(fn, i) or ()
                for o in i['args']:
                    if o[0] == 'F':
                        cs.append(self.prog.resolve(fn, o[1]))
                for c in cs:
                    if c is not None:
                        t = self.summary(c)
                        if t.neutral:
                            s.acquires |= t.acquires
                        s.waits = s.waits or t.waits
                        s.waitclass |= t.waitclass
                        if not t.neutral:
                            need = True
            if need:
                self.sum[fn.key] = s        # recursion: assume neutral
                self.analyse(fn, s)
        self.active.discard(fn.key)
        self.sum[fn.key] = s
        return s

    def analyse(self, fn, s):
        pl = LockPlugin(self, fn, s)
        eng = Engine(self.prog, pl)
        self.analysed.append(fn)
        exits = [x for x in eng.run_root(fn) if x.kind == 'ret']
        if not fn.internal and pl.nsites > 1:
            # which instance of a coupled class is held is only followed inside one unit
            for x in exits:
                some = [a for k, a in x.st.ps if k == 'some']
                for a in some:
                    if a[0] == 'P' and a[1][0] == 'Arg':
                        self.viol.append(('leak', '%s:%s' % (fn.name, lockclass(self.prog, a)), fn.loc(x.ins), '%s returns while holding %s' % (fn.name, lockclass(self.prog, a)), trace_list(x.st), fn))
                if some:
                    x.st = x.st.with_(ps=tuple(q for q in x.st.ps if q[0] != 'some'))
        s.exits = exits
        s.pl = pl
        s.neutral = {x.st.ps for x in exits} <= {()} and not (pl.gives and pl.nsites == 1)
        s.wrapper = self.wrapper(fn, s)
        if not s.neutral and not s.wrapper:
            s.neutral = True            # reported by P14 where it happens; its callers are not to blame
        for e in pl.edges:
            self.edges.setdefault(e[0], []).append(e[1:])
        for v in pl.viol:
            self.viol.append(v + (fn,))
        self.under += pl.under
        for k, h in pl.params:
            self.params.setdefault((fn.key, k), set()).add(h)
        self.sites += pl.nsites


    def wrapper(self, fn, s):
        """takes or releases locks on behalf of its callers, consistently"""
        direct, taken = callers(self.prog)
        if s.neutral and not (s.pl.gives and s.pl.nsites == 1):
            return False
        own = all(arg_rooted(a) for x in s.exits for k, a in x.st.ps) and s.pl.nsites == 1
        if own:
            return True
        if not fn.internal or fn.key in taken or fn.key not in direct:
            return False
        group = {}
        for x in s.exits:
            failed = any(v for k, v in x.st.err.items() if k[0] == 'Arg')
            if failed and any(k not in ('unheld', 'needs', 'some') for k, a in x.st.ps):
                return False
            r = x.ret
            g = (failed, r if r is not None and r[0] in ('i', 'n') else None)
            group.setdefault(g, set()).add(frozenset((k, a) for k, a in x.st.ps if k != 'some'))
        return all(len(v) == 1 for v in group.values())


class LockPlugin(ErrPlugin):
    max_block_states = 150

    def __init__(self, locks, root, s):
        ErrPlugin.__init__(self, locks.prog)
        self.locks = locks
        self.s = s
        self.viol = []
        self.unheld = []
        self.edges = []
        self.under = []
        self.params = []
        self.gives = False
        self.seen = set()

    @property
    def nsites(self):
        return len(self.seen)

    def keep(self, ps):
        return [a for k, a in ps]

    def failedres(self, v, st):
        return None

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def before(self, eng, name, callee, args, ees, st, site):
        pass

    def classes(self, st):
        return tuple(lockclass(self.prog, a) for k, a in st.ps)

    def acquire(self, st, kind, a, site, wait=True):
        self.seen.add(site.id)
        c = lockclass(self.prog, a)
        self.s.acquires.add(c)
        if c == EXCL:
            for k, b in st.ps:
                self.edges.append(((lockclass(self.prog, b), c), site.where, '%s takes %s while holding %s' % (site.fn.name, c, lockclass(self.prog, b)), kind))
            return st
        if c not in self.locks.coupled and any(isinstance(m, tuple) and m and m[0] == 'T' for m in mentions(a)):
            raise Coupled(c)
        if c in self.locks.coupled:
            for k, b in st.ps:
                if lockclass(self.prog, b) != c:
                    self.edges.append(((lockclass(self.prog, b), c), site.where, '%s takes %s while holding %s' % (site.fn.name, c, lockclass(self.prog, b)), kind))
            # may be held from here; which one is not told apart
            if any(k == 'some' and lockclass(self.prog, b) == c for k, b in st.ps):
                return st
            return st.with_(ps=st.ps + (('some', a),)).note(site.where, 'takes ' + c)
        for k, b in st.ps:
            d = lockclass(self.prog, b)
            if b == a and base_of(a)[0] != 'T':
                self.viol.append(('twice', '%s:%s' % (site.fn.name, c), site.where, '%s takes %s while already holding it' % (site.fn.name, c), trace_list(st)))
            elif wait:
                self.edges.append(((d, c), site.where, '%s takes %s while holding %s' % (site.fn.name, c, d), kind))
        return st.with_(ps=st.ps + ((kind, a),)).note(site.where, 'takes ' + c)

    def release(self, st, a, site):
        self.seen.add(site.id)
        c = lockclass(self.prog, a)
        if c == EXCL:
            return st
        if c in self.locks.coupled:
            # the only one taken on this path
            for k in range(len(st.ps)):
                if st.ps[k] == ('some', a):
                    return st.with_(ps=st.ps[:k] + st.ps[k + 1:])
            if a[0] == 'P' and a[1][0] == 'Arg':
                self.gives = True       # an unlock wrapper
            return st
        for k in range(len(st.ps) - 1, -1, -1):
            if st.ps[k][1] == a:
                return st.with_(ps=st.ps[:k] + st.ps[k + 1:]).note(site.where, 'releases ' + lockclass(self.prog, a))
        self.unheld.append((a, site, st))
        return st.with_(ps=st.ps + (('unheld', a),)).note(site.where, 'releases %s, which is not held' % lockclass(self.prog, a))

    def both(self, R, st, good):
        f, g = dict(st.facts), dict(st.facts)
        f[R] = (0, 0, frozenset())
        g[R] = (1, 1 << 31, frozenset())
        return [(I0, good(st.with_(facts=f)))], st.with_(facts=g)

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        R = ('R', name, site.id, site.ctx)
        if name in ACQ_VOID:
            return [(UNDEF, self.acquire(st, ACQ_VOID[name], args[0], site))]
        if name in ACQ_INT:
            st = st.kill(R)
            ok, bad = self.both(R, st, lambda s: self.acquire(s, ACQ_INT[name], args[0], site, 'try' not in name))
            return ok + [(R, bad.note(site.where, name + ' fails'))]
        if name in TRY_BOOL:
            return [(I1, self.acquire(st, TRY_BOOL[name], args[0], site, False)), (I0, st)]
        if name in REL:
            return [(I0, self.release(st, args[0], site))]
        if name in WAIT:
            self.seen.add(site.id)
            self.s.waits = site.where
            m = args[WAIT[name]]
            self.s.waitclass.add(lockclass(self.prog, m))
            if lockclass(self.prog, m) not in self.locks.coupled and not any(a == m for k, a in st.ps):
                # a wrapper gets the mutex from its caller
                st = st.with_(ps=st.ps + (('needs', m),))
            others = [lockclass(self.prog, a) for k, a in st.ps if a != m and k != 'needs' and k != 'unheld' and lockclass(self.prog, a) != lockclass(self.prog, m)]
            if others:
                self.viol.append(('wait', '%s:%s' % (site.fn.name, ','.join(others)), site.where, '%s waits while holding %s' % (site.fn.name, ', '.join(others)), trace_list(st)))
            return [(R, st.kill(R))]
        if name == 'sigaction' and args[1][0] != 'n' and args[1] != ('i', 0):
            for k, a in st.ps:
                if k not in ('unheld', 'needs'):
                    self.locks.sigs.append((lockclass(self.prog, a), site.where, site.fn.name))
        if st.ps and name in JUMP:
            held = [lockclass(self.prog, a) for k, a in st.ps if k not in ('unheld', 'needs')]
            if held:
                self.viol.append(('jump', '%s:%s' % (site.fn.name, name), site.where, '%s leaves through %s while holding %s' % (site.fn.name, name, ', '.join(held)), trace_list(st)))
        if callee is not None:
            t = self.locks.summary(callee)
            if not t.neutral:
                return 'inline'
            if callee.key in self.locks.relevant:
                self.nest(eng, callee.key, t, st, site, name)
            for k, a in enumerate(args):
                if a[0] == 'F':
                    for nm, c in eng.targets(None, a):
                        if c is not None:
                            for h in self.locks.params.get((callee.key, k), ()):
                                self.param_under(h, c, site)
                            if st.ps and k in called_params(self.prog, callee):
                                self.nest(eng, c.key, self.locks.summary(c), st, site, nm)
            if pure(self.prog, callee) or self.plain(callee):
                return 'inline'
        if name == '(indirect)' and st.ps:
            fv = args[0]
            if fv[0] == 'Arg':
                self.params.append((fv[2], self.classes(st)))
            for c in self.prog.icall_targets(site.fn, site.ins) or ():
                if c is not None:
                    self.nest(eng, c.key, self.locks.summary(c), st, site, c.name)
        if site.fn is not None and name == '(indirect)':
            args = args[1:]
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def plain(self, c):
        """small function that returns a pointer or flag its caller's locks may depend on"""
        return c.ret in ('ptr', 'i1') and c.internal and not errparams(c) and sum(len(b) for b in c.blocks) < 40 and len(c.blocks) <= 6

    def param_under(self, held, c, site):
        t = self.locks.summary(c)
        for h in held:
            for a in t.acquires:
                self.edges.append(((h, a), site.where, '%s, called back from %s, takes %s while %s is held' % (c.name, site.fn.name, a, h), ''))
            if t.waits:
                self.viol.append(('wait', '%s:%s' % (c.name, h), site.where, '%s may wait while %s is held' % (c.name, h), []))

    def nest(self, eng, key, t, st, site, name):
        if not st.ps:
            return
        for k, a in st.ps:
            if k in ('unheld', 'needs'):
                continue
            d = lockclass(self.prog, a)
            for c in t.acquires:
                self.edges.append(((d, c), site.where, '%s calls %s, which takes %s, while holding %s' % (site.fn.name, name, c, d), ''))
            if t.waits and d not in t.waitclass:
                self.viol.append(('wait', '%s:%s:%s' % (site.fn.name, name, d), site.where, '%s calls %s, which may wait, while holding %s' % (site.fn.name, name, d), trace_list(st)))

    def small(self, site, callee):
        return False

    def candidates(self, eng, fv, cands, st, site):
        if cands and len(cands) == 1 and fv[0] == 'F':
            return cands
        return None


def analysis(prog):
    if getattr(prog, '_locks', None) is None:
        coupled = set()
        while True:
            L = Locks(prog, coupled)
            try:
                for k in sorted(prog.fns):
                    if not prog.fns[k].lib.startswith('inst_'):
                        L.summary(prog.fns[k])
                break
            except Coupled as e:
                if e.args[0] in coupled:
                    raise AnalysisBroken('lock class ' + e.args[0])
                coupled = coupled | {e.args[0]}
        prog._locks = L
    return prog._locks
