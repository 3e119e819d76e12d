"""P17: memory, descriptors and locales that an operation acquires have exactly one owner at any time."""
from ..build import AnalysisBroken
from ..engine import Engine, UNDEF, I0, I1, base_of, root_of, mentions, trace_list
from .p25 import handlers
from .errflow import ErrPlugin, errparams, ERRT, pure

EXPLANATION = (
    "Path-sensitive ownership typestate over LLVM IR with function summaries computed bottom-up (which arguments a function keeps, releases or acquires for, and what its result owns, separately for its successful and its failing outcomes). "
    "Resources are what malloc, calloc, realloc, posix_memalign, strdup, realpath and getcwd without a buffer, open, mkstemp, socket, accept, pipe, dup, newlocale and duplocale return. "
    "(1) leak: at every return of every function, each resource acquired on the path has been released, stored in memory that outlives the function, kept by a callee that succeeded, or returned; a container that is released releases only itself. "
    "For a descriptor only an entry of a log counts as an owner, and a pair made by pipe is handed over only when the operation succeeds. (2) twice: nothing is released on a path on which it has been released before, or has been handed to an owner that releases it. "
    "(3) after: nothing is read or written through a pointer that has been released on the path. "
    "(4) handler: what the replay or roll-back of a recorded event releases when it succeeds it also releases when it fails, because the event is not run again.")

LIBS = ('core', 'libc', 'libm', 'tm', 'txlib', 'ptrdata', 'cast', 'arithmetic', 'libpthread')
INF = float('inf')
PTR = {'malloc': 'memory', 'calloc': 'memory', 'strdup': 'memory', 'strndup': 'memory', 'aligned_alloc': 'memory', 'memalign': 'memory', 'get_current_dir_name': 'memory',
       'duplocale': 'locale', 'opendir': 'directory'}
FDS = {'open', 'open64', 'openat', 'creat', 'mkstemp', 'mkstemp64', 'mkostemp', 'socket', 'accept', 'accept4', 'dup', 'epoll_create', 'epoll_create1', 'eventfd'}
BUF = {'realpath': 1, 'getcwd': 0}
REL = {'free': 0, 'close': 0, 'freelocale': 0, 'closedir': 0}
KEEP = {'pthread_setspecific': 1}
JUMP = ('__assert_fail', 'abort', '_exit', 'exit', '_Exit', 'siglongjmp', 'longjmp', '__longjmp_chk')


def allcallees(prog, f):
    for i in f.instrs():
        if i['op'] != 'call':
            continue
        if i['fn'][0] == 'F':
            yield i, i['fn'][1], prog.resolve(f, i['fn'][1])
        else:
            for c in prog.icall_targets(f, i) or ():
                if c is not None:
                    yield i, c.name, c


def relevant(prog):
    """functions that reach an operation on a resource"""
    if hasattr(prog, '_own_rel'):
        return prog._own_rel
    ops = set(PTR) | FDS | set(BUF) | set(REL) | set(KEEP) | {'posix_memalign', 'realloc', 'newlocale', 'pipe', 'pipe2'}
    rev, work = {}, []
    for f in prog.fns.values():
        for i, n, c in allcallees(prog, f):
            if c is None:
                if n in ops:
                    work.append(f.key)
            else:
                rev.setdefault(c.key, set()).add(f.key)
    seen = set(work)
    while work:
        k = work.pop()
        for r in rev.get(k, ()):
            if r not in seen:
                seen.add(r)
                work.append(r)
    prog._own_rel = seen
    return seen


def keepers(prog):
    """functions that (transitively) store a value they are given"""
    if hasattr(prog, '_own_keep'):
        return prog._own_keep
    rev, work = {}, []
    for f in prog.fns.values():
        st = any(i['op'] == 'store' for i in f.instrs())
        if st:
            work.append(f.key)
        for i, n, c in allcallees(prog, f):
            if c is not None:
                rev.setdefault(c.key, set()).add(f.key)
    seen = set(work)
    while work:
        k = work.pop()
        for r in rev.get(k, ()):
            if r not in seen:
                seen.add(r)
                work.append(r)
    prog._own_keep = seen
    return seen


class Outcome:
    __slots__ = ('err', 'ret', 'fx', 'cond', 'own')

    def __init__(self, err, ret, fx, cond):
        self.err, self.ret, self.fx, self.cond = err, ret, fx, cond

    def key(self):
        return (self.err, self.ret, self.fx, self.cond)


class Own(ErrPlugin):
    track_heap = True
    max_block_states = 400
    keep_facts = False

    def __init__(self, prog, S):
        ErrPlugin.__init__(self, prog)
        self.S = S
        self.bad = {}
        self.exits = []
        self.sites = set()

    def init(self, eng, root):
        self.root = root
        return frozenset()

    # ps: (value, status, kind): own, gone, kept, in:<container>
    def keep(self, ps):
        return [x[0] for x in ps]

    def overwrite(self, *a):
        pass

    def failedres(self, v, st):
        return None

    def small(self, site, callee):
        return False

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def get(self, st, v):
        for x in st.ps:
            if x[0] == v:
                return x
        return None

    def put(self, st, v, status, kind, at=None):
        return st.with_(ps=frozenset(x for x in st.ps if x[0] != v) | {(v, status, kind, at)})

    def drop(self, st, v):
        return st.with_(ps=frozenset(x for x in st.ps if x[0] != v))

    def report(self, rule, st, site, what, msg=None):
        k = (rule, site.id if hasattr(site, 'id') else site, what)
        if k not in self.bad:
            self.bad[k] = (site.where, st)

    def acquire(self, st, v, kind, site, name):
        self.sites.add(site.id)
        old = self.get(st, v)
        if old and old[1] == 'own':
            self.report('leak', st, site, '%s acquired in an earlier round is lost' % kind)
        # what an earlier round kept is another one
        return self.put(st, v, 'own', kind).note(site.where, name)

    def res(self, st, v):
        """the tracked resource that value v stands for"""
        v = strip(v)
        x = self.get(st, v)
        if x:
            return x
        if v[0] == 'P':
            b = base_of(v)
            x = self.get(st, b)
            if x and x[2] != 'descriptor':
                return x
        return None

    def release(self, st, v, kind, site, name):
        v = strip(v)
        if v[0] in ('i', 'n', 'F', 'u') or v[0] == 'T':
            return st
        b = base_of(v) if kind != 'descriptor' else v
        if kind == 'memory' and base_of(v)[0] == 'P':
            b = v
        if v[0] == 'P' and v[2] and any(s[0] == 'f' or s[0] == 'x' and s[1] != I0 for s in v[2]):
            b = v if b[0] in ('Arg', 'L') else b
        self.sites.add(site.id)
        x = self.get(st, b)
        if x is None:
            if b[0] in ('Arg', 'R'):
                return self.put(st, b, 'gone', kind, site.id).note(site.where, name)
            return st
        if x[1] == 'gone' and x[3] == site.id and name == 'close':
            return st       # repeated after an interruption
        if x[1] == 'gone':
            self.report('twice', st, site, '%s is released although it has been released before' % kind)
        elif x[1] == 'kept':
            self.report('twice', st, site, '%s is released although it has been handed to another owner' % kind)
        return self.put(st, b, 'gone', kind, site.id).note(site.where, name)

    def hand(self, st, v, site, why):
        x = self.res(st, v)
        if x is None:
            w = strip(v)
            b = base_of(w) if w[0] == 'P' else w
            if b[0] == 'Arg' and not self.get(st, b) and (w[0] != 'P' or b[1].endswith('*')):
                return self.put(st, b, 'kept', 'value')
            return st
        if x[1] == 'gone':
            self.report('after', st, site, '%s is handed on after it has been released' % x[2])
            return st
        return self.put(st, x[0], 'kept', x[2])

    def store(self, eng, addr, val, st, site):
        b = base_of(addr)
        x = self.get(st, b)
        if x and x[1] == 'gone' and x[2] != 'descriptor':
            self.report('after', st, site, '%s is written after it has been released' % x[2])
        r = self.res(st, val)
        if b[0] == 'A':
            return st
        w = strip(val)
        if r is None and not (w[0] == 'Arg' or w[0] == 'P' and base_of(w)[0] == 'Arg'):
            return st

        if (r and r[2] == 'descriptor' or r is None and w[0] == 'Arg' and w[1] in ('int',)) and not self.S.logs(addr):
            return st
        if x and x[1] == 'own' and r and r[0] != x[0]:
            return self.put(st, r[0], ('in', x[0]), r[2])
        if r and r[1] == 'gone':
            return st       # a stale value: whoever uses it is reported
        return self.hand(st, val, site, 'stored')

    def atomic(self, eng, kind, addr, ins, st, site):
        if kind in ('cmpxchg', 'atomicrmw') and base_of(addr)[0] != 'A':
            for v in self.ev[1:]:
                w = strip(v)
                x = self.res(st, w)
                if x and x[1] == 'own':
                    st = self.put(st, x[0], 'maybe', x[2], ('X', ('R', kind, site.id, site.ctx), (1,)))
                elif x is None and w[0] == 'Arg' and w[1].endswith('*'):
                    st = self.put(st, w, 'maybe', 'value')
        return st

    def branch(self, eng, cond, truth, st, site):
        for x in st.ps:
            if x[1] == 'maybe' and x[3]:
                lo, hi, ne = eng.getfact(st, x[3])
                if lo == hi == 0:
                    st = self.put(st, x[0], 'own', x[2])        # the exchange failed: nobody has taken it
                elif lo > 0 or hi < 0 or 0 in ne:
                    st = self.put(st, x[0], 'kept', x[2])
        return st

    def load(self, eng, addr, st, site):
        b = base_of(addr)
        x = self.get(st, b)
        if x and x[1] == 'gone' and x[2] != 'descriptor':
            self.report('after', st, site, '%s is read after it has been released' % x[2])
        return st

    def candidates(self, eng, fv, cands, st, site):
        if cands and len(cands) <= 12 and all(c is not None for n, c in cands):
            return cands
        return None

    def fork(self, eng, R, st, good, okr, badr, site, name):
        f, g = dict(st.facts), dict(st.facts)
        f[R], g[R] = okr, badr
        return [(R, good(st.with_(facts=f))), (R, st.with_(facts=g).note(site.where, name + ' fails'))]

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            for a in args[:2]:
                x = self.get(st, base_of(a)) if isinstance(a, tuple) else None
                if x and x[1] == 'gone' and x[2] != 'descriptor' and name.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')):
                    self.report('after', st, site, '%s is used after it has been released' % x[2])
            if name.startswith(('llvm.memcpy', 'llvm.memmove')) and base_of(args[0])[0] != 'A' and base_of(args[1])[0] == 'A':
                for k, v in st.mem.items():
                    if k[0] != 'Z' and base_of(k) == base_of(args[1]):
                        x = self.res(st, v)
                        if x and x[1] != 'gone' and (x[2] != 'descriptor' or self.S.logs(args[0])):
                            st = self.hand(st, v, site, 'copied')
            return None
        if name in JUMP and callee is None:
            return []
        R = ('R', name, site.id, site.ctx)
        if callee is None or name in ('free', 'malloc', 'calloc', 'realloc'):
            for a in args:
                x = self.get(st, base_of(a)) if a[0] in ('P', 'R', 'Arg') else None
                if x and x[1] == 'gone' and name not in REL and name != '(indirect)':
                    self.report('after', st, site, '%s is used after it has been released' % x[2])
        if callee is None:
            if name in PTR:
                return self.fork(eng, R, self.fresh(st, R, site, PTR[name]), lambda s: self.acquire(s, R, PTR[name], site, name), (1, INF, frozenset({0})), (0, 0, frozenset()), site, name)
            if name in FDS:
                return self.fork(eng, R, self.fresh(st, R, site, 'descriptor'), lambda s: self.acquire(s, R, 'descriptor', site, name), (0, INF, frozenset()), (-1, -1, frozenset()), site, name)
            if name in BUF:
                b = args[BUF[name]]
                out = []
                st = self.fresh(st, R, site, 'memory')
                for t, s in self.nullness(eng, st, b):
                    if t:
                        out += self.fork(eng, R, s, lambda s2: self.acquire(s2, R, 'memory', site, name), (1, INF, frozenset({0})), (0, 0, frozenset()), site, name)
                    else:
                        out += [(b, s), (I0, s.note(site.where, name + ' fails'))]
                return out
            if name in REL:
                kind = {'free': 'memory', 'close': 'descriptor', 'freelocale': 'locale', 'closedir': 'directory'}[name]
                s = self.release(st, args[0], kind, site, name)
                if name == 'close':
                    f, g = dict(s.facts), dict(s.facts)
                    f[R], g[R] = (0, 0, frozenset()), (-1, -1, frozenset())
                    # an interrupted close is repeated
                    return [(R, s.with_(facts=f)), (R, self.retry(s, args[0]).with_(facts=g))]
                return [(UNDEF, s)]
            if name == 'posix_memalign':
                V = ('R', name, site.id, site.ctx + (('mem', 0),))
                f, g = dict(st.facts), dict(st.facts)
                f[R], g[R] = (0, 0, frozenset()), (1, INF, frozenset())
                f[V] = (1, INF, frozenset({0}))
                return [(R, self.acquire(eng.do_store(st.with_(facts=f), args[1 - 1], V), V, 'memory', site, name)), (R, st.with_(facts=g).note(site.where, name + ' fails'))]
            if name == 'realloc':
                def good(s):
                    if args[0] != I0 and args[0][0] != 'n':
                        s = self.release(s, args[0], 'memory', site, name)
                    return self.acquire(s, R, 'memory', site, name)
                return self.fork(eng, R, self.fresh(st, R, site, 'memory'), good, (1, INF, frozenset({0})), (0, 0, frozenset()), site, name)
            if name == 'newlocale':
                def good(s):
                    if args[2] != I0 and args[2][0] != 'n':
                        s = self.release(s, args[2], 'locale', site, name)
                    return self.acquire(s, R, 'locale', site, name)
                return self.fork(eng, R, self.fresh(st, R, site, 'locale'), good, (1, INF, frozenset({0})), (0, 0, frozenset()), site, name)
            if name in ('pipe', 'pipe2'):
                def good(s):
                    for k in (0, 1):
                        V = ('R', name, site.id, site.ctx + (('end', k),))
                        s = self.acquire(s, V, 'descriptor', site, name)
                        f = dict(s.facts)
                        f[V] = (0, INF, frozenset())
                        s = eng.do_store(s.with_(facts=f), eng.mkP(args[0], (('x', ('i', k), 4, 'ptr0'),)) if k else args[0], V)
                    return s
                return self.fork(eng, R, st, good, (0, 0, frozenset()), (-1, -1, frozenset()), site, name)
            if name in KEEP:
                return [(R, self.hand(st, args[KEEP[name]], site, name))]
            return ErrPlugin.default(self, eng, name, callee, args, st, site)
        for a in args:
            x = self.get(st, base_of(a)) if a[0] in ('P', 'R', 'Arg') else None
            if x and x[1] == 'gone' and x[2] != 'descriptor' and not (x[3] == site.id):
                self.report('after', st, site, '%s is handed to a function after it has been released' % x[2])
        if args and callee.key in self.S.counts() and self.res(st, args[0]) and self.res(st, args[0])[1] == 'own':
            return [(I0, st)]       # nobody but this operation knows the object: it has not been referenced
        if callee.ret == 'ptr' and callee.internal and pure(self.prog, callee) and sum(len(b) for b in callee.blocks) <= 40:
            return 'inline'
        # what the callee does with what it is given
        if self.get(st, R) and self.get(st, R)[1] != 'own':
            st = self.drop(st, R)
        track = [a for a in args if self.res(st, a) and self.res(st, a)[1] != 'gone' or strip(a)[0] == 'Arg' and not site.ctx]
        inner = self.boxed(st, args)
        if callee.key in relevant(self.prog) or track and callee.key in keepers(self.prog):
            outs = self.S.summary(callee)
            if outs is not None:
                return self.apply(eng, name, callee, args, outs, st, site, R, inner)
        if callee.key not in keepers(self.prog):
            inner = ()
        out = []
        for r, s in ErrPlugin.default(self, eng, name, callee, args, st, site):
            for x in inner:
                s = self.hand(s, x, site, name)
            out.append((r, s))
        return out

    def retry(self, st, v):
        x = self.get(st, strip(v))
        return st

    def boxed(self, st, args):
        """resources inside local objects whose address is handed to the callee"""
        out = []
        for a in args:
            b = base_of(a) if a[0] in ('P', 'A') else None
            if b is not None and b[0] == 'A':
                for k, v in st.mem.items():
                    if k[0] != 'Z' and base_of(k) == b:
                        x = self.res(st, v)
                        if x and x[1] == 'own' and x[2] != 'descriptor':
                            out.append(v)
        return tuple(out)

    def fresh(self, st, R, site, kind):
        old = self.get(st, R)
        if old and old[1] == 'own':
            f = st.facts.get(R)
            self.report('leak', st, site, '%s acquired in an earlier round is lost' % kind)
        return self.drop(st.kill(R), R) if old else st.kill(R)

    def nullness(self, eng, st, v):
        """[(is null, state)]"""
        if v == I0 or v[0] == 'n':
            return [(True, st)]
        if v[0] in ('P', 'A', 'G'):
            return [(False, st)]
        lo, hi, ne = eng.getfact(st, v)
        out = []
        if lo <= 0 <= hi and 0 not in ne:
            f = dict(st.facts)
            f[v] = (0, 0, frozenset())
            out.append((True, st.with_(facts=f)))
        if not lo == hi == 0:
            f = dict(st.facts)
            f[v] = (lo, hi, frozenset(ne) | {0})
            out.append((False, st.with_(facts=f)))
        return out

    def apply(self, eng, name, callee, args, outs, st, site, R, inner):
        res = []
        old = self.get(st, R)
        if old and old[1] == 'own':
            self.report('leak', st, site, '%s acquired in an earlier round is lost' % old[2])
        st = st.kill(R)
        if old:
            st = self.drop(st, R)
        st = eng.clobber(st, [a for a in args if not self.is_err(eng, a, callee)])
        ep = errparams(callee)
        for o in outs:
            s, ok = st, True
            for k, isnull in o.cond:
                if k >= len(args):
                    continue
                m = [x for t, x in self.nullness(eng, s, args[k]) if t == isnull]
                if not m:
                    ok = False
                    break
                s = m[0] if args[k][0] in ('R', 'Arg', 'L') else s
            if not ok:
                continue
            for k, what, kind in o.fx:
                if k >= len(args):
                    continue
                if what == 'gone':
                    s = self.release(s, args[k], kind if kind != 'value' else 'memory', site, name)
                elif what == 'maybe':
                    x = self.res(s, args[k])
                    if x is not None and x[1] == 'own':
                        s = self.put(s, x[0], 'maybe', x[2])
                    elif x is None and strip(args[k])[0] == 'Arg':
                        s = self.put(s, strip(args[k]), 'maybe', 'value')
                elif what == 'kept':
                    x = self.res(s, args[k])
                    if x is None or not (x[2] == 'descriptor' and kind != 'descriptor' and not callee.dty[k + 1].endswith('int')):
                        s = self.hand(s, args[k], site, name)
            v = UNDEF if callee.ret == 'void' else R
            if o.err:
                if ep and args[ep[0]] != I0:
                    kinds = self.kinds(eng, callee, ep[0], args) or frozenset({'code'})
                    s = s.seterr(args[ep[0]], (kinds, name, site.where, False)).note(site.where, name + ' fails')
                elif ep:
                    continue
            else:
                for x in inner:
                    s = self.hand(s, x, site, name)
            if o.ret is not None:
                if o.ret[0] == 'own':
                    f = dict(s.facts)
                    f[R] = (0, INF, frozenset()) if o.ret[1] == 'descriptor' else (1, INF, frozenset({0}))
                    s = self.acquire(s.with_(facts=f), R, o.ret[1], site, name)
                elif o.ret[0] == 'arg':
                    v = args[o.ret[1]]
                elif o.ret[0] == 'rng':
                    f = dict(s.facts)
                    f[R] = (o.ret[1], o.ret[2], frozenset(o.ret[3]))
                    s = s.with_(facts=f)
            res.append((v, s))
        return res

    def on_recover(self, eng, name, e, st, site):
        if name.startswith('picotm_recover'):
            self.atexit(eng, None, st, site, True)
            return []
        return ErrPlugin.on_recover(self, eng, name, e, st, site)

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx:
            self.atexit(eng, val, st, site, False)
        return st

    def atexit(self, eng, val, st, site, recover):
        v = strip(val) if val is not None else None
        err = any(x for e, x in st.err.items() if e[0] == 'Arg')
        rv = self.res(st, v) if v is not None else None
        neg = v is not None and (v[0] == 'i' and v[1] < 0)
        for x in st.ps:
            s, seen = x[1], set()
            while isinstance(s, tuple):
                c = self.get(st, s[1])
                s = c[1] if c and c[0] not in seen else 'own'
                if c:
                    seen.add(c[0])
                    if rv and c[0] == rv[0]:
                        s = 'kept'
                if s == 'gone':
                    s = 'own'
            if s != 'own' or rv and rv[0] == x[0]:
                continue
            lo, hi, ne = eng.getfact(st, x[0])
            if x[2] != 'descriptor' and lo == hi == 0 or x[2] == 'descriptor' and hi < 0:
                continue
            if x[0][0] == 'R' and x[0][1] in ('pipe', 'pipe2') and not err and not recover and not neg and self.given(st, x[0]):
                continue
            self.report('leak', st, site, '%s that %s returned is neither released nor handed to an owner' % (x[2], x[0][1] if x[0][0] == 'R' else '?'))
        self.exits.append((val, st, err, rv))

    def given(self, st, v):
        return any(w == v and base_of(k)[0] == 'Arg' for k, w in st.mem.items() if k[0] != 'Z')


def strip(v):
    while v[0] == 'O' and v[1] in ('zext', 'sext', 'trunc', 'freeze'):
        v = v[2]
    return v


def reaches(prog, f, depth=0):
    """looks at a reference counter"""
    for i, n, c in prog.callees(f):
        if c is not None and (any('struct picotm_ref' in t for t in c.dty[1:]) or depth < 4 and reaches(prog, c, depth + 1)):
            return True
    return False


class Summaries:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.plugins = {}
        self.active = set()
        self.failed = []

    def logs(self, addr):
        """does the address lie in something that remembers descriptors to close: not the descriptor's own object or a caller's variable"""
        if addr[0] != 'P':
            return False
        f = [s for s in addr[2] if s[0] == 'f']
        return bool(f) and f[-1][1] not in ('struct.fd', 'struct.fd_tx', 'struct.file', 'struct.filebuf', 'struct.file_id', 'struct.filebuf_id')

    def counts(self):
        """functions that tell whether their argument is referenced"""
        if not hasattr(self, '_counts'):
            self._counts = set()
            for f in self.prog.fns.values():
                if f.dty[0] == '_Bool' and len(f.dty) == 2 and f.dty[1].endswith('*') and pure(self.prog, f) and reaches(self.prog, f):
                    self._counts.add(f.key)
        return self._counts

    def summary(self, fn):
        if fn.key in self.memo:
            return self.memo[fn.key]
        if fn.key in self.active or len(self.active) > 24:
            return None
        self.active.add(fn.key)
        pl = Own(self.prog, self)
        eng = Engine(self.prog, pl, budget=60000)
        try:
            facts = {}
            for k, t in enumerate(fn.dty[1:]):
                v = sorted(self.prog.enums.get(t[5:], {}).values()) if t.startswith('enum ') else None
                if v and v == list(range(v[0], v[-1] + 1)):
                    facts[('Arg', t, k, fn.argn[k])] = (v[0], v[-1], frozenset())
            eng.run_root(fn, facts=facts)
        except AnalysisBroken as e:
            self.active.discard(fn.key)
            self.memo[fn.key] = None
            self.failed.append((fn.name, str(e)))
            return None
        self.active.discard(fn.key)
        self.plugins[fn.key] = pl
        outs = {}
        for val, st, err, rv in pl.exits:
            v = strip(val) if val is not None else None
            ret = None
            if v is not None and fn.ret != 'void':
                if rv and rv[1] == 'own' and (rv[0] == v or v[0] == 'P'):
                    ret = ('own', rv[2])
                elif v[0] == 'Arg':
                    ret = ('arg', v[2])
                elif v[0] == 'i':
                    ret = ('rng', v[1], v[1], ())
                else:
                    lo, hi, ne = eng.getfact(st, v)
                    if (lo, hi) != (-INF, INF) or 0 in ne:
                        ret = ('rng', lo, hi, tuple(sorted(x for x in ne if x == 0)))
            fx, cond = set(), set()
            for x in st.ps:
                if x[0][0] == 'Arg' and (x[1] == 'gone' or x[1] == 'kept' and not err):
                    fx.add((x[0][2], x[1], x[2]))
                elif x[0][0] == 'Arg' and x[1] == 'maybe':
                    fx.add((x[0][2], 'maybe', x[2]))
            for a, (lo, hi, ne) in st.facts.items():
                if a[0] == 'Arg' and a[1].endswith('*') and a[1] != ERRT:
                    if lo == hi == 0:
                        cond.add((a[2], True))
                    elif 0 in ne or lo > 0:
                        cond.add((a[2], False))
            o = Outcome(err, ret, tuple(sorted(fx)), tuple(sorted(cond)))
            outs[o.key()] = o
        self.memo[fn.key] = [outs[k] for k in sorted(outs, key=repr)]
        return self.memo[fn.key]


def released(st):
    return frozenset(x[0] for x in st.ps if x[0][0] == 'Arg' and x[1] == 'gone')


def replayed(prog):
    """functions below the handlers of recorded events"""
    seen, work = set(), [h.key for op in ('apply_event', 'undo_event') for m, h in handlers(prog, op) if h]
    while work:
        k = work.pop()
        if k in seen:
            continue
        seen.add(k)
        work += [c.key for i, n, c in allcallees(prog, prog.fns[k]) if c is not None]
    return seen


def run(prog, rep):
    replay = replayed(prog)
    S = Summaries(prog)
    rel = relevant(prog)
    sites = set()
    n = 0
    for k in sorted(rel):
        fn = prog.fns[k]
        if fn.lib not in LIBS:
            continue
        S.summary(fn)
    seen = set()
    for k in sorted(S.plugins):
        pl = S.plugins[k]
        fn = prog.fns[k]
        if fn.lib not in LIBS:
            continue
        n += 1
        sites |= pl.sites
        hit = set()
        ok = [x for x in pl.exits if not x[2]]
        if k in replay and ok:
            always = frozenset.intersection(*[released(x[1]) for x in ok])
            for val, st, err, rv in pl.exits:
                for a in sorted(always - released(st)):
                    if st.facts.get(a, (1, 1))[:2] != (0, 0):
                        pl.bad.setdefault(('handler', fn.key, "'%s' is released only if the handler of the event succeeds" % a[3]), (fn.loc(), st))
            if always:
                rep.ob('handler', True, fn.name, fn.loc(), '')
        for (rule, site, what), (where, st) in sorted(pl.bad.items(), key=repr):
            hit.add(rule)
            rep.ob(rule, False, '%s:%s' % (fn.name, what), where, '%s: %s' % (fn.name, what), trace_list(st))
        for rule in ('leak', 'twice', 'after'):
            if rule not in hit:
                rep.ob(rule, True, fn.name, fn.loc(), '')
    rep.stats['functions that are too large'] = len(S.failed)
    rep.stats['skipped'] = sorted(S.failed)[:10]
    rep.floor('functions', n, 800)
    rep.floor('sites that acquire or release', len(sites), 120)
