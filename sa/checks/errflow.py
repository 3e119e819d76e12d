"""Error-discipline automaton shared by P01, P02 and P03."""
from ..build import AnalysisBroken
from ..engine import Engine, Plugin, ERR_SET, ERR_QUERY, ERR_CLEAR, I0, I1, UNDEF, base_of, root_of, mentions, trace_list, Site

ERRT = 'struct picotm_error*'


def errparams(fn):
    return [k for k, t in enumerate(fn.dty[1:]) if t == ERRT]


def table_param(fn, o):
    """number of the parameter that is a table of functions from which operand o is loaded"""
    d = fn.defs[o[1]] if o[0] == 'v' else None
    if d is None or d['op'] != 'load' or d['args'][0][0] != 'v':
        return None
    g = fn.defs[d['args'][0][1]].get('gep')
    if isinstance(g, list) and g[0][0] == 'a' and all(s[0] == 'x' for s in g[1]):
        return g[0][1]
    return None


def cb_functions(prog, fn, o):
    if o[0] == 'F':
        return [prog.resolve(fn, o[1])]
    g = prog.global_(fn, o[1] if o[0] == 'g' else o[1][0][1])
    if g and g['const'] and g['init'] and g['init'][0] == 'A':
        return [prog.resolve(fn, e[1]) for e in g['init'][1] if e[0] == 'F']
    return []


def may_set(prog):
    """fixpoint: (fn key, argument number) -> set of error kinds the function may set there"""
    if getattr(prog, '_mayset', None) is not None:
        return prog._mayset
    res = {}
    edges = []
    ff = prog.field_functions()
    for fn in prog.fns.values():
        ep = set(errparams(fn))
        if not ep:
            continue
        # values that are the error parameter (directly or via phi/select/gep 0 / bitcast)
        alias = {}
        for i in fn.instrs():
            if i['op'] in ('bitcast', 'phi', 'select', 'getelementptr', 'freeze'):
                if i['op'] == 'phi':
                    ops = [o for _, o in i['in']]
                elif i['op'] == 'getelementptr':
                    ops = [i['gep'][0]]
                else:
                    ops = i['args']
                for o in ops:
                    if o[0] == 'a' and o[1] in ep:
                        alias[i['i']] = o[1]
                    elif o[0] == 'v' and o[1] in alias:
                        alias[i['i']] = alias[o[1]]
        for i in fn.instrs():
            if i['op'] == 'store':
                o = i['args'][1]
                k = o[1] if o[0] == 'a' and o[1] in ep else alias.get(o[1]) if o[0] == 'v' else None
                if k is not None:
                    res.setdefault((fn.key, k), set()).add('other')
                continue
            if i['op'] != 'call':
                continue
            for n, o in enumerate(i['args']):
                k = o[1] if o[0] == 'a' and o[1] in ep else alias.get(o[1]) if o[0] == 'v' else None
                if k is None:
                    continue
                f = i['fn']
                if f[0] == 'F':
                    if f[1] in ERR_SET:
                        if n == 0:
                            res.setdefault((fn.key, k), set()).add(ERR_SET[f[1]])
                    elif f[1].startswith('llvm.mem') and n == 0:
                        res.setdefault((fn.key, k), set()).add('other')
                    else:
                        c = prog.resolve(fn, f[1])
                        if c is not None:
                            edges.append(((fn.key, k), (c.key, n), fn, i))
                elif f[0] == 'a':
                    res.setdefault((fn.key, k), set()).add(('cb', f[1]))
                else:
                    t = prog.icall_targets(fn, i)
                    q = table_param(fn, f)
                    if q is not None:
                        res.setdefault((fn.key, k), set()).add(('cb', q))
                    elif t is None or any(c is None for c in t):
                        edges.append(((fn.key, k), None))
                    else:
                        for c in t:
                            edges.append(((fn.key, k), (c.key, n), fn, i))
    ch = True
    while ch:
        ch = False
        for ed in edges:
            a, b = ed[0], ed[1]
            s = res.setdefault(a, set())
            if b is None:
                new = {'conflicting', 'revocable', 'errno', 'code'}
            else:
                new = set()
                for t in res.get(b, ()):
                    if not isinstance(t, tuple):
                        new.add(t)
                        continue
                    o = ed[3]['args'][t[1]] if t[1] < len(ed[3]['args']) else ['u']
                    if o[0] == 'a':
                        new.add(('cb', o[1]))
                    elif o[0] in ('F', 'g') or o[0] == 'gep' and o[1][0][0] == 'g':
                        for c in cb_functions(prog, ed[2], o):
                            for q in (errparams(c) if c is not None else ()):
                                new |= {x for x in res.get((c.key, q), ()) if not isinstance(x, tuple)}
                    elif o[0] not in ('n', 'i'):
                        new |= {'conflicting', 'revocable', 'errno', 'code'}
            if not new <= s:
                s |= new
                ch = True
    prog._mayset = {k: frozenset(v) for k, v in res.items() if v}
    return prog._mayset


ZERO = set('''bind chdir chmod close connect fchmod fstat fsync link listen lstat stat mkdir mkfifo mknod pipe rmdir rename fchdir
 nanosleep clock_gettime shutdown socketpair symlink unlink'''.split())       # of these, those that return nothing but zero on success
NEGATIVE = set('''accept bind chdir chmod close connect dup dup2 fchmod fcntl fstat fsync link listen lseek lstat
 mkdir mkfifo mknod mkstemp open pipe pread pwrite read recv select send shutdown sigaction socket stat unlink write
 fegetexceptflag fesetexceptflag fegetenv fesetenv feclearexcept
 nanosleep clock_gettime sigemptyset fchdir ioctl rmdir rename sendto recvfrom'''.split())
NULLRES = set('malloc realloc calloc strdup getcwd get_current_dir_name realpath mkdtemp newlocale duplocale uselocale setlocale'.split())
NONZERO = set('''posix_memalign pthread_mutex_init pthread_mutex_lock pthread_mutex_unlock pthread_cond_init pthread_condattr_init
 pthread_condattr_setclock pthread_rwlock_init pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock
 pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
 pthread_sigmask sigprocmask'''.split())


def pure(prog, fn, depth=0):
    """fn only computes (no stores, no atomics, calls only pure functions)"""
    if not hasattr(prog, '_pure'):
        prog._pure = {}
    if fn.key in prog._pure:
        return prog._pure[fn.key]
    prog._pure[fn.key] = False
    ok = depth < 8
    for i in fn.instrs():
        if not ok:
            break
        if i['op'] in ('atomicrmw', 'cmpxchg', 'fence') or 'ord' in i:
            ok = False
        elif i['op'] == 'store':
            o = i['args'][1]
            d = fn.defs.get(o[1]) if o[0] == 'v' else None
            while d is not None and d['op'] in ('getelementptr',):
                o = d['gep'][0]
                d = fn.defs.get(o[1]) if o[0] == 'v' else None
            ok = d is not None and d['op'] == 'alloca'
        elif i['op'] == 'call':
            if i['fn'][0] != 'F':
                ok = False
                continue
            n = i['fn'][1]
            if n.startswith('llvm.') or n == '__assert_fail' or n == '__errno_location' or n in ('strlen', 'memcmp', 'strcmp'):
                continue
            c = prog.resolve(fn, n)
            ok = c is not None and pure(prog, c, depth + 1)
    prog._pure[fn.key] = ok
    return ok


def ret_summary(prog, callee):
    """values returned on success and on failure: (ok, failed) frozensets of ints, or None if unknown"""
    if not hasattr(prog, '_rets'):
        prog._rets = {}
    r = prog._rets.get(callee.key)
    if r is not None:
        return r
    prog._rets[callee.key] = (None, None)
    if callee.ret == 'void' or not errparams(callee) or sum(len(b) for b in callee.blocks) > 400:
        return prog._rets[callee.key]
    pl = ErrPlugin(prog)
    e = Engine(prog, pl, budget=4000)
    try:
        exits = e.run_root(callee)
    except AnalysisBroken:
        return prog._rets[callee.key]
    out = [set(), set()]
    for x in exits:
        if x.kind != 'ret':
            continue
        bad = any(v for k, v in x.st.err.items() if k[0] == 'Arg')
        v = x.ret
        s = out[1 if bad else 0]
        if v is not None and v[0] != 'i':
            lo, hi, ex = e.getfact(x.st, v)
            if lo == hi:
                v = ('i', lo)
        s.add(v[1] if v is not None and v[0] == 'i' else None)
    prog._rets[callee.key] = tuple(None if (None in s or len(s) > 2 or not s) else frozenset(s) for s in out)
    return prog._rets[callee.key]


class ErrPlugin(Plugin):
    max_block_states = 200

    def __init__(self, prog, inline_pred=None):
        self.prog = prog
        self.ms = may_set(prog)
        self.raw = []           # (rule, fn, site, key, msg, st)
        self.seen_calls = set()
        self.alltypes = {}

    def init(self, eng, root):
        self.root = root
        return ()

    # ps: tuple of (failed result value, error object)
    def is_err(self, eng, v, callee=None, k=None):
        if v[0] == 'Arg' and v[1] == ERRT:
            return True
        if v[0] == 'A':
            d = self.alltypes.get((v[1], v[2]))
            if d is None:
                fn = self.prog.fns[v[1]]
                d = self.alltypes[(v[1], v[2])] = fn.defs[v[2]].get('aty')
            return d == 'struct.picotm_error'
        if callee is not None and k is not None and k + 1 < len(callee.dty) and callee.dty[k + 1] == ERRT:
            return True
        return False

    def report(self, rule, st, site, what, msg):
        self.raw.append((rule, site.fn, site, what, msg, st))

    def keep(self, ps):
        return [x[0] for x in ps]

    def failedres(self, v, st):
        r = root_of(v)
        for x in st.ps:
            if x[0] == r and st.err.get(x[1]):
                return r
        return None

    def kinds(self, eng, callee, k, args):
        r = set()
        for t in self.ms.get((callee.key, k), ()):
            if not isinstance(t, tuple):
                r.add(t)
                continue
            v = args[t[1]] if t[1] < len(args) else UNDEF
            if v[0] == 'F':
                for nm, c in eng.targets(None, v):
                    for q in (errparams(c) if c is not None else ()):
                        r |= {x for x in self.ms.get((c.key, q), ()) if not isinstance(x, tuple)}
            elif base_of(v)[0] == 'G':
                g = eng.gfind(base_of(v))
                if g and g['const'] and g['init'] and g['init'][0] == 'A':
                    for x in g['init'][1]:
                        c = self.prog.local.get((g['unit'], x[1])) if x[0] == 'F' else None
                        for q in (errparams(c) if c is not None else ()):
                            r |= {x for x in self.ms.get((c.key, q), ()) if not isinstance(x, tuple)}
                else:
                    r |= {'conflicting', 'revocable', 'errno', 'code'}
            elif v[0] != 'i':
                r |= {'conflicting', 'revocable', 'errno', 'code'}
        return frozenset(r)

    def small(self, site, callee):
        return (callee is not None and callee.internal and callee.unit == site.fn.unit and len(site.ctx) < 3 and
                sum(len(b) for b in callee.blocks) <= 60)

    def model(self, eng, name, callee, args, st, site):
        if name in ERR_SET:
            e = args[0]
            old = st.err.get(e)
            if old:
                self.overwrite(eng, st, site, e, old, ERR_SET[name])
            return [(UNDEF, self.mark(st.seterr(e, (ERR_SET[name], name, site.where, True)), name, site))]
        if name in ERR_QUERY:
            e = args[0]
            old = st.err.get(e)
            if name == 'picotm_error_is_set':
                if not old:
                    return [(I0, st)]
                return [(I1, st.seterr(e, (old[0], old[1], old[2], True)))]
            if not old:
                return [(I0, st)]
            return self.query_kind(st, e, old, ERR_QUERY[name], I1, I0)
        if name in ERR_CLEAR:
            return [(UNDEF, st.seterr(args[0], 'clear'))]
        if name == 'picotm_error_is_error':
            old = st.err.get(args[0])
            return self.query_kind(st, args[0], old, 'conflicting', I0, I1) if old else [(I0, st)]
        if args and name.startswith('picotm_recover_from_error') or args and name in ('picotm_error_mark_as_non_recoverable', 'picotm_error_status', 'picotm_error_as_errno'):
            e = args[0]
            return self.on_recover(eng, name, e, st, site)
        return self.default(eng, name, callee, args, st, site)

    def query_kind(self, st, e, old, kind, yes, no):
        ks = old[0] if isinstance(old[0], frozenset) else frozenset({old[0]})
        out = []
        if kind in ks:
            out.append((yes, st.seterr(e, (frozenset({kind}), old[1], old[2], True))))
        if ks - {kind}:
            out.append((no, st.seterr(e, (ks - {kind}, old[1], old[2], True))))
        return out

    def on_recover(self, eng, name, e, st, site):
        old = st.err.get(e)
        if old:
            st = st.seterr(e, (old[0], old[1], old[2], True))
        return [(('R', name, site.id, site.ctx), st)]

    def mark(self, st, name, site):
        return st.note(site.where, name)

    def overwrite(self, eng, st, site, e, old, kind):
        pass

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        if name in ('__assert_fail', 'abort', '_exit', 'exit', '_Exit', 'siglongjmp', 'longjmp') and callee is None:
            return []
        ees = [(k, a) for k, a in enumerate(args) if self.is_err(eng, a, callee, k)]
        R = ('R', name, site.id, site.ctx)
        self.before(eng, name, callee, args, ees, st, site)
        self.seen_calls.add(site.id)
        if self.small(site, callee):
            return 'inline'
        st = eng.clobber(st.kill(R), [a for a in args if not self.is_err(eng, a, callee)])
        out = self.ok_results(eng, name, callee, args, R, st, site)
        for k, e in ees:
            kinds = self.kinds(eng, callee, k, args) if callee is not None else None
            if name == '(indirect)':
                kinds = frozenset({'conflicting', 'revocable', 'errno', 'code'})
            if kinds:
                s2 = self.failed(eng, name, callee, args, e, kinds, R, st, site)
                if s2 is not None:
                    out += self.with_ret(eng, s2, R, ret_summary(self.prog, callee)[1] if callee is not None and callee.ret != 'void' else None)
        return out

    def with_ret(self, eng, st, R, vals):
        if vals is None:
            return [(R, st)]
        out = []
        for v in sorted(vals):
            f = dict(st.facts)
            f[R] = (v, v, frozenset())
            out.append((R, st.with_(facts=f)))
        return out

    def ok_results(self, eng, name, callee, args, R, st, site):
        if callee is not None:
            if errparams(callee):
                return self.with_ret(eng, st, R, ret_summary(self.prog, callee)[0])
            return [(R, st)]
        f = dict(st.facts)
        if name in NEGATIVE:
            f[R] = (0, 0 if name in ZERO else float('inf'), frozenset())
            bad = (-1, -1, frozenset())
        elif name in NULLRES:
            f[R] = (-float('inf'), float('inf'), frozenset({0}))
            bad = (0, 0, frozenset())
        elif name in NONZERO:
            f[R] = (0, 0, frozenset())
            bad = (1, float('inf'), frozenset())
        else:
            return [(R, st)]
        g = dict(st.facts)
        g[R] = bad
        s2 = self.os_failed(eng, name, args, R, st.with_(facts=g), site)
        return [(R, st.with_(facts=f))] + ([(R, s2.note(site.where, name + ' fails'))] if s2 is not None else [])

    def os_failed(self, eng, name, args, R, st, site):
        return st

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        s2 = st.seterr(e, (kinds, name, site.where, False))
        s2 = s2.with_(ps=tuple(x for x in s2.ps if x[0] != R and x[1] in s2.err) + ((R, e),))
        return s2.note(site.where, name + ' fails')

    def before(self, eng, name, callee, args, ees, st, site):
        pass

    def candidates(self, eng, fv, cands, st, site):
        if cands and len(cands) == 1 and fv[0] == 'F':
            return cands
        return None


def roots(prog, libs=None):
    for k in sorted(prog.fns):
        fn = prog.fns[k]
        if fn.lib.startswith('inst_'):
            continue
        yield fn
