"""P02: conflicts stay conflicts, requests for irrevocability stay requests."""
from .errflow import *

EXPLANATION = (
    "(1) overwrite: path-sensitive analysis of every function with an error object: no error setter runs on an object that already "
    "carries a failure that may be a conflict or a request for irrevocability. (2) gate: an error set directly on the branch taken because the "
    "transaction is revocable (isnoundo false) must be the 'revocable' status. (3) refused: a function that finds a descriptor "
    "closing/no longer open reports a conflict. (4) try-lock: the reader/writer lock's try operations return without an error only "
    "on a path on which the lock word's compare-exchange succeeded, and themselves report only conflicts. (5) status: each setter "
    "stores its own status constant and each query tests its own. (6) restart: the status of an error determines the restart mode "
    "(conflict -> retry, revocable -> irrevocable, anything else -> recovery) and each mode value of __picotm_begin leads to its own phase.")


def teardown(prog):
    """functions that release an object: they run when the last reference is gone, and
    for them a closing descriptor is the expected state"""
    if not hasattr(prog, '_teardown'):
        work = []
        for fn in prog.fns.values():
            for i in fn.instrs():
                if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] == 'picotm_shared_ref16_obj_down':
                    for o in i['args']:
                        if o[0] == 'F':
                            c = prog.resolve(fn, o[1])
                            if c is not None:
                                work.append(c)
        prog._teardown = {c.key for c in work}
    return prog._teardown


class Overwrite(ErrPlugin):
    def __init__(self, prog):
        ErrPlugin.__init__(self, prog)
        self.nset = 0
        self.ngate = 0
        self.nclose = 0
        self.teardown = teardown(prog)
        self.fdstate = None
        if 'struct.fd' in prog.structs:
            self.fdstate = prog.fieldidx('struct.fd', 'state', optional=True)
        self.closing = prog.enum('FD_STATE_CLOSING', optional=True)
        self.inuse = prog.enum('FD_STATE_INUSE', optional=True)

    def small(self, site, callee):
        if callee is not None and not callee.internal and len(site.ctx) < 3 and sum(len(b) for b in callee.blocks) < 20 and \
                pure(self.prog, callee) and any(i['op'] == 'load' for i in callee.instrs()):
            return True
        return ErrPlugin.small(self, site, callee)

    # ps: ('gate', ...) last branch was "not irrevocable"; ('closing',)
    def keep(self, ps):
        return ()

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def overwrite(self, eng, st, site, e, old, kind):
        ks = old[0] if isinstance(old[0], frozenset) else frozenset({old[0]})
        lost = ks & {'conflicting', 'revocable'}
        if lost:
            self.report('overwrite', st, site, '%s>%s' % (old[1], kind),
                        'sets %s over the failure of %s (%s), which may be %s' % (kind, old[1], old[2], '/'.join(sorted(lost))))

    def mark(self, st, name, site):
        self.nset += 1
        if 'gate' in st.ps:
            self.ngate += 1
            if ERR_SET[name] != 'revocable':
                self.report('gate', st, site, name, 'a revocable transaction is refused with %s instead of a restart as irrevocable' % name)
        return st.with_(ps=tuple(x for x in st.ps if x != 'gate')).note(site.where, name)

    def branch(self, eng, cond, truth, st, site):
        ps = tuple(x for x in st.ps if x != 'gate')
        c, t = cond, truth
        while c[0] == 'O' and c[1] in ('not', 'xor'):
            c, t = c[2], not t
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3] == ('i', 0):
            z = (c[1] == 'eq') == t
            if self.isflag(c[2]) and z:
                ps += ('gate',)
        elif self.isflag(c) and not t:
            ps += ('gate',)
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and c[3][0] == 'i' and c[2][0] == 'L' and c[2][1][0] == 'P':
            last = c[2][1][2][-1]
            if last[0] == 'f' and last[1] == 'struct.fd' and last[2] == self.fdstate:
                eq = (c[1] == 'eq') == t
                if (eq and c[3][1] == self.closing) or (not eq and c[3][1] == self.inuse):
                    ps = tuple(x for x in ps if x != 'closing') + ('closing',)
        if ps != st.ps:
            st = st.with_(ps=ps)
        return st

    def isflag(self, v):
        return v[0] == 'Arg' and v[1] in ('_Bool', 'bool') and v[3] in ('isnoundo', 'noundo', 'is_irrevocable') or \
            v[0] == 'R' and v[1] in ('picotm_is_irrevocable', 'picotm_tx_is_irrevocable')

    def ret(self, eng, fn, val, st, site):
        if not site.ctx and 'closing' in st.ps and errparams(fn) and fn.key not in self.teardown:
            self.nclose += 1
            e = [v for k, v in st.err.items() if k[0] == 'Arg']
            ks = e[0][0] if e else None
            if not e or (ks != 'conflicting' and ks != frozenset({'conflicting'})):
                self.report('refused', st, site, 'closing', 'a closing descriptor is not reported as a conflict')
        return st


class TryLock(Plugin):
    """returns without error only after winning the compare-exchange"""
    def __init__(self):
        self.raw = []
        self.n = 0
        self.wins = 0

    def init(self, eng, root):
        self.root = root
        return None

    def atomic(self, eng, kind, addr, ins, st, site):
        if kind == 'cmpxchg':
            return st.with_(ps=('X', ('R', 'cmpxchg', (site.fn.key, ins['i']), site.ctx), (1,)))
        return st

    def keep(self, ps):
        return (ps,) if ps else ()

    def candidates(self, eng, fv, cands, st, site):
        return cands

    def model(self, eng, name, callee, args, st, site):
        if name in ERR_SET:
            if ERR_SET[name] != 'conflicting':
                self.raw.append(('kind', site, 'the lock reports %s' % name, st))
            return None
        if callee is not None and callee.unit == site.fn.unit and name not in ERR_QUERY:
            return None          # inline
        if callee is None and not name.startswith('picotm'):
            return None
        out = [(('R', name, site.id, site.ctx), st)]
        if callee is not None:
            for k in errparams(callee):
                if k < len(args):
                    out.append((out[0][0], st.seterr(args[k], 'code')))
        return out if name not in ERR_QUERY else None

    def ret(self, eng, fn, val, st, site):
        if site.ctx:
            return st
        self.n += 1
        if not any(st.err.values()):
            r = eng.getfact(st, st.ps) if st.ps else (0, 0)
            if not st.ps or not (r[0] > 0 or r == (1, 1, frozenset()) or 0 in r[2]):
                self.raw.append(('acquired', site, '%s returns without an error although the lock word was not acquired' % fn.name, st))
            else:
                self.wins += 1
        return st


class Restart(Plugin):
    def __init__(self, sfield):
        self.hits = []
        self.sfield = sfield

    def model(self, eng, name, callee, args, st, site):
        if name in ('siglongjmp', '__siglongjmp_chk', 'longjmp', '_longjmp', '__longjmp_chk'):
            for k, r in st.facts.items():
                if k[0] == 'L' and k[1][0] == 'P' and k[1][2][-1][:3] == ('f', 'struct.picotm_error', self.sfield) and r[0] == r[1]:
                    self.hits.append((r[0], args[1], site, st))
                    break
            else:
                self.hits.append((None, args[1], site, st))
            return []
        if name in ERR_QUERY or name == '__assert_fail':
            return None
        if callee is not None and callee.unit == site.fn.unit and callee.internal:
            return None
        if callee is not None and pure(eng.prog, callee):
            return 'inline'
        return [(('R', name, site.id, site.ctx), st)]

    def keep(self, ps):
        return ()


class KeepStatus(Restart):
    def __init__(self, sfield, v):
        Restart.__init__(self, sfield)
        self.v = v

    def model(self, eng, name, callee, args, st, site):
        src = self.v[1][1]
        if (name in ('memcpy', 'memmove') or name.startswith('llvm.memcpy')) and args[1] == src:
            # the status travels with a copy of the error
            m = dict(st.mem)
            m[('P', args[0], self.v[1][2])] = self.v
            st = st.with_(mem=m, ps=(args[0],))
            return [(args[0], st.seterr(args[0], st.err[src]) if src in st.err else st)]
        return Restart.model(self, eng, name, callee, args, st, site)

    def load(self, eng, addr, st, site):
        if addr[0] == 'P' and addr[1] in st.ps and addr[2] == self.v[1][2] and addr not in st.mem:
            m = dict(st.mem)
            m[addr] = self.v
            return st.with_(mem=m)
        return st

    def keep(self, ps):
        return (self.v,)


def run(prog, rep):
    nset = ngate = nclose = n = 0
    for fn in roots(prog):
        if fn.name in ERR_SET or fn.name in ERR_QUERY or fn.name in ERR_CLEAR:
            continue
        if not errparams(fn) and not any(i.get('aty') == 'struct.picotm_error' for i in fn.instrs() if i['op'] == 'alloca'):
            continue
        pl = Overwrite(prog)
        Engine(prog, pl, budget=60000).run_root(fn)
        n += 1
        nset += pl.nset
        ngate += pl.ngate
        nclose += pl.nclose
        for rule, f, site, what, msg, st in pl.raw:
            rep.bad(rule, '%s:%s' % (f.name, what), site.where, '%s (in %s)' % (msg, f.name), trace_list(st))
    rep.count('overwrite', nset)
    rep.count('gate', ngate)
    rep.count('refused', nclose)
    rep.floor('error setters analysed in context', nset, 200)
    rep.floor('revocable gates', ngate, 12)
    rep.floor('closing-descriptor exits', nclose, 2)

    # (4) try-locks of the core reader/writer lock
    for name in ('picotm_rwlock_try_rdlock', 'picotm_rwlock_try_wrlock'):
        fn = prog.get(name, 'core')
        pl = TryLock()
        Engine(prog, pl).run_root(fn)
        for rule, site, msg, st in pl.raw:
            rep.bad('try-lock-' + rule, name, site.where, msg, trace_list(st))
        rep.count('try-lock', pl.n)
        rep.floor('acquiring exits of ' + name, pl.wins, 1)

    # (5) setters and queries
    sidx = prog.fieldidx('struct.picotm_error', 'status')
    stat = {'picotm_error_set_conflicting': 'PICOTM_CONFLICTING', 'picotm_error_set_revocable': 'PICOTM_REVOCABLE',
            'picotm_error_set_error_code': 'PICOTM_ERROR_CODE', 'picotm_error_set_errno': 'PICOTM_ERRNO',
            'picotm_error_set_kern_return_t': 'PICOTM_KERN_RETURN_T', 'picotm_error_set_siginfo_t': 'PICOTM_SIGINFO_T'}
    qry = {'picotm_error_is_conflicting': 'PICOTM_CONFLICTING', 'picotm_error_is_revocable': 'PICOTM_REVOCABLE'}

    class Th(Plugin):
        track_heap = True
    for name, en in stat.items():
        fn = prog.get(name, 'core', optional=True)
        if fn is None:
            continue
        want = prog.enum(en)
        e = Engine(prog, Th())
        for x in e.run_root(fn):
            v = None
            for k, val in x.st.mem.items():
                if k == ('P', e.default_args(fn)[0], (('f', 'struct.picotm_error', sidx),)):
                    v = val
            if v is None and sidx == 0:
                v = x.st.mem.get(e.default_args(fn)[0])
            rep.ob('status', v == ('i', want), name, fn.loc(), '%s stores status %s instead of %s' % (name, v, en))
    for name, en in qry.items():
        fn = prog.get(name, 'core')
        want = prog.enum(en)
        e = Engine(prog, Plugin())
        ok = True
        for x in e.run_root(fn):
            r = x.ret
            good = r[0] == 'cmp' and r[1] == 'eq' and r[3] == ('i', want)
            if r[0] == 'i':
                f = e.getfact(x.st, ('L', ('P', e.default_args(fn)[0], (('f', 'struct.picotm_error', sidx),))))
                good = f[0] == f[1] == want if r[1] else (want < f[0] or want > f[1] or want in f[2])
            ok = ok and good
        rep.ob('status', ok, name, fn.loc(), '%s does not test for %s' % (name, en))

    # (6) error status -> restart mode
    modes = {'PICOTM_CONFLICTING': 'PICOTM_MODE_RETRY', 'PICOTM_REVOCABLE': 'PICOTM_MODE_IRREVOCABLE',
             'PICOTM_ERROR_CODE': 'PICOTM_MODE_RECOVERY', 'PICOTM_ERRNO': 'PICOTM_MODE_RECOVERY',
             'PICOTM_KERN_RETURN_T': 'PICOTM_MODE_RECOVERY', 'PICOTM_SIGINFO_T': 'PICOTM_MODE_RECOVERY'}
    fn = prog.get('picotm_recover_from_error', 'core')
    arg = Engine(prog, Plugin()).default_args(fn)[0]
    sv = ('L', ('P', arg, (('f', 'struct.picotm_error', sidx),)))
    for en, md in modes.items():
        v, m = prog.enum(en), prog.enum(md)
        pl = KeepStatus(sidx, sv)
        e = Engine(prog, pl)
        e.run_root(fn, err={arg: 'code'}, facts={sv: (v, v, frozenset())})
        for s, a, site, st in pl.hits:
            rep.ob('restart', a == ('i', m), en, site.where, 'an error of status %s restarts with mode %s instead of %s' % (en, a, md))
        rep.ob('restart', bool(pl.hits), en + ':none', fn.loc(), 'an error of status %s does not restart the transaction' % en)
    for name, md in (('picotm_resolve_conflict', 'PICOTM_MODE_RETRY'), ('picotm_irrevocable', 'PICOTM_MODE_IRREVOCABLE'),
                     ('picotm_restart', 'PICOTM_MODE_RESTART'), ('picotm_recover_from_errno', 'PICOTM_MODE_RECOVERY'),
                     ('picotm_recover_from_error_code', 'PICOTM_MODE_RECOVERY'), ('picotm_recover_from_siginfo_t', 'PICOTM_MODE_RECOVERY')):
        fn = prog.get(name, 'core', optional=True)
        if fn is None:
            continue
        pl = Restart(sidx)
        Engine(prog, pl).run_root(fn)
        rep.ob('restart', bool(pl.hits), name + ':none', fn.loc(), '%s does not restart the transaction' % name)
        for s, a, site, st in pl.hits:
            rep.ob('restart', a == ('i', prog.enum(md)), name, site.where, '%s restarts with mode %s instead of %s' % (name, a, md))
