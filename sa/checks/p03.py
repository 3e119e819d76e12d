"""P03: public functions return only after success and otherwise enter recovery."""
from .errflow import *

EXPLANATION = (
    "Every function that owns an error object or enters recovery itself is analysed path by path. (1) returned: it never returns "
    "while the object of a failed step is set, and never returns from a failed step without having entered recovery and having repeated the "
    "step. (2) stale: no step that can fail runs with an object that still carries an earlier failure. (3) spurious: "
    "recovery is entered only with an object that carries a failure. (4) os-failure: after an operating-system call that reports "
    "failure by its result, such a function enters recovery before it returns. (5) no-return: the recovery entry points of the core never return to "
    "their caller while a transaction runs.")

RECOVER = ('picotm_recover_from_error', 'picotm_recover_from_errno', 'picotm_recover_from_error_code', 'picotm_recover_from_siginfo_t',
           'picotm_resolve_conflict', 'picotm_restart', 'picotm_irrevocable')

# functions whose own contract is to hand the operating system's result to their caller
OS_RESULT = {}


class Public(ErrPlugin):
    def __init__(self, prog):
        ErrPlugin.__init__(self, prog)
        self.nstep = self.nrec = self.nret = 0

    def keep(self, ps):
        return [x[0] for x in ps if isinstance(x[0], tuple)]

    def before(self, eng, name, callee, args, ees, st, site):
        pass

    def check_stale(self, eng, name, callee, args, ees, st, site):
        for k, e in ees if not name.startswith('llvm.') else ():
            self.nstep += 1
            old = st.err.get(e)
            if old and e[0] == 'A' and (callee is None or self.ms.get((callee.key, k))):
                self.report('stale', st, site, name, '%s runs with the error object of the failed %s still set' % (name, old[1]))

    def on_recover(self, eng, name, e, st, site):
        if name.startswith('picotm_recover_from_error') and name not in ('picotm_recover_from_error_code',):
            self.nrec += 1
            if not st.err.get(e) and e[0] == 'A':
                self.report('spurious', st, site, name, 'recovery is entered with an error object that carries no failure')
            elif e[0] == 'A':
                step = st.err[e][1]
                if step in ERR_SET:
                    os_ = [x[2] for x in st.ps if x[1] == 'os']
                    step = os_[-1] if os_ else None
                st = st.seterr(e, (frozenset({'recovered'}), st.err[e][1], site.where, True)).note(site.where, 'recovery')
                if step:
                    st = st.with_(ps=st.ps + (('again', step, site.where, e),))
            st = st.with_(ps=tuple(x for x in st.ps if x[1] != 'os'))
        elif name == 'picotm_recover_from_error_code':
            st = st.with_(ps=tuple(x for x in st.ps if x[1] != 'os'))
        return [(('R', name, site.id, site.ctx), st)]

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.mem') or name in ERR_CLEAR:
            old = st.err.get(args[0])
            if old and args[0][0] == 'A' and 'recovered' not in old[0]:
                self.report('returned', st, site, old[1] + ':cleared', 'the failure of %s (%s) is cleared without entering recovery' % (old[1], old[2]))
        if name in RECOVER:
            self.nrec += 1
            st = st.with_(ps=tuple(x for x in st.ps if x[1] != 'os'))
        self.check_stale(eng, name, callee, args, [(k, a) for k, a in enumerate(args) if self.is_err(eng, a, callee, k)], st, site)
        if any(x[0] == 'again' for x in st.ps) and not name.startswith('llvm.'):
            st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'again' or not (x[1] == name or x[3] in args)))
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def enter(self, eng, fn, args, st, site):
        if any(x[0] == 'again' for x in st.ps):
            st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'again' or x[3] not in args))
        return st

    def os_failed(self, eng, name, args, R, st, site):
        return st.with_(ps=tuple(x for x in st.ps if x[0] != R) + ((R, 'os', name, site.where),))

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def overwrite(self, eng, st, site, e, old, kind):
        if e[0] == 'A' and 'recovered' in (old[0] if isinstance(old[0], frozenset) else ()):
            pass

    def ret(self, eng, fn, val, st, site):
        if site.ctx:
            return st
        self.nret += 1
        if fn.name == '__picotm_begin' and val == I0:
            return st       # this result starts the user's recovery code
        for e, v in st.err.items():
            if v and e[0] == 'A' and 'recovered' not in v[0]:
                self.report('returned', st, site, v[1],
                            '%s returns after the failure of %s (%s) without entering recovery' % (fn.name, v[1], v[2]))
        for x in st.ps:
            if x[0] == 'again':
                self.report('returned', st, site, x[1], '%s returns after the failure of %s (recovery entered in %s) without repeating it' % ((fn.name,) + x[1:3]))
            if x[1] == 'os' and fn.name not in OS_RESULT:
                self.report('os-failure', st, site, x[2], '%s returns after %s failed (%s) without entering recovery' % (fn.name, x[2], x[3]))
        return st


def owns(fn):
    if errparams(fn):
        return False
    for i in fn.instrs():
        if i['op'] == 'alloca' and i.get('aty') == 'struct.picotm_error':
            return True
        if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in RECOVER:
            return True
    return False


class Restarts(Plugin):
    def keep(self, ps):
        return (ps or ()) + ((self.sv,) if self.sv else ())

    sv = None
    copies = frozenset()

    def load(self, eng, addr, st, site):
        if self.sv and addr[0] == 'P' and addr[1] in self.copies and addr[2] == self.sv[1][2] and addr not in st.mem:
            m = dict(st.mem)
            m[addr] = self.sv
            return st.with_(mem=m)
        return st

    def __init__(self):
        self.n = 0
        self.raw = []

    def model(self, eng, name, callee, args, st, site):
        if name in ('siglongjmp', '__siglongjmp_chk', 'longjmp', '_longjmp', '__longjmp_chk'):
            self.n += 1
            return []
        if self.sv and (name in ('memcpy', 'memmove') or name.startswith('llvm.memcpy')) and args[1] == self.sv[1][1]:
            # the status travels with a copy of the error
            m = dict(st.mem)
            m[('P', args[0], self.sv[1][2])] = self.sv
            self.copies = self.copies | {args[0]}
            return [(args[0], st.with_(mem=m).seterr(args[0], st.err.get(self.sv[1][1])))]
        if name in ERR_QUERY or name == '__assert_fail' or name in ERR_SET:
            return None
        if callee is not None and callee.unit == site.fn.unit and callee.internal:
            return None
        if callee is not None and pure(eng.prog, callee) and name != 'picotm_tx_is_irrevocable':
            return 'inline'
        R = ('R', name, site.id, site.ctx)
        return [(R, st.with_(ps=(st.ps or ()) + (R,)) if name == 'picotm_tx_is_irrevocable' else st)]

    def ret(self, eng, fn, val, st, site):
        if not site.ctx:
            self.raw.append((site, st))
        return st


def run(prog, rep):
    n = step = rec = nr = 0
    for fn in roots(prog):
        if not owns(fn):
            continue
        pl = Public(prog)
        Engine(prog, pl, budget=60000).run_root(fn)
        n += 1
        step += pl.nstep
        rec += pl.nrec
        nr += pl.nret
        for rule, f, site, what, msg, st in pl.raw:
            rep.bad(rule, '%s:%s' % (fn.name, what), site.where, msg, trace_list(st))
    rep.count('stale', step)
    rep.count('spurious', rec)
    rep.count('returned', nr)
    rep.floor('functions that own an error object', n, 90)
    rep.floor('recoveries', rec, 100)
    sidx = prog.fieldidx('struct.picotm_error', 'status')
    stats = [prog.enum(e) for e in ('PICOTM_CONFLICTING', 'PICOTM_REVOCABLE', 'PICOTM_ERROR_CODE', 'PICOTM_ERRNO',
                                    'PICOTM_KERN_RETURN_T', 'PICOTM_SIGINFO_T')]
    for name in RECOVER:
        fn = prog.get(name, 'core', optional=True)
        if fn is None:
            continue
        arg = Engine(prog, Plugin()).default_args(fn)
        for v in stats if name == 'picotm_recover_from_error' else (None,):
            pl = Restarts()
            facts, err = {}, {}
            if v is not None:
                pl.sv = ('L', ('P', arg[0], (('f', 'struct.picotm_error', sidx),)))
                facts[pl.sv] = (v, v, frozenset())
                err[arg[0]] = 'code'
            Engine(prog, pl).run_root(fn, err=err, facts=facts)
            back = [st for site, st in pl.raw if name != 'picotm_irrevocable' or not any(
                k[0] == 'R' and k[1] == 'picotm_tx_is_irrevocable' and (f[0] > 0 or 0 in f[2]) for k, f in st.facts.items())]
            rep.ob('no-return', pl.n > 0 and not back, name, fn.loc(),
                   '%s can return to its caller without restarting the transaction' % name, trace_list(back[0]) if back else None)
