"""P28: signals enter recovery only inside transactions that asked for them; handlers are handed over and back."""
from ..build import AnalysisBroken, application
from ..engine import Engine, UNDEF, I0, I1, base_of, root_of, mentions, trace_list
from .errflow import ErrPlugin, errparams, ERRT
from .p25 import handlers, reach
from .. import affine

EXPLANATION = (
    "Path-sensitive dataflow over LLVM IR of the public signal operations, of the module's begin and finish operations and of the function that is installed with sigaction (found as the value stored in the sigaction structure). "
    "(1) range: whenever a per-signal table is indexed, the path has established 0 <= index < length, and on the paths that reject a number nothing is stored and the error (if the operation has one) is set. "
    "(2) recover: the handler enters error recovery only on paths on which the thread's transaction runs, and the state of the very signal that arrived is non-zero; the error carries the signal's description and is non-recoverable exactly in the non-recoverable state; "
    "a path that does not recover has found one of these conditions false, and then calls the stored handler of the application with the handler's own arguments unless there is none. "
    "(3) state: adding, removing, clearing and initialising write the right state to the right place; begin and finish switch the flag that tells that a transaction runs. "
    "(4) hand-over: acquiring installs the handler with SA_SIGINFO only for a signal that is not acquired, saves the old action of that signal, has stored the application's handler and the acquired mark before, and takes both back when sigaction fails; "
    "releasing restores the saved action of that signal only if it is acquired, and then clears the mark. "
    "(5) locks: marks and handlers are changed only with the entry's lock held; no lock that the handler takes is held while a handler is installed or while the application's handler runs, and outside the handler it is taken only while the handler is known not to be installed; each lock is given back on every path. "
    "(6) mask: the beginning of a transaction, expanded in an application that is compiled against the public headers as configured for this system, saves the signal mask in the jump buffer it hands to picotm, "
    "because recovery leaves the handler without returning from it and the signal would stay blocked otherwise.")

TX, ENT = 'struct.signal_tx', 'struct.sigstate_entry'
INF = float('inf')


def last(a):
    return a[2][-1] if a[0] == 'P' and a[2] else None


def isfield(a, s, f):
    l = last(a)
    return l is not None and l[0] == 'f' and l[1:3] == (s, f)


def strip(v):
    while v[0] == 'O' and v[1] in ('zext', 'sext', 'trunc', 'freeze'):
        v = v[2]
    return v


class Sig(ErrPlugin):
    track_heap = True
    keep_facts = True
    max_depth = 16

    def __init__(self, prog, rep, X):
        ErrPlugin.__init__(self, prog)
        self.rep, self.X = rep, X
        self.paths = []

    def init(self, eng, root):
        self.root = root
        return ()

    def keep(self, ps):
        return [x for e in ps for x in e[1:] if isinstance(x, tuple)]

    def overwrite(self, *a):
        pass

    def failedres(self, v, st):
        return None

    def small(self, site, callee):
        return False

    def ev(self, st, *e):
        if any(x == e for x in st.ps):
            return st
        return st.with_(ps=st.ps + (e,))

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def inrange(self, eng, st, a, site):
        """every index into a table of signals on the way to address a is in range"""
        if a[0] != 'P':
            return
        for k, s in enumerate(a[2]):
            if s[0] != 'x':
                continue
            t = a[2][k - 1] if k else None
            if t is not None and t[0] == 'f':
                n = self.X.length(t)
            elif k + 1 < len(a[2]) and a[2][k + 1][:2] == ('f', ENT) and base_of(a)[0] == 'G':
                n, t = self.X.entries, ('f', 'global', 'entries')
            else:
                continue
            if n is None or s[1][0] == 'T':
                continue
            lo, hi, _ = eng.getfact(st, s[1]) if s[1][0] != 'i' else (s[1][1], s[1][1], None)
            self.rep.ob('range', lo >= 0 and hi <= n - 1, '%s:%s.%s' % (self.root.name, t[1], t[2]), site.where, '%s: a table of signals is indexed with a number that is not known to be in range' % self.root.name, trace_list(st))
            self.X.idx.add(s[1])

    def mine(self, a):
        return a[0] == 'P' and any(s[0] == 'f' and s[1] in (TX, ENT) for s in a[2])

    def load(self, eng, addr, st, site):
        if self.mine(addr):
            self.inrange(eng, st, addr, site)
        return st

    def store(self, eng, addr, val, st, site):
        if self.mine(addr):
            self.inrange(eng, st, addr, site)
            if isfield(addr, ENT, self.X.acq) or isfield(addr, ENT, self.X.app):
                own = ('P', addr[1], addr[2][:-1] + (('f', ENT, self.X.lock),))
                self.rep.ob('locks', own in self.held(st), '%s:field%d' % (self.root.name, addr[2][-1][2]), site.where, '%s: the entry of a signal is changed without its lock' % self.root.name, trace_list(st))
            st = self.ev(st, 'store', addr, val) if addr[0] == 'P' and not any(s[0] == 'x' and s[1][0] == 'T' for s in addr[2]) else st
        return st

    def held(self, st):
        h = []
        for e in st.ps:
            if e[0] == 'lock':
                h.append(e[1])
            elif e[0] == 'unlock' and e[1] in h:
                h.remove(e[1])
        return h

    def default(self, eng, name, callee, args, st, site):
        R = ('R', name, site.id, site.ctx)
        if name in ('picotm_spinlock_lock', 'picotm_spinlock_unlock'):
            k = 'lock' if name.endswith('_lock') else 'unlock'
            n = sum(1 for e in st.ps if e[0] == k)
            new = st.with_(ps=st.ps + ((k, args[0], ('i', n)),)).note(site.where, name)
            # whatever the lock protects may have changed
            if k == 'lock':
                self.X.locked.append((self.root, args[0], st, site))
            return [(UNDEF, new)]
        if name == 'picotm_error_mark_as_non_recoverable':
            return [(UNDEF, self.ev(st, 'nonrec', args[0]))]
        if name in ('sigemptyset', 'sigfillset', 'sigaddset', 'sigdelset') and callee is None:
            f, g = dict(st.facts), dict(st.facts)
            f[R], g[R] = (0, 0, frozenset()), (-1, -1, frozenset())
            return [(R, st.with_(facts=f)), (R, self.ev(st.with_(facts=g), 'maskfail'))]
        if name == 'sigaction' and callee is None:
            a = args[1]
            h = m = None
            if base_of(a)[0] == 'A':
                for k, v in st.mem.items():
                    if base_of(k) == base_of(a) and v[0] in ('F', 'Arg'):
                        h = v
                    if isfield(k, 'struct.sigaction', self.X.flags):
                        m = v
            e = ('sigaction', args[0], a, args[2], h or ('n',), m or ('n',))
            self.X.installs.append((self.root, st, site, e))
            ok = self.ev(st, *e).note(site.where, 'sigaction')
            f, g = dict(ok.facts), dict(ok.facts)
            f[R], g[R] = (0, 0, frozenset()), (-1, -1, frozenset())
            return [(R, ok.with_(facts=f)), (R, self.ev(ok.with_(facts=g), 'sigfail').note(site.where, 'sigaction fails'))]
        if callee is not None and 'struct signal_module*' in (callee.dty[0],) and callee.dty[1:] and len(errparams(callee)):
            e = args[errparams(callee)[0]]
            f = dict(st.facts)
            f[R] = (1, INF, frozenset({0}))
            out = [(R, st.with_(facts=f))]
            init = args[-2] if len(args) >= 2 else UNDEF
            if init != I1:
                out.append((I0, self.ev(st, 'nomodule').note(site.where, 'the thread has no state yet')))
            if init != I0:
                out.append((I0, self.ev(st, 'nomodule').seterr(e, (frozenset({'errno'}), name, site.where, False))))
            return out
        if callee is not None and callee.dty[0] == 'struct __signal_module_state*':
            return [(R, st)]
        if name == 'picotm_register_module':
            return [(R, self.ev(st, 'registered', args[1])), (R, st.seterr(args[2], (frozenset({'errno'}), name, site.where, False)))]
        if name == '(indirect)':
            held = [x for x in self.held(st)]
            e = ('app',) + tuple(args)
            self.X.calls.append((self.root, st, site, e))
            return [(UNDEF, self.ev(st, *e).note(site.where, 'the application\'s handler is called'))]
        if callee is not None and (callee.lib == 'libc' or callee.internal):
            return 'inline'
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def candidates(self, eng, fv, cands, st, site):
        return None if fv[0] != 'F' else cands

    def model(self, eng, name, callee, args, st, site):
        if name == 'picotm_error_set_siginfo_t':
            st = self.ev(st, 'siginfo', args[0], args[1])
        return ErrPlugin.model(self, eng, name, callee, args, st, site)

    def on_recover(self, eng, name, e, st, site):
        if name.startswith('picotm_recover'):
            self.paths.append(('recover', e, st, site.where))
            return []
        if name == 'picotm_error_mark_as_non_recoverable':
            return [(UNDEF, self.ev(st, 'nonrec', e))]
        return ErrPlugin.on_recover(self, eng, name, e, st, site)

    def enter(self, eng, fn, args, st, site):
        if fn.key in self.X.zeroers:
            return self.ev(st, 'zero', root_of(args[self.X.zeroers[fn.key]]) if args else UNDEF)
        return st

    def branch(self, eng, cond, truth, st, site):
        new = set()
        for f, r in st.facts.items():
            if f[0] == 'L' and isfield(f[1], ENT, self.X.acq):
                if r[0] == r[1] == 0:
                    new.add(('acq', f[1], I0))
                elif r[0] > 0 or r[1] < 0 or 0 in r[2]:
                    new.add(('acq', f[1], I1))
        for e in sorted(new, key=repr):
            l = [x for x in st.ps if x[0] == 'acq' or x[0] == 'store' and isfield(x[1], ENT, self.X.acq)]
            if not l or l[-1] != e and l[-1][0] == 'acq':
                st = st.with_(ps=st.ps + (e,))
        return st

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx:
            self.paths.append(('ret', val, st, site.where))
        return st


class Ctx:
    def __init__(self, prog):
        self.prog = prog
        for s in (TX, ENT):
            if s not in prog.structs:
                raise AnalysisBroken('structure %s is gone' % s)
        fi = prog.fieldidx
        self.running, self.state = fi(TX, 'tx_is_running'), fi(TX, 'signal_state')
        self.old, self.app, self.acq, self.lock = fi(ENT, 'old_action'), fi(ENT, 'nontx_sigaction'), fi(ENT, 'acquired'), fi(ENT, 'lock')
        self.flags = fi('struct.sigaction', 'sa_flags')
        self.handler = fi('struct.sigaction', '__sigaction_handler')
        self.idx, self.locked, self.installs, self.calls, self.zeroers = set(), [], [], [], {}
        l = {e[2] for x in prog.structs.values() for e in x['el'] if e[1] == ENT and e[2] > 0}
        self.entries = min(l) if l else None
        self.zero()

    def length(self, step):
        s = self.prog.structs.get(step[1])
        if s is None or step[2] >= len(s['el']):
            return None
        n = s['el'][step[2]][2]
        return n if n > 0 else None

    def zero(self):
        """functions that write 0 to every entry of the signal states of their argument"""
        prog = self.prog
        off, _, n = prog.structs[TX]['el'][self.state][:3]
        for fn in prog.fns.values():
            k = [j for j, t in enumerate(fn.dty[1:]) if t == 'struct signal_tx*']
            if fn.lib != 'libc' or not k:
                continue
            fr = affine.Frame(prog, fn, [])
            base = fr.ev(['a', k[0]])
            want = affine.add(base, affine.const(off))
            for i in fn.instrs():
                ok = False
                if i['op'] == 'store' and i['args'][0] in (['i', 0, 32],) or i['op'] == 'store' and i['args'][0][:2] == ['i', 0]:
                    c, why = affine.loop_cover(fr, i, fr.ev(i['args'][1]))
                    if c is not None:
                        ok = affine.covers(c, want, affine.const(n), affine.const(4))[0] is not None and not c.exits
                elif i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1].startswith(('llvm.memset', 'memset')):
                    a = [fr.ev(o) for o in i['args'][:3]]
                    ok = a[0] == want and a[1] == {} and a[2] == affine.const(4 * n) and all(affine.dominates(fn, fn.block_of(i['i']), b) for b in range(len(fn.blocks)) if fn.blocks[b][-1]['op'] == 'ret')
                if ok and i['op'] == 'store':
                    h, body = affine.innermost_loop(fn, fn.block_of(i['i']))
                    ok = all(affine.dominates(fn, h, b) for b in range(len(fn.blocks)) if fn.blocks[b][-1]['op'] == 'ret')
                if ok:
                    self.zeroers[fn.key] = k[0]


def pub(prog, name):
    f = prog.get(name, 'libc')
    if f is None:
        raise AnalysisBroken('public function %s is gone' % name)
    return f


def run_one(prog, rep, X, fn, rng=None):
    pl = Sig(prog, rep, X)
    eng = Engine(prog, pl)
    args = [('Arg', t, k, fn.argn[k]) for k, t in enumerate(fn.dty[1:])]
    eng.run_root(fn, facts={args[0]: rng} if rng else None)
    return pl, eng, args


def val(v, b, arg):
    """value of v if arg is b (0/1)"""
    v = strip(v)
    if v[0] == 'i':
        return v[1]
    if v == arg:
        return b
    if v[0] == 'O' and len(v) == 4:
        x, y = val(v[2], b, arg), val(v[3], b, arg)
        if x is None or y is None:
            return None
        return {'add': x + y, 'sub': x - y, 'xor': x ^ y, 'and': x & y, 'or': x | y, 'mul': x * y, 'shl': x << y if y >= 0 else None}.get(v[1])
    if v[0] == 'cmp':
        x, y = val(v[2], b, arg), val(v[3], b, arg)
        if x is None or y is None or v[1] not in ('eq', 'ne'):
            return None
        return int((x == y) == (v[1] == 'eq'))
    if v[0] == 'C':
        x, y = val(v[2], b, arg), val(v[3], b, arg)
        if x is None or y is None or v[1] not in ('eq', 'ne'):
            return None
        return int((x == y) == (v[1] == 'eq'))
    return None


APP = """#include <picotm/picotm.h>
void application(void)
{
    picotm_begin
    picotm_commit
    picotm_end
}
"""


def mask(rep):
    n = 0
    for f in application(APP)['functions']:
        for b in f.get('blocks') or ():
            for i in b:
                if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1].strip('_') in ('sigsetjmp', 'setjmp'):
                    n += 1
                    a = i['args'][1] if len(i['args']) > 1 else ['i', 0, 32]
                    rep.ob('mask', a[0] == 'i' and a[1] != 0, 'picotm_begin', 'include/picotm/picotm.h:1',
                           'picotm_begin does not save the signal mask in an application: %s is called%s, so a signal that has been recovered from stays blocked' % (i['fn'][1], ' without saving it' if len(i['args']) > 1 else ''))
    if not n:
        raise AnalysisBroken('picotm_begin does not set a jump buffer')


def run(prog, rep):
    X = Ctx(prog)
    N = X.length(('f', TX, X.state))

    def out(eng, st, v):
        """is signal number v known not to be in range"""
        lo, hi, _ = eng.getfact(st, v)
        return hi < 0 or lo >= N

    def inr(eng, st, v):
        lo, hi, _ = eng.getfact(st, v)
        return lo >= 0 and hi < N

    def states(st):
        return [e for e in st.ps if e[0] == 'store' and len(e[1][2]) >= 2 and e[1][2][-2][0] == 'f' and e[1][2][-2][1:3] == (TX, X.state)]

    # ---- adding, removing, clearing
    np = 0
    add = pub(prog, 'picotm_libc_add_signal')
    pl, eng, A = run_one(prog, rep, X, add)
    for k, v, st, w in pl.paths:
        np += 1
        s = states(st)
        t = trace_list(st)
        bad = bool(st.err.get(A[2]))
        if bad:
            rep.ob('range', not s, add.name + ':stored', w, 'a rejected signal is added all the same', t)
            rep.ob('range', out(eng, st, A[0]) or ('nomodule',) in st.ps, add.name + ':rejects', w, 'a signal number in range is rejected', t)
            continue
        ok = len(s) >= 1 and all(strip(e[1][2][-1][1]) == A[0] for e in s)
        rep.ob('state', ok, add.name + ':where', w, 'a signal is added without a state being stored for it', t)
        if not ok:
            continue
        lo, hi, ne = eng.getfact(st, A[1])
        for b in (0, 1):
            if lo > b or hi < b or b in ne:
                continue
            rep.ob('state', val(s[-1][2], b, A[1]) == (1 if b else 2), '%s:%d' % (add.name, b), w, 'a%s recoverable signal is stored with the wrong state' % ('' if b else ' non-'), t)
    rm = pub(prog, 'picotm_libc_remove_signal')
    pl, eng, A = run_one(prog, rep, X, rm)
    for k, v, st, w in pl.paths:
        np += 1
        s = states(st)
        t = trace_list(st)
        if not s:
            rep.ob('state', out(eng, st, A[0]) or ('nomodule',) in st.ps, rm.name, w, 'a signal is not removed', t)
        else:
            rep.ob('state', all(strip(e[1][2][-1][1]) == A[0] and e[2] == I0 for e in s), rm.name, w, 'removing a signal writes another state than its own, or leaves it enabled', t)
    cl = pub(prog, 'picotm_libc_clear_signals')
    pl, eng, A = run_one(prog, rep, X, cl)
    for k, v, st, w in pl.paths:
        np += 1
        rep.ob('state', ('nomodule',) in st.ps or any(e[0] == 'zero' for e in st.ps), cl.name, w, 'clearing the signals leaves some of them enabled', trace_list(st))
    # ---- begin, finish and initialisation
    def uses(f):
        return any(i['op'] == 'store' and any(s[0] == 'f' and s[1] == TX and s[2] == X.running for g in gep(f, i['args'][1]) for s in g) for g2 in [0] for i in f.instrs())

    def gep(f, o):
        if o[0] == 'v':
            d = f.defs[o[1]]
            if d['op'] == 'getelementptr':
                yield d['gep'][1]
        elif o[0] == 'gep':
            yield o[1][1]
    tabs = {}
    for op in ('begin', 'finish'):
        hs = [f for m, f in handlers(prog, op) if f.lib == 'libc' and any(uses(g) for g in reach(prog, f))]
        rep.ob('state', len(hs) == 1, op, '-', 'no module records that a transaction %ss' % op)
        for f in hs:
            pl, eng, A = run_one(prog, rep, X, f)
            for k, v, st, w in pl.paths:
                np += 1
                s = [e for e in st.ps if e[0] == 'store' and isfield(e[1], TX, X.running)]
                rep.ob('state', bool(s) and (s[-1][2] == I1 if op == 'begin' else s[-1][2] == I0) and not any(st.err.values()), 'module:' + op, w,
                       'at the %s of a transaction the mark that one runs is %s' % (op, 'not set' if op == 'begin' else 'not cleared'), trace_list(st))
    regs = [f for f in prog.fns.values() if f.lib == 'libc' and f.dty[1:2] == ['struct signal_module*'] and any(n == 'picotm_register_module' for _, n, _ in prog.callees(f))]
    for f in regs:
        pl, eng, A = run_one(prog, rep, X, f)
        for k, v, st, w in pl.paths:
            np += 1
            if any(st.err.values()):
                continue
            s = [e for e in st.ps if e[0] == 'store' and isfield(e[1], TX, X.running)]
            rep.ob('state', bool(s) and s[-1][2] == I0, f.name + ':running', w, 'a new thread\'s state does not start outside of transactions', trace_list(st))
            rep.ob('state', any(e[0] == 'zero' for e in st.ps), f.name + ':states', w, 'a new thread\'s state does not start with all signals disabled', trace_list(st))
    rep.floor('module initialisers', len(regs), 1)

    # ---- acquire
    def entry(a):
        """index of the entry that address a belongs to"""
        if a[0] != 'P':
            return None
        for k, s in enumerate(a[2]):
            if s[0] == 'f' and s[1] == ENT:
                p = a[2][k - 1] if k else None
                return (strip(p[1]) if p and p[0] == 'x' else None), s[2]
        return None
    hands = {}
    aq = pub(prog, 'picotm_libc_acquire_proc_signal')
    pl, eng, A = run_one(prog, rep, X, aq)
    for k, v, st, w in pl.paths:
        np += 1
        t = trace_list(st)
        sa = [n for n, e in enumerate(st.ps) if e[0] == 'sigaction']
        err = bool(st.err.get(A[2]))
        rep.ob('locks', not pl.held(st), aq.name + ':balance', w, 'a lock stays held after a signal has been acquired', t)
        ent = [(n, entry(e[1]), e[2]) for n, e in enumerate(st.ps) if e[0] == 'store' and entry(e[1])]
        rep.ob('handover', all(x[1][0] == A[0] for x in ent), aq.name + ':entry', w, 'acquiring a signal changes the entry of another', t)
        acq = [(n, v2) for n, x, v2 in ent if x[1] == X.acq]
        app = [(n, v2) for n, x, v2 in ent if x[1] == X.app]
        if not sa:
            if err:
                rep.ob('range', not inr(eng, st, A[0]) or ('maskfail',) in st.ps, aq.name + ':rejects', w, 'a signal number in range is rejected', t)
            else:
                was = [f for f in st.facts.items() if f[0][0] == 'L' and entry(f[0][1]) == (A[0], X.acq) and (f[1][0] > 0 or f[1][1] < 0 or 0 in f[1][2])]
                rep.ob('handover', bool(was), aq.name + ':skips', w, 'a signal that is not acquired is not acquired by the request', t)
            rep.ob('handover', not ent, aq.name + ':touched', w, 'the entry of a signal is changed although the signal is not acquired by the request', t)
            continue
        e = st.ps[sa[0]]
        fail = ('sigfail',) in st.ps
        rep.ob('handover', len(sa) == 1 and strip(e[1]) == A[0], aq.name + ':signal', w, 'acquiring a signal installs a handler for another one', t)
        rep.ob('handover', entry(e[3]) == (A[0], X.old), aq.name + ':old', w, 'the action that was installed before is not saved in the signal\'s entry', t)
        rep.ob('handover', e[4][0] == 'F' and e[5][0] == 'i' and e[5][1] & 4, aq.name + ':flags', w, 'the handler is not installed as a handler with signal information', t)
        if e[4][0] == 'F':
            hands[e[4][1:3]] = w
        b4 = [x for x in acq if x[0] < sa[0]], [x for x in app if x[0] < sa[0]]
        rep.ob('handover', bool(b4[0]) and b4[0][-1][1][0] == 'i' and b4[0][-1][1] != I0 and bool(b4[1]) and b4[1][-1][1] == A[1], aq.name + ':before', w,
               'the handler is installed before the application\'s handler and the acquired mark are stored', t)
        free = [x for x in X.installs if x[0] is aq]
        if fail:
            rep.ob('handover', err, aq.name + ':error', w, 'a failure of sigaction is not reported', t)
            rep.ob('handover', bool(acq) and acq[-1][0] > sa[0] and acq[-1][1] == I0, aq.name + ':undone', w, 'a signal whose handler could not be installed stays marked as acquired', t)
        else:
            rep.ob('handover', not err and not any(x[0] > sa[0] for x in ent), aq.name + ':done', w, 'a signal that has been acquired is reported as failed or its entry changed afterwards', t)
    rep.floor('installed handlers', len(hands), 1)
    # ---- release
    rl = pub(prog, 'picotm_libc_release_proc_signal')
    pl, eng, A = run_one(prog, rep, X, rl)
    for k, v, st, w in pl.paths:
        np += 1
        t = trace_list(st)
        sa = [n for n, e in enumerate(st.ps) if e[0] == 'sigaction']
        err = bool(st.err.get(A[1]))
        rep.ob('locks', not pl.held(st), rl.name + ':balance', w, 'a lock stays held after a signal has been released', t)
        ent = [(n, entry(e[1]), e[2]) for n, e in enumerate(st.ps) if e[0] == 'store' and entry(e[1])]
        rep.ob('handover', all(x[1][0] == A[0] for x in ent), rl.name + ':entry', w, 'releasing a signal changes the entry of another', t)
        acq = [(n, v2) for n, x, v2 in ent if x[1] == X.acq]
        if not sa:
            no = [f for f in st.facts.items() if f[0][0] == 'L' and entry(f[0][1]) == (A[0], X.acq) and f[1][0] == f[1][1] == 0]
            rep.ob('handover', out(eng, st, A[0]) or bool(no), rl.name + ':skips', w, 'the handler of an acquired signal is not restored', t)
            rep.ob('handover', not ent, rl.name + ':touched', w, 'the entry of a signal is changed although its handler has not been restored', t)
            continue
        e = st.ps[sa[0]]
        rep.ob('handover', len(sa) == 1 and strip(e[1]) == A[0] and entry(e[2]) == (A[0], X.old), rl.name + ':old', w, 'releasing a signal does not restore the action saved for it', t)
        if ('sigfail',) in st.ps:
            rep.ob('handover', err and not ent, rl.name + ':error', w, 'a failure of sigaction is not reported, or the signal counts as released after it', t)
        else:
            rep.ob('handover', not err and bool(acq) and acq[-1][0] > sa[0] and acq[-1][1] == I0, rl.name + ':done', w, 'a released signal stays marked as acquired', t)
    # ---- installs and locks
    def known(root, st, want, A0):
        l = [e for e in st.ps if e[0] == 'acq' and entry(e[1])[0] == A0]
        return bool(l) and l[-1][2] == (I1 if want else I0)
    hlocks = set()
    roots = []
    for u, n in [h[:2][::-1] if isinstance(h[0], int) else h[::-1] for h in hands]:
        f = prog.local.get((u, n)) or next((x for x in prog.by_name.get(n, ()) if x.lib == 'libc'), None)
        if f is None:
            raise AnalysisBroken('handler %s not found' % n)
        roots.append(f)
    n0 = len(X.locked)
    hp = []
    for f in roots:
        # the system calls the handler with the number of a signal it has been installed for
        pl, eng, A = run_one(prog, rep, X, f, (1, N - 1, frozenset()))
        hp.append((f, pl, eng, A))
    hlocks = {last(x[1]) for x in X.locked[n0:] if last(x[1])}
    nrec = 0
    for f, pl, eng, A in hp:
        info = A[1]
        for k, v, st, w in pl.paths:
            np += 1
            t = trace_list(st)
            F = {}
            for a, r in st.facts.items():
                if a[0] == 'L' and a[1][0] == 'P':
                    if isfield(a[1], TX, X.running):
                        F['run'] = r
                    elif len(a[1][2]) >= 2 and a[1][2][-1][0] == 'x' and a[1][2][-2][:3] == ('f', TX, X.state):
                        i = strip(a[1][2][-1][1])
                        own = i == A[0] or i[0] == 'L' and root_of(i[1]) == info and isfield(i[1], 'struct.siginfo_t', 0)
                        F['state' if own else 'other'] = r
            nz = lambda k: k in F and (F[k][0] > 0 or F[k][1] < 0 or 0 in F[k][2])
            z = lambda k: k in F and F[k][0] == F[k][1] == 0
            if k == 'recover':
                nrec += 1
                rep.ob('recover', nz('run'), f.name + ':running', w, 'recovery is entered although no transaction is known to run', t)
                rep.ob('recover', nz('state'), f.name + ':asked', w, 'recovery is entered for a signal that the transaction is not known to have asked for', t)
                rep.ob('recover', ('siginfo', v, info) in st.ps, f.name + ':info', w, 'the error does not carry the description of the signal', t)
                non = ('nonrec', v) in st.ps
                two = 'state' in F and (F['state'][0] == F['state'][1] == 2 or F['state'][0] <= 2 <= F['state'][1] and 2 not in F['state'][2] and all(x in F['state'][2] or x < F['state'][0] for x in (0, 1)))
                not2 = 'state' in F and (2 in F['state'][2] or F['state'][0] > 2 or F['state'][1] < 2)
                rep.ob('recover', two if non else not2, f.name + ':kind', w, 'a signal is %s although it was added as %s' % (('non-recoverable', 'recoverable') if non else ('recoverable', 'non-recoverable')), t)
                rep.ob('locks', not pl.held(st), f.name + ':recover', w, 'recovery starts with a lock held', t)
                continue
            why = z('run') or z('state') or ('nomodule',) in st.ps or any(out(eng, st, i) for i in [A[0]] + [x for x in st.facts if x[0] == 'L' and root_of(x[1]) == info])
            rep.ob('recover', why, f.name + ':misses', w, 'a signal that a running transaction has asked for does not lead to recovery', t)
            rep.ob('locks', not pl.held(st), f.name + ':balance', w, 'the handler returns with a lock held', t)
            app = [e for e in st.ps if e[0] == 'app']
            own = lambda a: a[0] == 'L' and entry(a[1]) == (A[0], X.app)
            if app:
                rep.ob('recover', len(app) == 1 and own(app[0][1]) and app[0][2:5] == tuple(A[:3]), f.name + ':app', w, 'the application\'s handler of the signal is not the one called, or not with the signal\'s own arguments', t)
            else:
                none = [a for a, r in st.facts.items() if own(a) and r[0] == r[1] == 0] or known(f, st, 0, A[0])
                rep.ob('recover', bool(none), f.name + ':noapp', w, 'outside of transactions the application\'s handler is not called', t)
        # outside calls
    for root, st, site, e in X.calls:
        rep.ob('locks', not [x for x in Sig.held(None, st)], '%s:app' % root.name, site.where, 'the application\'s handler runs with a lock held', trace_list(st))
    for root, st, site, e in X.installs:
        h = [x for x in Sig.held(None, st) if last(x) in hlocks]
        rep.ob('locks', not h, '%s:install' % root.name, site.where, 'a signal handler is installed or restored while a lock is held that the handler takes', trace_list(st))
        A0 = ('Arg', root.dty[1], 0, root.argn[0])
        rep.ob('handover', known(root, st, root is rl, A0), '%s:mark' % root.name, site.where,
               'a handler is %s without knowing that the signal %s acquired' % (('restored', 'is') if root is rl else ('installed', 'is not')), trace_list(st))
    for root, a, st, site in X.locked[:n0]:
        if last(a) not in hlocks:
            continue
        A0 = ('Arg', root.dty[1], 0, root.argn[0])
        sig = any(e[0] == 'sigaction' for e in st.ps)
        safe = known(root, st, 0, A0) or root is rl and sig and ('sigfail',) not in st.ps or ('sigfail',) in st.ps and root is aq
        rep.ob('locks', safe, '%s:take' % root.name, site.where, 'a lock that the signal handler takes is taken while the handler may be installed on this thread', trace_list(st))
    mask(rep)
    rep.floor('paths', np, 25)
    rep.floor('paths that recover', nrec, 2)
    rep.floor('locks the handler takes', len(hlocks), 1)
    rep.floor('indices into tables of signals', len(X.idx), 2)
