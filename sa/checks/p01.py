"""P01: no failure inside a transaction is lost."""
from .errflow import *

EXPLANATION = (
    "Path-sensitive error-discipline analysis of every function that has a struct picotm_error parameter or a local error object "
    "(LLVM IR of all library sources). Each call that may set an error (fixpoint over the call graph, callbacks resolved) and each "
    "fallible C-library call is split into success and failure; on the failure path the automaton reports (1) a further step that is "
    "given the error object while it is set, (2) an effect (store to non-local memory, call with side effects) made before the error "
    "was looked at, (3) a use of the failed call's result, (4) a local error object dropped without being looked at, (5) a failed "
    "C-library call after which the function returns without having set the error or handed the failure on by value.")

# (failing callee, later step): confirmed by reading, with reason
EXCEPTIONS = {
    ('*', 'picotm_log_clear'): 'the log is emptied after replay whatever its outcome; the error stays set',
    ('tm_page_unlock_frame', '*'): 'finish walks all pages; error is non-recoverable and stays set',
    ('picotm_tx_rollback', 'return'): 'recovery mode is entered either way; the first error is reported',
    ('file_id_cmp_eq_fildes', 'return'): 'the comparison result goes through the callback data; negative means no reference',
    ('file_ref_if_id', 'memcpy'): 'the failure is saved and reported if no later entry matches',
}
# C-library calls whose failure may be ignored where they release something or query best-effort
DELIBERATE = {4: 'EINTR', 11: 'EAGAIN/EWOULDBLOCK', 12: 'ENOMEM (second attempt follows)'}
TRANSFER = {'read', 'write', 'pread', 'pwrite', 'recv', 'send'}      # may stop short once something was transferred
IGNORABLE = {'setlocale': 'a null result is the documented answer for an unknown category and is returned', 'close': 'no way to report; descriptor is gone', 'pthread_mutex_destroy': '', 'clock_gettime': ''}
RELEASE = {'free', 'close', 'pthread_rwlock_destroy', 'pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_condattr_destroy',
           'pthread_rwlock_unlock', 'pthread_mutex_unlock', 'freelocale', 'perror'}


def releases_only(prog, fn, depth=0):
    """fn has no error parameter and reaches only releasing library calls (at least one)"""
    if not hasattr(prog, '_relo'):
        prog._relo = {}
    if fn.key in prog._relo:
        return prog._relo[fn.key]
    prog._relo[fn.key] = False
    any_, ok = False, not errparams(fn) and depth < 6
    for i in fn.instrs():
        if i['op'] == 'call' and ok:
            if i['fn'][0] != 'F':
                ok = False
                break
            n = i['fn'][1]
            if n in RELEASE:
                any_ = True
            elif n.startswith('llvm.') or n in ('__assert_fail', '__errno_location'):
                continue
            else:
                c = prog.resolve(fn, n)
                if c is not None and releases_only(prog, c, depth + 1):
                    any_ = True
                elif c is None or not pure(prog, c):
                    ok = False
        elif i['op'] in ('atomicrmw', 'cmpxchg') or (i['op'] == 'store' and 'ord' in i):
            any_ = any_ or fn.name.endswith('unlock')
    r = prog._relo[fn.key] = ok and any_
    return r


class P01(ErrPlugin):
    def pend(self, st):
        return [(e, v) for e, v in st.err.items() if v]

    def exempt(self, first, then):
        return (first, then) in EXCEPTIONS or (first, '*') in EXCEPTIONS or ('*', then) in EXCEPTIONS

    def small(self, site, callee):
        if callee is not None and not errparams(callee) and callee.internal and callee.unit == site.fn.unit and len(site.ctx) < 4:
            return sum(len(b) for b in callee.blocks) <= 150
        return ErrPlugin.small(self, site, callee)

    def before(self, eng, name, callee, args, ees, st, site):
        for k, e in ees:
            v = st.err.get(e)
            if v and callee is not None and self.ms.get((callee.key, k), frozenset()) <= {'other'} and self.small(site, callee):
                # a helper that looks at the error, but sets none itself; it
                # is analysed in place, with the failure pending
                continue
            if v and not self.exempt(v[1], name):
                self.report('step-after-failure', st, site, '%s>%s' % (v[1], name),
                            'calls %s with the failure of %s (%s) still pending' % (name, v[1], v[2]))
        if callee is not None and pure(self.prog, callee) or name in ('__errno_location', 'perror'):
            return
        for a in args:
            r = self.failedres(a, st)
            if r and eng.prog.rettype(site.fn, r) == 'ptr' and not (eng.getfact(st, r)[:2] == (0, 0)):
                self.report('use-of-failed-result', st, site, '%s>%s' % (r[1], name), 'passes the result of failed %s to %s' % (r[1], name))
        if not ees and name not in RELEASE and not (callee is not None and releases_only(self.prog, callee)):
            for e, v in self.pend(st):
                if not v[3] and not self.exempt(v[1], name):
                    self.report('unchecked-call', st, site, '%s>%s' % (v[1], name),
                                'calls %s although %s (%s) failed, without looking at the error' % (name, v[1], v[2]))

    def load(self, eng, addr, st, site):
        return self.deref(eng, addr, st, site)

    def deref(self, eng, addr, st, site):
        r = self.failedres(addr, st) if st.ps else None
        if r:
            self.report('use-of-failed-result', st, site, '%s>deref' % r[1], 'dereferences the result of failed %s' % r[1])
        for x in st.ps:
            if x[0] == 'os' and x[2] in NULLRES and root_of(addr) == x[1]:
                self.report('use-of-failed-result', st, site, '%s>deref' % x[2], 'dereferences the null result of failed %s' % x[2])
        return st

    def store(self, eng, addr, val, st, site):
        self.deref(eng, addr, st, site)
        if base_of(addr)[0] != 'A':
            for e, v in self.pend(st):
                if not v[3] and not any(x[1] == e and x[0] in mentions(val) for x in st.ps) and not self.unlock(site):
                    self.report('unchecked-store', st, site, '%s>store' % v[1],
                                'stores to shared state although %s (%s) failed' % (v[1], v[2]))
        return st

    def unlock(self, site):
        return site.fn.name == 'picotm_spinlock_unlock'

    # ps: (R, e) for failed steps, ('os', R, name, where) for failed library calls
    def failedres(self, v, st):
        r = root_of(v)
        for x in st.ps:
            if x[0] == r and st.err.get(x[1]):
                return r
        return None

    def keep(self, ps):
        return [x[0] if isinstance(x[0], tuple) else x[1] for x in ps]

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        s2 = st.seterr(e, (kinds, name, site.where, False))
        s2 = s2.with_(ps=tuple(x for x in s2.ps if isinstance(x[0], str) or x[0] != R and x[1] in s2.err) + ((R, e),))
        return s2.note(site.where, name + ' fails')

    def ok_results(self, eng, name, callee, args, R, st, site):
        if any(x[0] == 'os' and x[1] == R for x in st.ps):
            st = st.with_(ps=tuple(x for x in st.ps if x[1] != R))     # call is being retried
        return ErrPlugin.ok_results(self, eng, name, callee, args, R, st, site)

    def branch(self, eng, cond, truth, st, site):
        if cond[0] == 'cmp' and any(x[0] == 'os' for x in st.ps):
            pred, a, b = cond[1], cond[2], cond[3]
            if pred in ('eq', 'ne') and (pred == 'eq') == truth and b[0] == 'i' and b[1] in DELIBERATE and \
                    any(m[0] == 'R' and m[1] == '__errno_location' for m in mentions(a)):
                st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'os') + ((('again', UNDEF),) if b[1] == 11 else ()))
            elif pred in ('eq', 'ne') and (pred == 'ne') == truth and b[0] == 'i' and b[1] in DELIBERATE:
                pass
            elif pred in ('eq', 'ne') and (pred == 'ne') == truth and a[0] != 'i' and b[0] != 'i':
                st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'os' or x[2] not in TRANSFER))
            elif pred in ('ne', 'eq', 'ugt', 'sgt') and (pred != 'eq') == truth and b == ('i', 0) and a[0] in ('T', 'O') and not any(m[0] == 'R' and m[1] == '__errno_location' for m in mentions(a)):
                # a count of what has been transferred so far
                st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'os' or x[2] not in TRANSFER or x[1] in mentions(a)))
            if pred in ('eq', 'ne') and (pred == 'eq') == truth and b == ('i', 110):
                st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'os' or x[1] != a))      # ETIMEDOUT
        return st

    def os_failed(self, eng, name, args, R, st, site):
        if name in IGNORABLE or name in RELEASE:
            return st
        return st.with_(ps=tuple(x for x in st.ps if x[1] != R) + (('os', R, name, site.where),))

    def mark(self, st, name, site):
        return st.with_(ps=tuple(x for x in st.ps if x[0] != 'os')).note(site.where, name)

    def on_recover(self, eng, name, e, st, site):
        st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'os'))
        return ErrPlugin.on_recover(self, eng, name, e, st, site)

    def ret(self, eng, fn, val, st, site):
        for e, v in self.pend(st):
            if base_of(e)[0] == 'A' and base_of(e)[1] == fn.key and base_of(e)[3] == site.ctx and not v[3] and not self.exempt(v[1], 'return'):
                self.report('dropped', st, site, '%s>return' % v[1], 'returns and drops the failure of %s (%s)' % (v[1], v[2]))
        if val is not None and val[0] in ('T', 'O') and not any(st.err.values()) and eng.getfact(st, val)[1] > 0:
            # the number of bytes transferred before
            st = st.with_(ps=tuple(x for x in st.ps if x[0] != 'os' or x[2] not in TRANSFER or x[1] in mentions(val)))
        if not site.ctx:
            if val is not None and errparams(fn):
                bad = [v for e, v in st.err.items() if v and e[0] == 'Arg']
                lo, hi, ex = eng.getfact(st, val)
                if bad and not bad[0][3] and not self.exempt(bad[0][1], 'return') and not (hi < 0 or (lo, hi) == (0, 0)) and not any(x[0] in mentions(val) for x in st.ps):
                    self.report('success-while-failed', st, site, '%s>return' % bad[0][1], 'returns %s while the failure of %s (%s) is pending' % (val, bad[0][1], bad[0][2]))
                if not bad and hi < 0 and not any(x[0] == 'again' for x in st.ps):
                    self.report('failure-without-error', st, site, 'return', 'returns %s without an error being set' % (val,))
            for x in st.ps:
                if x[0] == 'os' and self.lost(eng, fn, val, st, x):
                    self.report('os-failure-lost', st, site, '%s>return' % x[2], 'returns without reporting that %s (%s) failed' % (x[2], x[3]))
        return st

    def lost(self, eng, fn, val, st, x):
        if any(st.err.values()):
            return False
        if x[2] == 'realloc' and any(k[0] == 'Arg' and r[:2] == (0, 0) for k, r in st.facts.items()):
            return False     # nothing requested
        if not errparams(fn) and val is not None and (x[1] in mentions(val) or val in (('i', -1), ('i', 0))):
            return False     # handed on by value
        return True


def run(prog, rep):
    n = 0
    steps = set()
    for fn in roots(prog):
        if fn.name in ERR_SET or fn.name in ERR_QUERY:
            continue
        has = errparams(fn) or any(i.get('aty') == 'struct.picotm_error' for i in fn.instrs() if i['op'] == 'alloca')
        if not has:
            continue
        pl = P01(prog)
        e = Engine(prog, pl, budget=60000)
        e.run_root(fn)
        n += 1
        steps |= pl.seen_calls
        for rule, f, site, what, msg, st in pl.raw:
            rep.bad(rule, '%s:%s' % (f.name, what), site.where, '%s (in %s)' % (msg, f.name), trace_list(st))
    rep.count('error-discipline at call sites', len(steps))
    rep.floor('functions', n, 300)
    rep.floor('call sites', len(steps), 1500)
