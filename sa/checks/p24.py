"""P24: time arithmetic is exact and normalized."""
from ..build import AnalysisBroken
from ..octa import Interp, Octagon, plus

NS = 10 ** 9
SEC = 1 << 61

EXPLANATION = (
    "Disjunctive abstract interpretation (octagons over the seconds and nanoseconds of both operands) of the functions on time values, for every pair of normalized operands with seconds between -2^61 and 2^61. "
    "Rules: exact - on every path the result, as seconds*10^9 + nanoseconds, equals the mathematical sum or difference of the operands; normalized - the nanoseconds of the result are between 0 and 999999999; operand - the right-hand side is left as it was; "
    "order - the comparison returns a negative, zero or positive value exactly as the left-hand side is before, equal to or after the right-hand side; defined - no computation overflows, no assertion fails and every path ends; "
    "clock - every clock that is read and every clock that a condition variable is set to measure its time-outs with are the same; "
    "deadline - the time-out that a waiting lock owner is suspended with is normalized and between one nanosecond and one second after the time read before; sleep - a sleep that was interrupted continues with exactly the time that the system reported as remaining.")


def cells(obj, s, n):
    return {(obj, 0, 8): ('A', 64, {s: 1}), (obj, 8, 8): ('A', 64, {n: 1})}


def run(prog, rep):
    fns = {f.name: f for f in prog.fns.values() if f.name in ('picotm_os_add_timespec', 'picotm_os_sub_timespec', 'picotm_os_timespec_compare') and not f.internal}
    rep.floor('functions', len(fns), 3)
    sec, nsec = (-SEC, SEC), (0, NS - 1)
    L, P = ('o', 'lhs'), ('o', 'rhs')
    for name, fn in sorted(fns.items()):
        O = Octagon({'ls': sec, 'ln': nsec, 'rs': sec, 'rn': nsec})
        I = Interp(prog)
        mem = dict(cells(L, 'ls', 'ln'))
        mem.update(cells(P, 'rs', 'rn'))
        res = I.run(fn, [('ptr', L, 0), ('ptr', P, 0)], O, mem)
        rep.count('paths', len(res))
        bad = I.issues
        rep.ob('defined', not bad, name, bad[0][0].loc(bad[0][1]) if bad else fn.loc(), '%s: %s for %s' % (name, bad[0][2] if bad else '', bad[0][3].show() if bad else ''))
        for R, m, v, where in res:
            rep.ob('operand', m.get((P, 0, 8)) == ('A', 64, {'rs': 1}) and m.get((P, 8, 8)) == ('A', 64, {'rn': 1}), name, where, '%s changes its right-hand side for %s' % (name, R.show()))
            if name == 'picotm_os_timespec_compare':
                order(rep, name, R, v, where)
                continue
            s, n = m.get((L, 0, 8), ('T',)), m.get((L, 8, 8), ('T',))
            if s[0] != 'A' or n[0] != 'A':
                rep.ob('exact', False, name, where, '%s: the result for %s is not a function of the operands that can be determined' % (name, R.show()))
                continue
            k = 1 if 'add' in name else -1
            want = {'ls': NS, 'ln': 1, 'rs': k * NS, 'rn': k}
            got = plus({x: NS * c for x, c in s[2].items()}, n[2])
            d = {x: c for x, c in plus(want, got, -1).items() if c}
            rep.ob('exact', not d, name, where, '%s: for %s the result is off by %s' % (name, R.show(), ' + '.join('%d*%s' % (-c, x or 'ns') for x, c in sorted(d.items()))))
            lo, hi = R.bounds(n[2])
            rep.ob('normalized', lo >= 0 and hi < NS, name, where, '%s: for %s the nanoseconds of the result are in %d..%d' % (name, R.show(), lo, hi))
    clock(prog, rep)
    deadline(prog, rep)
    sleep(prog, rep)


def single(prog, name):
    l = [f for f in prog.fns.values() if f.name == name and not f.internal]
    if len(l) != 1:
        raise AnalysisBroken('%s not found' % name)
    return l[0]


def err_model(I, nm, A, R, mem):
    E = ('o', 'err')
    if nm == 'picotm_error_is_set':
        return [(R, mem, mem.get((E, 'set', 0), ('A', 1, {'': 0})))]
    if nm and nm.startswith('picotm_error_set_'):
        m = dict(mem)
        m[(E, 'set', 0)] = ('A', 1, {'': 1})
        return [(R, m, ('T',))]
    return None


def deadline(prog, rep):
    W, N, T = ('o', 'waiter'), ('o', 'now'), ('o', 'err')
    stamp = single(prog, 'picotm_lock_owner_get_timestamp')
    O = Octagon({'ws': (0, SEC), 'wn': (0, NS - 1), 'ns': (0, SEC), 'nn': (0, NS - 1)})
    r = Interp(prog).run(stamp, [('ptr', W, 0)], O, {})
    if len(r) != 1 or r[0][2][0] != 'ptr' or r[0][2][1] != W:
        raise AnalysisBroken('the time stamp of a lock owner is not part of it')
    off = r[0][2][2]
    hits = []

    def model(I, fn, i, nm, A, R, mem):
        e = err_model(I, nm, A, R, mem)
        if e is not None:
            return e
        if nm == 'picotm_os_get_timespec' and A[0][0] == 'ptr':
            m = dict(mem)
            m[(A[0][1], A[0][2], 8)] = ('A', 64, {'ns': 1})
            m[(A[0][1], A[0][2] + 8, 8)] = ('A', 64, {'nn': 1})
            f = dict(mem)
            f[(T, 'set', 0)] = ('A', 1, {'': 1})
            return [(R, m, ('T',)), (R, f, ('T',))]
        if nm in ('picotm_lock_owner_wait_until', 'pthread_cond_timedwait', 'picotm_os_cond_wait_until'):
            p = next((a for a in A if a[0] == 'ptr' and (a[1], a[2], 8) in mem and a[1] != W), None)
            hits.append((fn, i, R, [mem.get((p[1], p[2] + k, 8), ('T',)) for k in (0, 8)] if p else None))
            return [(R, mem, ('T',))]
        if not any(a[0] == 'ptr' and a[1][0] == 'l' for a in A) and (nm is None or not any(a[0] == 'ptr' and a[1] == W for a in A) or nm != stamp.name):
            return [(R, mem, ('T',))]
        return None
    fn = single(prog, 'picotm_lock_manager_wait')
    mem = {(W, off, 8): ('A', 64, {'ws': 1}), (W, off + 8, 8): ('A', 64, {'wn': 1})}
    a = [('T',)] * len(fn.args)
    a[1] = ('ptr', W, 0)
    a[-1] = ('ptr', T, 0)
    I = Interp(prog, model)
    I.run(fn, a, O, mem)
    for f, i, R, c in hits:
        ok, txt = False, 'is not known'
        if c and c[0][0] == 'A' == c[1][0]:
            d = plus(plus({x: NS * k for x, k in c[0][2].items()}, c[1][2]), {'ns': -NS, 'nn': -1})
            lo, hi = R.bounds(d)
            l2, h2 = R.bounds(c[1][2])
            ok = 0 < lo and hi <= NS and l2 >= 0 and h2 < NS
            txt = 'is %d..%d ns after the time that was read, with nanoseconds of %d..%d' % (lo, hi, l2, h2) if abs(lo) < SEC and abs(hi) < SEC else 'is not bounded'
        rep.ob('deadline', ok, f.name, f.loc(i), '%s suspends the lock owner with a time-out that %s' % (f.name, txt))
    rep.floor('suspensions', len(hits), 1)


def sleep(prog, rep):
    fn = single(prog, 'picotm_os_nanosleep')
    S = ('o', 'time')
    sym = {'s0': (0, SEC), 'n0': (0, NS - 1)}
    for k in (1, 2, 3):
        sym.update({'s%d' % k: (0, SEC), 'n%d' % k: (0, NS - 1)})
    hits, lost = [], []
    C = ('o', 'calls')

    def model(I, f, i, nm, A, R, mem):
        e = err_model(I, nm, A, R, mem)
        if e is not None:
            return e
        if nm in ('nanosleep', 'clock_nanosleep'):
            rq, rm = A[-2:]
            k = mem.get((C, 0, 0), 0)
            hits.append((f, i, k, [mem.get((rq[1], rq[2] + o, 8)) if rq[0] == 'ptr' else None for o in (0, 8)]))
            m = dict(mem)
            m[(C, 0, 0)] = k + 1
            out = [(R, m, ('A', 32, {'': 0}))]
            if k < 3:
                m2 = dict(m)
                if rm[0] == 'ptr':
                    for key in list(m2):
                        if key[0] == rm[1] and isinstance(key[1], int) and key[2]:
                            del m2[key]
                    m2[(rm[1], rm[2], 8)] = ('A', 64, {'s%d' % (k + 1): 1})
                    m2[(rm[1], rm[2] + 8, 8)] = ('A', 64, {'n%d' % (k + 1): 1})
                out.append((R, m2, ('A', 32, {'': -1})))
            return out
        if nm == '__errno_location':
            return [(R, mem, ('T',))]
        return None
    I = Interp(prog, model)
    I.run(fn, [('ptr', S, 0), ('ptr', ('o', 'err'), 0)][:len(fn.args)], Octagon(sym), cells(S, 's0', 'n0'))
    for f, i, k, c in hits:
        ok = c == [('A', 64, {'s%d' % k: 1}), ('A', 64, {'n%d' % k: 1})]
        rep.ob('sleep', ok, f.name, f.loc(i), '%s sleeps for something else than %s' % (f.name, 'the time it was called with' if not k else 'the time that remained after an interruption'))
    rep.floor('sleeps', len(hits), 2)


def order(rep, name, R, v, where):
    if v[0] != 'A':
        rep.ob('order', False, name, where, '%s: the value returned for %s cannot be determined' % (name, R.show()))
        return
    # the value must have one sign per region, and the region must lie in that order
    lo, hi = R.bounds(v[2])
    ds, dn = {'ls': 1, 'rs': -1}, {'ln': 1, 'rn': -1}

    def empty(*rs):
        q = R
        for f, a, b in rs:
            q = q.range(f, a, b) if q is not None else None
        return q is None
    less = [[(ds, None, -1)], [(ds, 0, 0), (dn, None, -1)]]
    more = [[(ds, 1, None)], [(ds, 0, 0), (dn, 1, None)]]
    same = [[(ds, 0, 0), (dn, 0, 0)]]
    cases = {-1: less, 0: same, 1: more}
    ok = True
    for sgn, cs in cases.items():
        may = lo < 0 if sgn < 0 else hi > 0 if sgn > 0 else lo <= 0 <= hi
        for other, os in cases.items():
            if other != sgn and may:
                ok = ok and all(empty(*c) for c in os)
    rep.ob('order', ok, name, where, '%s returns %s for %s, which does not tell their order' % (name, str(lo) if lo == hi else '%d..%d' % (lo, hi), R.show()))


def clock(prog, rep):
    from ..flow import flow
    F = flow(prog)
    use = {}
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if fn.lib != 'core':
            continue
        for i in fn.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in ('clock_gettime', 'pthread_condattr_setclock'):
                a = i['args'][0 if i['fn'][1] == 'clock_gettime' else 1]
                for d in F.val(fn, a):
                    use.setdefault(i['fn'][1], []).append((d[1] if d[0] == 'i' else str(d), fn, i))
    ref = {k for k, _, _ in use.get('clock_gettime', [])}
    if not ref:
        raise AnalysisBroken('no clock is read')
    n = 0
    for nm, l in sorted(use.items()):
        for k, fn, i in l:
            n += 1
            rep.ob('clock', {k} == ref or (nm == 'clock_gettime' and len(ref) == 1), '%s:%s' % (fn.name, nm), fn.loc(i), '%s uses clock %s with %s while time is read from clock %s' % (fn.name, k, nm, sorted(map(str, ref))))
    # a condition variable that is waited on with a time-out has its clock set
    waits = [(fn, i) for fn in prog.fns.values() if fn.lib == 'core' for i in fn.instrs() if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] == 'pthread_cond_timedwait']
    inits = [(fn, i) for fn in prog.fns.values() if fn.lib == 'core' for i in fn.instrs() if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] == 'pthread_cond_init']
    if waits:
        for fn, i in inits:
            d = F.val(fn, i['args'][1])
            default = any(x[0] in ('n', 'null') or x == ('i', 0) for x in d)
            rep.ob('clock', ref == {0} or not default and 'pthread_condattr_setclock' in use, '%s:init' % fn.name, fn.loc(i), '%s sets up a condition variable whose time-outs are not measured with clock %s' % (fn.name, sorted(map(str, ref))))
    rep.count('clock uses', n)
