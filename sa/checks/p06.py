"""P06: exclusivity: taken once, in the right kind, given up exactly once on every way out."""
from ..phases import *
from ..engine import mentions

EXPLANATION = (
    "(1) balance: every path of __picotm_begin() in every mode, and of __picotm_commit(), is followed with both outcomes of every operation; the process-wide lock is never taken while the "
    "transaction holds it, never given up without being held, held exactly once when a begin reports success and not held when it reports failure or the commit returns "
    "(failures marked non-recoverable excepted). (2) kind: a transaction that gets the lock shared runs with the revocable mode, one that gets it exclusively with the irrevocable mode; a request for irrevocability "
    "never gets it shared, and a restart past the retry limit gets it exclusively. (3) owner: the recorded exclusive owner is written only while holding the lock exclusively or before it is released. "
    "(4) use: no other function takes or gives up that lock. (5) query: a transaction counts as irrevocable exactly in irrevocable mode. (6) primitives: the rwlock wrappers call the matching POSIX function and report its failure.")

HOLD = {'x+shared': 'shared', 'x+excl': 'excl'}


class XMode(PhasePlugin):
    """also records stores to the mode of the transaction and to the exclusive owner"""

    def store(self, eng, addr, val, st, site):
        st = PhasePlugin.store(self, eng, addr, val, st, site)
        if addr[0] == 'P' and addr[2][-1][0] == 'f':
            s = addr[2][-1]
            if s[1] == 'struct.picotm_tx' and self.prog.fieldname(s[1], s[2]) == 'mode':
                r = eng.getfact(st, val)
                st = st.with_(ps=st.ps + (('mode', r[0] if r[0] == r[1] else None),)).note(site.where, 'mode of transaction set')
            if s[1] == 'struct.picotm_lock_manager' and self.prog.fieldname(s[1], s[2]) == 'exclusive_lo':
                st = st.with_(ps=st.ps + (('owner', val == ('i', 0) or val[0] == 'n'),)).note(site.where, 'exclusive owner set')
        return st

    def op(self, st, kind, site):
        if kind.startswith('x') and st.ps and st.ps[-1] == kind:
            return st.with_(ps=st.ps + (kind,)).note(site.where, kind)      # do not merge repeated lock operations
        return PhasePlugin.op(self, st, kind, site)


def hold_automaton(rep, key, ps, where, tr, held):
    for p in ps:
        if not isinstance(p, str):
            if p[0] == 'owner':
                rep.ob('owner', held == 'excl' or p[1] and held is not None, key + ':owner', where, 'the exclusive owner is changed without holding exclusivity', tr)
            continue
        if p in HOLD:
            rep.ob('balance', held is None, key + ':twice', where, 'exclusivity is entered while it is already held', tr)
            held = HOLD[p]
        elif p == 'x-':
            rep.ob('balance', held is not None, key + ':notheld', where, 'exclusivity is given up although it is not held', tr)
            held = None
    return held


def run(prog, rep):
    b = prog.get('__picotm_begin', 'core')
    c = prog.get('__picotm_commit', 'core')
    REV, IRR = prog.enum('TX_MODE_REVOCABLE'), prog.enum('TX_MODE_IRREVOCABLE')
    n = nb = 0
    for mode in ('START', 'RETRY', 'IRREVOCABLE', 'RECOVERY', 'RESTART'):
        pl = XMode(prog)
        eng = Engine(prog, pl)
        a = list(eng.default_args(b))
        a[0] = ('i', prog.enum('PICOTM_MODE_' + mode))
        excl = shared = 0
        for x in eng.run_root(b, args=a):
            if x.kind != 'ret':
                continue
            n += 1
            where, tr = b.loc(x.ins) if x.ins else b.loc(), trace_list(x.st)
            ps = x.st.ps
            names = [p for p in ps if isinstance(p, str)]
            # the running transaction that is retried or recovered holds exclusivity
            running = mode in ('RETRY', 'IRREVOCABLE', 'RECOVERY') and names
            held = hold_automaton(rep, mode, ps, where, tr, 'excl' if running else None)
            if 'mark' in names:
                continue
            if x.ret == I1:
                nb += 1
                rep.ob('balance', held is not None, mode + ':unheld', where, 'a transaction begins without %s exclusivity' % ('taking part in' if mode == 'START' else 'holding'), tr)
                last = [p for p in ps if p in HOLD]
                k = len(ps) - 1 - list(reversed(ps)).index(last[-1]) if last else 0
                modes = [p[1] for p in ps if not isinstance(p, str) and p[0] == 'mode']
                want = {'shared': REV, 'excl': IRR}.get(held)
                rep.ob('kind', bool(modes) and modes[-1] == want, '%s:%s' % (mode, held), where,
                       'a transaction that holds the lock %s runs in mode %s' % ({'shared': 'shared', 'excl': 'exclusively'}.get(held), {REV: 'revocable', IRR: 'irrevocable'}.get(modes[-1] if modes else None, 'unknown')), tr)
                if held == 'excl':
                    excl += 1
                    o = [p for p in ps[k:] if not isinstance(p, str) and p[0] == 'owner']
                    rep.ob('owner', bool(o) and not o[-1][1], mode + ':recorded', where, 'an irrevocable transaction is not recorded as the exclusive owner', tr)
                else:
                    shared += 1
            elif x.ret == I0:
                rep.ob('balance', held is None or (held == 'excl' and not names), mode + ':leak', where, 'exclusivity is still held after the begin of the transaction failed', tr)
            else:
                rep.bad('balance', mode + ':result', where, 'the result of the begin is not determined', tr)
        if mode == 'IRREVOCABLE':
            rep.ob('kind', excl > 0 and not shared, 'request', b.loc(), 'a transaction that asked for irrevocability can run revocably')
        if mode in ('START', 'RETRY', 'RESTART'):
            rep.ob('kind', shared > 0, mode + ':shared', b.loc(), 'a transaction can never run revocably')
        if mode in ('RETRY', 'RESTART'):
            rep.ob('kind', excl > 0, mode + ':limit', b.loc(), 'a transaction is retried for ever without becoming irrevocable')
    pl = XMode(prog)
    eng = Engine(prog, pl)
    ends = [(x.st, None, c.loc(x.ins) if x.ins else c.loc()) for x in eng.run_root(c) if x.kind == 'ret']
    ends += [(st, m, s.where) for s, m, st in pl.jumps]
    for st, m, where in ends:
        n += 1
        tr = trace_list(st)
        held = hold_automaton(rep, 'commit', st.ps, where, tr, 'excl')
        fails = failed([p for p in st.ps if isinstance(p, str)])
        ok = m is None and not any(st.err.values()) and not fails
        if ok:
            rep.ob('balance', held is None, 'commit:leak', where, 'exclusivity is still held after the commit', tr)
        elif m is not None and 'mark' not in st.ps:
            rep.ob('balance', held is not None, 'commit:early', where, 'exclusivity is given up before the transaction is rolled back', tr)
    rep.floor('paths', n, 25)
    rep.floor('paths that begin a transaction', nb, 6)

    # restart count
    retries(prog, rep)

    # other users of the lock
    uses = 0
    allowed = set()
    for r in (b, c):
        work = [r]
        while work:
            f = work.pop()
            if f.key in allowed:
                continue
            allowed.add(f.key)
            for i in f.instrs():
                if i['op'] == 'call' and i['fn'][0] == 'F':
                    g = prog.resolve(f, i['fn'][1])
                    if g is not None and g.lib == 'core':
                        work.append(g)
    for f in prog.fns.values():
        for i in f.instrs():
            if i['op'] != 'call':
                continue
            for o in i['args']:
                if xfield(prog, f, o):
                    uses += 1
                    nm = i['fn'][1] if i['fn'][0] == 'F' else '?'
                    ok = nm in XLOCK and f.key in allowed or any(w in nm for w in ('init', 'destroy'))
                    rep.ob('use', ok, '%s:%s' % (f.name, nm), f.loc(i), '%s calls %s on the exclusivity lock' % (f.name, nm))
    rep.floor('uses of the exclusivity lock', uses, 5)

    # query
    q = prog.get('picotm_is_irrevocable', 'core')
    got = {REV: set(), IRR: set()}
    pl = XMode(prog)
    pl.track_heap = True
    eng = Engine(prog, Inl(prog))
    for x in eng.run_root(q):
        if x.kind != 'ret':
            continue
        ls = {m for v in list(x.st.facts) + [x.ret] for m in mentions(v) if modeload(prog, m)}
        for mv in got:
            st = x.st
            for l in ls:
                st = st and eng.assume(st, ('cmp', 'eq', l, ('i', mv)), True)
            if st is not None:
                got[mv] |= {t for t in (True, False) if eng.assume(st, x.ret, t) is not None}
    for mv in got:
        rep.ob('query', got[mv] == {mv == IRR}, 'mode %d' % mv, q.loc(), 'picotm_is_irrevocable() can return %s for a transaction in %s mode' % (
            '/'.join(sorted(str(t).lower() for t in got[mv])), 'irrevocable' if mv == IRR else 'revocable'))
    # primitives
    for nm, lib in (('picotm_os_rwlock_rdlock', 'pthread_rwlock_rdlock'), ('picotm_os_rwlock_wrlock', 'pthread_rwlock_wrlock'), ('picotm_os_rwlock_unlock', 'pthread_rwlock_unlock')):
        f = prog.get(nm, 'core', optional=True)
        if f is None:
            continue
        calls = {i['fn'][1] for i in f.instrs() if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1].startswith('pthread_')}
        rep.ob('primitives', calls == {lib}, nm, f.loc(), '%s calls %s' % (nm, ', '.join(sorted(calls)) or 'nothing'))


def modeload(prog, m):
    return isinstance(m, tuple) and len(m) > 1 and m[0] == 'L' and isinstance(m[1], tuple) and m[1][0] == 'P' and m[1][2][-1][0] == 'f' and \
        m[1][2][-1][1] == 'struct.picotm_tx' and prog.fieldname(*m[1][2][-1][1:3]) == 'mode'


class Inl(PhasePlugin):
    def default(self, eng, name, callee, args, st, site):
        if callee is not None and callee.lib == 'core' and not errparams(callee) and sum(len(b) for b in callee.blocks) < 40:
            return 'inline'
        return PhasePlugin.default(self, eng, name, callee, args, st, site)


def retries(prog, rep):
    """the count of retries grows by one with each restart and is reset by a fresh start; the limit is finite"""
    from .p04 import af_base
    b = prog.get('__picotm_begin', 'core')

    class Heap(PhasePlugin):
        def store(self, eng, addr, val, st, site):
            if addr[0] == 'P' and addr[2][-1][0] == 'f' and addr[2][-1][1] == 'struct.picotm_tx' and self.prog.fieldname(*addr[2][-1][1:3]) == 'nretries':
                n = val
                kind = None
                if n == ('i', 0):
                    kind = 'reset'
                elif n[0] == 'O' and n[1] == 'add' and n[3] == ('i', 1) and n[2][0] == 'L' and n[2][1][:1] == ('P',) and n[2][1][2][-1] == addr[2][-1]:
                    kind = 'count'
                else:
                    r = eng.getfact(st, n)
                    kind = 'limit' if r[0] == r[1] and r[0] > 0 else None
                seen.append((mode, kind, site, n))
            return PhasePlugin.store(self, eng, addr, val, st, site)
    seen = []
    for mode in ('START', 'RETRY', 'IRREVOCABLE', 'RESTART'):
        eng = Engine(prog, Heap(prog))
        a = list(eng.default_args(b))
        a[0] = ('i', prog.enum('PICOTM_MODE_' + mode))
        eng.run_root(b, args=a)
    for mode, kind, site, n in seen:
        want = ('reset',) if mode == 'START' else ('count', 'limit')
        rep.ob('retries', kind in want, '%s:%s' % (mode, kind), site.where, 'the number of restarts is set to %s when a transaction is %s' % (n, 'started' if mode == 'START' else 'restarted'))
    rep.floor('updates of the number of restarts', len(seen), 4)
