"""P05: rollback undoes everything, newest first, exactly once, and happens before every restart."""
from ..phases import *

EXPLANATION = (
    "(1) order: every path of __picotm_begin() is followed for every mode with both outcomes of every module operation. RETRY and IRREVOCABLE undo all modules, "
    "then all events, empty the log, finish all modules and give up exclusivity before the transaction begins again; RECOVERY does the same exactly when the "
    "failure is recoverable, and never begins; START and RESTART undo nothing. No phase runs twice, none is skipped on a path without a failure, and nothing is "
    "finished after a failed undo. (2) walk/skip/args: the loops that call undo, undo_event and finish visit every registered module / recorded event, events from the last to the first, "
    "with the data of the event, and nothing but the absence of the operation skips it. (3) restart: every restart of a transaction whose effects stand "
    "(conflict, request of irrevocability, error) uses a mode that rolls back. (4) empty: emptying the log means its length becomes 0.")

ROLL = ('undo', 'undo_event', 'clear', 'finish', 'x-')


def run(prog, rep):
    fn = prog.get('__picotm_begin', 'core')
    modes = {m: prog.enum('PICOTM_MODE_' + m) for m in ('START', 'RETRY', 'IRREVOCABLE', 'RECOVERY', 'RESTART')}
    n = nroll = 0
    for mode, mv in modes.items():
        pl = Mode(prog)
        eng = Engine(prog, pl)
        a = list(eng.default_args(fn))
        a[0] = ('i', mv)
        for x in eng.run_root(fn, args=a):
            if x.kind != 'ret':
                continue
            n += 1
            where = fn.loc(x.ins) if x.ins else fn.loc()
            tr = trace_list(x.st)

            def ob(ok, key, msg):
                rep.ob('order', ok, mode + ':' + key, where, msg, tr)
            ps = [p for p in x.st.ps if p not in ('rec', 'nonrec', 'mark', 'notx')]
            base = [p.rstrip('!') for p in ps]
            nonrec = 'nonrec' in x.st.ps
            kbegin = next((k for k, p in enumerate(base) if p in ('x+shared', 'x+excl', 'begin')), len(base))
            roll, rest = base[:kbegin], base[kbegin:]
            fails = failed(ps[:kbegin])
            for p in ('prepare_commit', 'apply', 'apply_event', 'release'):
                ob(p not in base, 'foreign:' + p, 'a transaction that begins or recovers performs %s' % p)
            for p in ('undo', 'undo_event', 'clear'):
                ob(p not in rest, 'late:' + p, '%s runs after the transaction has begun again' % p)
            for p in ('undo', 'undo_event'):
                ob(base.count(p) <= 1, 'twice:' + p, '%s runs twice' % p)
            if mode in ('START', 'RESTART'):
                ob(not roll, 'rollback', 'a transaction that is %s performs %s first' % ('started' if mode == 'START' else 'restarted after recovery', ', '.join(roll)))
                continue
            if mode == 'RECOVERY':
                ob(not rest, 'begin', 'the transaction begins again although recovery was asked for')
                ob(x.ret == I0, 'result', 'recovery does not enter the recovery code')
                ob(not roll or nonrec or 'rec' in x.st.ps, 'unknown', 'recovery performs %s without knowing that the failure is recoverable' % ', '.join(roll))
                if nonrec:
                    ob(not roll, 'nonrec', 'recovery from a non-recoverable failure performs %s' % ', '.join(roll))
                    continue
            early = not roll and not rest
            if early:
                # thread state cannot be had: nothing to roll back
                ob(x.ret == I0 and 'notx' in x.st.ps, 'skipped', 'the transaction is not rolled back')
                continue
            nroll += 1
            for k, p in enumerate(roll):
                if p in ROLL:
                    before = [q for q in ROLL[:ROLL.index(p)] if q not in roll[:k]]
                    rf = [f for f in failed(ps[:k]) if f in ROLL]
                    if p == 'clear' and 'undo_event' in roll[:k] or p == 'x-' and rf:
                        before = []
                    ob(not before, 'early:' + p, '%s runs before %s' % (p, ', '.join(before)))
                    if p in ('undo_event', 'finish'):
                        ob(not rf, 'after-failure:' + p, '%s runs although %s failed' % (p, rf[0] if rf else ''))
            if not fails:
                for p in ROLL:
                    ob(p in roll, 'missing:' + p, 'a rollback does not perform %s' % p)
            else:
                ob(not rest, 'begin-after-failure', 'the transaction begins again although %s failed' % fails[0])
    rep.floor('paths of __picotm_begin', n, 20)
    rep.floor('paths that roll back', nroll, 8)

    kinds = {'undo': None, 'undo_event': 'rev', 'finish': None}
    seen = set()
    for ev in find_events(prog, fn, tuple(kinds)):
        if ev.kind == 'finish' and any(s[1]['fn'][0] == 'F' and 'begin' in reach(prog, s[0].fn) and 'undo' not in reach(prog, s[0].fn) for s in ev.stack):
            continue        # clean-up of a failed begin: P06
        seen.add(ev.kind)
        event_checks(prog, rep, 'rollback', ev, kinds[ev.kind])
    for k in kinds:
        rep.ob('rollback-walk', k in seen, k + ':reached', fn.loc(), 'a rollback never calls the %s operation' % k)

    # restarts of live transactions
    n = 0
    for f in prog.fns.values():
        if f.lib != 'core' or not ljreach(prog, f) or f.internal:
            continue
        pl = Mode(prog)
        eng = Engine(prog, pl)
        eng.run_root(f)
        for s, m, st in pl.jumps:
            n += 1
            allowed = (modes['RETRY'], modes['IRREVOCABLE'], modes['RECOVERY'])
            if f.name == 'picotm_restart':
                # called by recovery code, after the rollback
                allowed += (modes['RESTART'],)
            if 'picotm_irrevocable' == f.name:
                allowed = (modes['IRREVOCABLE'],)
            ok = m[0] == 'i' and m[1] in allowed
            rep.ob('restart', ok, '%s:%s' % (f.name, m), s.where, '%s restarts the transaction in a mode (%s) that does not roll back' % (f.name, m), trace_list(st))
    rep.floor('restarts', n, 6)

    # emptying the log
    k = 0
    for f in prog.fns.values():
        if f.lib == 'core':
            for i in f.instrs():
                if i['op'] == 'store' and lenfield(prog, f, i['args'][1]):
                    k += 1
                    v = i['args'][0]
                    if v[0] != 'v':     # growth: P04 (record)
                        rep.ob('empty', v[0] in ('n', 'z') or v[0] == 'i' and v[1] == 0, f.name, f.loc(i), 'the log is set to a length of %s' % (v[1:],))
    rep.floor('writes of the log length', k, 2)


def lenfield(prog, f, o):
    g = f.defs[o[1]]['gep'] if o[0] == 'v' and f.defs[o[1]]['op'] == 'getelementptr' else o[1] if o[0] == 'gep' else None
    s = g[1][-1] if g and g[1] else None
    return bool(s) and s[0] == 'f' and s[1] == 'struct.picotm_log' and prog.fieldname(s[1], s[2]) == 'eventtablen'
