"""P04: commit prepares, applies, finishes - in that order, everything, and never rolls back afterwards."""
from ..phases import *
from .errflow import may_set

EXPLANATION = (
    "(1) order: every path through __picotm_commit() is followed with both outcomes of every module operation; nothing is applied after a failed "
    "preparation, preparation is complete before anything is applied, modules before events, events before finishing, finishing before exclusivity is given up, "
    "and a path that reports success contains all phases once. (2) walk: the loops that call prepare_commit, apply, apply_event and finish start at the "
    "first and reach the last registered module / recorded event, forwards for apply and events, and can only end early on a failure. (3) skip: between the loop and the operation nothing "
    "skips it except that the module has none. (4) args: an operation is called with its own module's data and, for events, with the head and tail of the "
    "event, on the module the event names. (5) no-return: a failure after the first apply is marked non-recoverable before the transaction is restarted, "
    "no apply or finish operation of any module reports a conflict, and recovery of a non-recoverable failure performs no undo. "
    "(6) record: the module list and the event log are extended at their end, and an appended event holds the module, head and tail it was appended with.")

ORDER = ('prepare_commit', 'apply', 'apply_event', 'clear', 'finish', 'x-')


def run(prog, rep):
    fn = prog.get('__picotm_commit', 'core')
    pl = PhasePlugin(prog)
    eng = Engine(prog, pl)
    ends = [(x.st, None, fn.loc(x.ins) if x.ins else fn.loc()) for x in eng.run_root(fn) if x.kind == 'ret']
    ends += [(st, m, s.where) for s, m, st in pl.jumps]
    nok = 0
    for st, mode, where in ends:
        ps = [p for p in st.ps]
        base = [p.rstrip('!') for p in ps]
        tr = trace_list(st)

        def bad(key, msg):
            rep.bad('order', key, where, msg, tr)
        rep.count('order')
        for u in ('undo', 'undo_event', 'begin', 'release', 'x+shared', 'x+excl'):
            if u in base:
                bad('foreign:' + u, 'a commit performs %s' % u)
        started = [k for k, p in enumerate(base) if p in ('apply', 'apply_event')]
        fails = failed(ps)
        if 'prepare_commit' in fails and started:
            bad('apply-after-failed-prepare', 'modules or events are applied although a module failed to prepare')
        if started:
            if 'prepare_commit' not in base[:started[0]]:
                bad('apply-before-prepare', 'modules or events are applied before all modules have prepared')
            if 'prepare_commit' in base[started[0]:]:
                bad('prepare-after-apply', 'a module prepares after modules or events have been applied')
        if 'apply_event' in base and 'apply' in base and base.index('apply_event') < base.index('apply'):
            bad('events-first', 'events are applied before the modules')
        if 'clear' in base and 'apply_event' not in base[:base.index('clear')] and 'apply_event' in base:
            bad('clear-first', 'the event log is cleared before the events are applied')
        if 'clear' in base and ('prepare_commit' in fails or 'apply_event' not in base):
            bad('clear-unapplied', 'the event log is cleared although its events have not been applied')
        if 'finish' in base:
            k = base.index('finish')
            for w in ('apply', 'apply_event'):
                if w not in base[:k] or w in base[k:]:
                    bad('finish-before-' + w, 'modules are finished before %s is complete' % w)
            if any(f in ('prepare_commit', 'apply', 'apply_event') for f in fails):
                bad('finish-after-failure', 'modules are finished although %s failed' % fails[0])
        if 'x-' in base:
            k = base.index('x-')
            if any(p in ('apply', 'apply_event', 'finish', 'prepare_commit') for p in base[k:]):
                bad('release-early', 'exclusivity is given up before the commit is complete')
            if base.count('x-') > 1:
                bad('release-twice', 'exclusivity is given up twice')
        if mode is None and not any(st.err.values()):
            nok += 1
            for w in ORDER:
                if w not in base:
                    bad('missing:' + w, 'a successful commit does not perform %s' % w)
            for w in ('prepare_commit', 'apply', 'apply_event', 'finish'):
                if base.count(w) > 1:
                    bad('twice:' + w, 'a commit performs %s twice' % w)
        if fails and started and 'mark' not in base:
            rep.bad('no-return', 'mark:' + fails[0], where, 'a failure of %s after the point of no return is treated as recoverable' % fails[0], tr)
        if mode is None and any(v[3] is True for v in st.err.values() if v):
            pass
    rep.floor('successful paths through the commit', nok, 1)
    rep.floor('paths through the commit', len(ends), 5)

    kinds = {'prepare_commit': None, 'apply': 'fwd', 'apply_event': 'fwd', 'finish': None}
    seen = set()
    for ev in find_events(prog, fn, tuple(kinds)):
        seen.add(ev.kind)
        event_checks(prog, rep, 'commit', ev, kinds[ev.kind])
    for k in kinds:
        rep.ob('commit-walk', k in seen, k + ':reached', fn.loc(), 'a commit never calls the %s operation' % k)

    # failure after the point of no return
    ff = prog.field_functions()
    ms = may_set(prog)
    n = 0
    for kind in ('apply', 'apply_event', 'finish'):
        idx = prog.fieldidx('struct.picotm_module_ops', kind)
        for f, nm in ff.get(('struct.picotm_module_ops', idx), ()):
            if f is None:
                continue
            n += 1
            for k in errparams(f):
                ks = {x for x in ms.get((f.key, k), ()) if not isinstance(x, tuple)}
                rep.ob('no-return', not ks & {'conflicting', 'revocable'}, 'kinds:%s' % f.name, f.loc(),
                       '%s can report %s after the point of no return, which rolls the transaction back' % (f.name, '/'.join(sorted(ks & {'conflicting', 'revocable'}))))
    rep.floor('operations that run after the point of no return', n, 8)
    b = prog.get('__picotm_begin', 'core')
    pl = Mode(prog)
    eng = Engine(prog, pl)
    a = list(eng.default_args(b))
    a[0] = ('i', prog.enum('PICOTM_MODE_RECOVERY'))
    for x in eng.run_root(b, args=a):
        if 'rec' not in x.st.ps:
            base = [p.rstrip('!') for p in x.st.ps]
            rep.ob('no-return', not {'undo', 'undo_event'} & set(base), 'recovery', b.loc(), 'recovery from a non-recoverable failure undoes the transaction', trace_list(x.st))

    record(prog, rep)


def record(prog, rep):
    """(6) appended modules and events"""
    from .. import affine as af

    class Heap(PhasePlugin):
        track_heap = True

        def small(self, site, callee):
            return False

        def default(self, eng, name, callee, args, st, site):
            if callee is not None and callee.lib == site.fn.lib and (callee.name.startswith('picotm_log') or callee.name.startswith('picotm_tx') or
                                                                     callee.name.startswith('picotm_module') or callee.unit == site.fn.unit):
                return 'inline'
            return PhasePlugin.default(self, eng, name, callee, args, st, site)
    fn = prog.get('picotm_tx_append_event', 'core')
    # the appended record, field by field, and where it goes
    seen = []

    class Append(Heap):
        def default(self, eng, name, callee, args, st, site):
            if name in ('memcpy', 'memmove') or name.startswith('llvm.memcpy'):
                src = args[1]
                dst = args[0]
                if dst[0] != 'A' and af_base(dst) != ('A',) and src[0] == 'A':
                    seen.append(('copy', dst, src, dict(st.mem), site, args[2], st))
            return Heap.default(self, eng, name, callee, args, st, site)

        def store(self, eng, addr, val, st, site):
            if addr[0] == 'P' and addr[2][-1][0] == 'f' and addr[2][-1][1] == 'struct.picotm_event' and addr[1][0] != 'A':
                seen.append(('store', addr, val, None, site, None, st))
            return Heap.store(self, eng, addr, val, st, site)
    pl = Append(prog)
    eng = Engine(prog, pl)
    args = eng.default_args(fn)
    ok = [x for x in eng.run_root(fn) if x.kind == 'ret' and not any(x.st.err.values())]
    names = {'module': args[1], 'head': args[2], 'tail': args[3]}
    got = {}
    for kind, a, b, mem, site, n, st in seen:
        if kind == 'copy':
            for f in names:
                got.setdefault(f, []).append((mem.get(('P', b, (('f', 'struct.picotm_event', prog.fieldidx('struct.picotm_event', f)),)),
                                                      mem.get(b) if prog.fieldidx('struct.picotm_event', f) == 0 else None), site))
            if n is not None:
                rep.ob('record', n == ('i', prog.structs['struct.picotm_event']['size']), 'size', site.where, 'an appended event is copied with a size of %s' % (n,))
        else:
            f = prog.fieldname('struct.picotm_event', a[2][-1][2])
            got.setdefault(f, []).append((b, site))
    for f, w in names.items():
        vs = got.get(f, [])
        rep.ob('record', bool(vs) and all(v == w for v, s in vs), f, vs[0][1].where if vs else fn.loc(), 'an appended event does not hold the %s it was appended with' % f)
    # length grows by exactly one
    li = prog.fieldidx('struct.picotm_log', 'eventtablen')
    grow(prog, rep, fn, 'struct.picotm_log', li, Heap, 'event log')
    fn = prog.get('picotm_tx_register_module', 'core')
    grow(prog, rep, fn, 'struct.picotm_tx', prog.fieldidx('struct.picotm_tx', 'nmodules'), Heap, 'module list')


def af_base(v):
    while v[0] == 'P':
        v = v[1]
    return (v[0],)


def grow(prog, rep, fn, struct, idx, H, what):
    eng = Engine(prog, H(prog))
    n = 0
    for x in eng.run_root(fn):
        if x.kind != 'ret':
            continue
        bad = any(x.st.err.values())
        v = [(k, val) for k, val in x.st.mem.items() if k[0] == 'P' and k[2][-1][:3] == ('f', struct, idx)]
        if bad:
            rep.ob('record', all(val == ('L', k) for k, val in v), what + ':failed', fn.loc(), 'the %s changes although the append failed' % what)
            continue
        n += 1
        good = len(v) == 1 and v[0][1] == ('O', 'add', ('L', v[0][0]), ('i', 1))
        rep.ob('record', good, what + ':length', fn.loc(), 'the length of the %s does not grow by one when an entry is appended' % what, trace_list(x.st))
    rep.floor('appending paths: ' + what, n, 1)
