"""P18: modules register completely and tear down symmetrically."""
from ..build import AnalysisBroken
from ..flow import flow
from ..engine import Engine, I0, I1, UNDEF, base_of, root_of, mentions, trace_list, State, TOP
from ..ir import dominates
from ..events import walk, recorders
from ..phases import find_events, event_checks
from ..locks import JUMP
from .errflow import ErrPlugin, errparams, pure, NONZERO, may_set
from .p25 import handlers
from .p13 import closure, lastfield, exported, fname, targets

EXPLANATION = (
    "(1) complete: the module number with which an event is recorded is the one a registration returned, and the operation table of that registration has both an apply and an undo operation for events; a module whose per-transaction state is a "
    "counter, flag or lock status has a finish operation, and every one has a release operation. (2) reset: each per-transaction counter and flag embedded in a module's state is set back to zero on every path through the module's finish operation. "
    "(3) set-up: the functions that acquire a thread's or the process's state are followed path by path, every failure included; a path that fails leaves no reference, no initialised lock and no registration behind and does not mark the state as set up; "
    "a path that succeeds registers exactly once, and acquiring again does nothing. (4) teardown: starting from each successful set-up, the release operation gives back exactly what the set-up took, on every path and once; releasing again does nothing. "
    "(5) release-walk: releasing a thread's transaction calls the release operation of every registered module with the module's own data. (6) memory: each field of such a state that owns allocated memory is freed during teardown.")

INIT0 = {'pthread_mutex_init': 'mutex', 'pthread_rwlock_init': 'rwlock', 'pthread_cond_init': 'condition', 'pthread_condattr_init': 'condition attribute', 'pthread_spin_init': 'spinlock', 'sem_init': 'semaphore'}
DESTROY = {'pthread_mutex_destroy': 'mutex', 'pthread_rwlock_destroy': 'rwlock', 'pthread_cond_destroy': 'condition', 'pthread_condattr_destroy': 'condition attribute', 'pthread_spin_destroy': 'spinlock', 'sem_destroy': 'semaphore'}
UP, DOWN = 'picotm_shared_ref16_obj_up', 'picotm_shared_ref16_obj_down'
REGO, UNREGO = 'picotm_lock_manager_register_owner', 'picotm_lock_manager_unregister_owner'
REG = 'picotm_register_module'
PRIM = set(INIT0) | set(DESTROY) | {UP, DOWN, REG, REGO, UNREGO}
ALLOC = ('malloc', 'calloc', 'realloc', 'posix_memalign', 'aligned_alloc', 'strdup', 'strndup')


def relevant(prog):
    """functions that reach a primitive, through calls of functions known by name or handed over"""
    calls = {}
    seed = set()
    for f in prog.fns.values():
        for i in f.instrs():
            if i['op'] != 'call' or i['fn'][0] != 'F':
                continue
            if i['fn'][1] in PRIM:
                seed.add(f.key)
            c = prog.resolve(f, i['fn'][1])
            if c is not None and c.name not in PRIM and c.name not in JUMP:
                calls.setdefault(c.key, set()).add(f.key)
    work, seen = list(seed), set(seed)
    while work:
        for c in calls.get(work.pop(), ()):
            if c not in seen:
                seen.add(c)
                work.append(c)
    return seen


def name_of(prog, a):
    while a[0] == 'P':
        s = [x for x in a[2] if x[0] == 'f' and not x[1].startswith(('struct.picotm_os_', 'union.'))]
        if s:
            return '%s.%s' % (s[-1][1].replace('struct.', ''), prog.fieldname(s[-1][1], s[-1][2]))
        a = a[1]
    return a[1] if a[0] == 'G' else '?'


class Setup(ErrPlugin):
    """ps: what has been set up"""
    track_heap = True
    max_block_states = 100

    def __init__(self, prog, rel):
        ErrPlugin.__init__(self, prog)
        self.rel = rel
        self.bad = []
        self.sites = set()
        self.taken = set()

    def keep(self, ps):
        return [a for k, a in ps]

    def failedres(self, v, st):
        return None

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def own(self, a):
        return base_of(a)[0] in ('G', 'Arg', 'A')

    def take(self, st, kind, a, site):
        self.sites.add(site.id)
        if not self.own(a):
            return st
        loop = any(isinstance(m, tuple) and m and m[0] == 'T' for m in mentions(a))
        if (kind, a) in st.ps:
            if not loop:
                self.bad.append(('twice', site, st, '%s %s is set up although it has been set up before' % (kind, name_of(self.prog, a))))
            return st
        self.taken.add((kind, a))
        return st.with_(ps=st.ps + ((kind, a),)).note(site.where, 'sets up %s %s' % (kind, name_of(self.prog, a)))

    def give(self, st, kind, a, site):
        self.sites.add(site.id)
        if not self.own(a):
            return st
        if (kind, a) in st.ps:
            return st.with_(ps=tuple(x for x in st.ps if x != (kind, a))).note(site.where, 'gives up %s %s' % (kind, name_of(self.prog, a)))
        if any(isinstance(m, tuple) and m and m[0] == 'T' for m in mentions(a)):
            return st
        self.bad.append(('unheld', site, st, '%s %s is torn down although it is not set up' % (kind, name_of(self.prog, a))))
        return st

    def both(self, eng, R, st, good):
        f, g = dict(st.facts), dict(st.facts)
        f[R] = (0, 0, frozenset())
        g[R] = (1, 1 << 31, frozenset())
        return [(R, good(st.with_(facts=f))), (R, st.with_(facts=g))]

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        R = ('R', name, site.id, site.ctx)
        if name in JUMP:
            return []
        if name in INIT0:
            return self.both(eng, R, st.kill(R), lambda s: self.take(s, INIT0[name], args[0], site))
        if name in DESTROY:
            return [(I0, self.give(st, DESTROY[name], args[0], site))]
        if name == UP:
            out = [(UNDEF, self.take(st, 'reference', args[0], site))]
            if args[4][0] != 'n' and args[4] != I0 and (args[3] not in (I0, ('n',)) or args[2] not in (I0, ('n',))):
                out.append((UNDEF, st.seterr(args[4], (frozenset({'code', 'errno'}), name, site.where, False)).note(site.where, name + ' fails')))
            return out
        if name == DOWN:
            return [(UNDEF, self.give(st, 'reference', args[0], site))]
        if name == REG:
            self.sites.add(site.id)
            st = st.kill(R)
            n = sum(1 for k, a in st.ps if k == 'registration')
            if n:
                self.bad.append(('twice', site, st, 'a module is registered although it has been registered before'))
            ok = st.with_(ps=st.ps + (('registration', args[0]),)).note(site.where, 'registers')
            return [(R, ok), (R, st.seterr(args[2], (frozenset({'code'}), name, site.where, False)).note(site.where, name + ' fails'))]
        if name == REGO and callee is not None:
            f = st.seterr(args[2], (frozenset({'code'}), name, site.where, False)).note(site.where, name + ' fails') if len(args) > 2 else None
            return [(UNDEF, self.take(st, 'lock owner', args[1], site))] + ([(UNDEF, f)] if f is not None else [])
        if name == UNREGO and callee is not None:
            return [(UNDEF, self.give(st, 'lock owner', args[1], site))]
        if callee is not None and (callee.key in self.rel or pure(self.prog, callee) or self.plain(callee)):
            return 'inline'
        if site.fn is not None and name == '(indirect)':
            args = args[1:]
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def plain(self, c):
        return c.ret == 'ptr' and c.internal and not errparams(c) and len(c.blocks) <= 3

    def small(self, site, callee):
        return False


def norm(fn, args):
    return tuple(('Arg', fn.dty[k + 1] if k + 1 < len(fn.dty) else '', k, '') for k in range(len(fn.args)))


def climb(prog, F, fn, params):
    """the nearest callers that do not get the state handed over: [Fn]"""
    callers = {}
    for f in prog.fns.values():
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F':
                c = prog.resolve(f, i['fn'][1])
                if c is not None:
                    callers.setdefault(c.key, []).append((f, i))
    out, seen = {}, set()
    work = [(fn, k) for k in params]
    while work:
        f, k = work.pop()
        if (f.key, k) in seen:
            continue
        seen.add((f.key, k))
        for g, i in callers.get(f.key, ()):
            up = False
            for d in F.val(g, i['args'][k]) if k < len(i['args']) else ():
                while d[0] in ('&', 'ld'):
                    d = d[1]
                if d[0] == 'p':
                    up = True
                    work.append((g, d[1]))
            if not up:
                out[g.key] = g
    return [out[k] for k in sorted(out)]


def paramsof(F, fn, o):
    out = set()
    for d in F.val(fn, o):
        while d[0] in ('&', 'ld'):
            d = d[1]
        if d[0] == 'p':
            out.add(d[1])
    return sorted(out)


def follow(prog, rep, rel, label, setups, teardown, mod):
    nok = 0
    for fn in setups:
        flags = set()
        for rnd in (0, 1):
            pl = Setup(prog, rel)
            eng = Engine(prog, pl)
            st = State({}, {a: I0 for a in flags}, {}, ())
            eng.memo = {}
            args = norm(fn, None)
            exits = [x for x in eng.run(fn, args, st, ()) if x.kind == 'ret']
            if rnd == 0:
                flags = {a for x in exits for a, v in x.st.mem.items() if v == I1 and base_of(a)[0] in ('G', 'Arg')}
        for rule, site, s, msg in pl.bad:
            rep.ob('set-up', False, '%s:%s:%s' % (label, rule, msg.split(' is ')[0]), site.where, '%s: %s' % (fn.name, msg), trace_list(s))
        rep.count('set-up', len(exits))
        for x in exits:
            fail = any(v for k, v in x.st.err.items())
            where = fn.loc(x.ins)
            ps = sorted(x.st.ps, key=str)
            what = ', '.join('%s %s' % (k, name_of(prog, a)) for k, a in ps)
            isset = any(x.st.mem.get(a) == I1 for a in flags)
            nreg = sum(1 for k, a in ps if k == 'registration')
            if fail and (not mod or not isset):
                rep.ob('set-up', not ps, '%s:failed:%s' % (label, what), where, '%s fails but leaves set up: %s' % (fn.name, what), trace_list(x.st))
                continue
            if not ps and not isset:
                continue            # nothing was asked for
            nok += 1
            if mod == 'module':
                rep.ob('set-up', nreg == isset, '%s:registers' % label, where, '%s marks the state as set up, but the module is not registered' % fn.name if isset else '%s registers the module without marking it as set up' % fn.name, trace_list(x.st))
            if mod and isset:
                # a second acquisition
                p2 = Setup(prog, rel)
                e2 = Engine(prog, p2)
                for y in e2.run(fn, args, State({}, dict(x.st.mem), {}, x.st.ps), ()):
                    rep.count('set-up')
                    if set(y.st.ps) != set(x.st.ps):
                        rep.bad('set-up', '%s:again' % label, where, 'acquiring the state again after %s succeeded sets it up again' % fn.name, trace_list(y.st))
                for rule, site, s, msg in p2.bad:
                    rep.bad('set-up', '%s:again' % label, site.where, 'acquiring the state a second time: %s' % msg, trace_list(s))
            if teardown is None:
                continue
            p3 = Setup(prog, rel)
            e3 = Engine(prog, p3)
            s0 = State({}, {k: v for k, v in x.st.mem.items() if base_of(k)[0] in ('G', 'Arg')}, {}, tuple(q for q in x.st.ps if q[0] != 'registration'))
            ys = e3.run(teardown, norm(teardown, None), s0, ())
            for y in ys:
                left = [q for q in y.st.ps if q in s0.ps]
                what = ', '.join('%s %s' % (k, name_of(prog, a)) for k, a in left)
                rep.ob('teardown', not left, '%s:left:%s' % (label, what), teardown.loc(y.ins), '%s ends without giving back: %s' % (teardown.name, what), trace_list(y.st))
                p4 = Setup(prog, rel)
                e4 = Engine(prog, p4)
                if mod:
                    e4.run(teardown, norm(teardown, None), State({}, dict(y.st.mem), {}, ()), ())
                    for rule, site, s, msg in p4.bad:
                        rep.bad('teardown', '%s:again' % label, site.where, 'releasing a second time: %s' % msg, trace_list(s))
            rep.ob('teardown', bool(ys), '%s:ends' % label, teardown.loc(), '%s never ends' % teardown.name)
            for rule, site, s, msg in p3.bad:
                rep.bad('teardown', '%s:%s' % (label, msg), site.where, '%s: %s' % (teardown.name, msg), trace_list(s))
    return nok


def embedded(prog, t, seen=None):
    seen = set() if seen is None else seen
    if t in seen or t not in prog.structs:
        return seen
    seen.add(t)
    for e in prog.structs[t]['el']:
        if isinstance(e[1], str) and e[1].startswith('struct.'):
            embedded(prog, e[1], seen)
    return seen


def strip(fn, o):
    while o[0] == 'v' and fn.defs[o[1]]['op'] in ('zext', 'sext', 'trunc', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'):
        o = fn.defs[o[1]]['args'][0]
    return o


def field(F, fn, o):
    s = {lastfield(d)[:2] if lastfield(d) else None for d in F.val(fn, o)}
    return next(iter(s)) if len(s) == 1 else None


def accumulators(prog, F, keys):
    """fields that are increased or get bits added: {(struct, field): [Fn]}"""
    out = {}
    for k in keys:
        f = prog.fns[k]
        for i in f.instrs():
            if i['op'] != 'store':
                continue
            o = strip(f, i['args'][0])
            if o[0] != 'v' or f.defs[o[1]]['op'] not in ('add', 'or'):
                continue
            t = field(F, f, i['args'][1])
            if t is None:
                continue
            for a in f.defs[o[1]]['args']:
                a = strip(f, a)
                if a[0] == 'v' and f.defs[a[1]]['op'] == 'load' and field(F, f, f.defs[a[1]]['args'][0]) == t:
                    out.setdefault(t, []).append(f)
    return out


def cleared(prog, F, fn, fld, active=()):
    """fld is set to zero on every path through fn"""
    stop = set()
    for bi, blk in enumerate(fn.blocks):
        for i in blk:
            if i['op'] == 'store' and field(F, fn, i['args'][1]) == fld:
                v = i['args'][0]
                if v[0] in ('n', 'z') or v[0] == 'i' and v[1] == 0:
                    stop.add(bi)
                elif v[0] == 'v' and fn.defs[strip(fn, v)[1]]['op'] == 'and':
                    stop.add(bi)
            elif i['op'] == 'call' and i['fn'][0] == 'F':
                c = prog.resolve(fn, i['fn'][1])
                if c is not None and c.key not in active and len(active) < 8 and cleared(prog, F, c, fld, active + (fn.key,)):
                    stop.add(bi)
    if not stop:
        return False
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        t = fn.blocks[b][-1]
        if t['op'] == 'ret':
            return False
        if t['op'] == 'br' and 'cond' in t:
            # nothing to clear when it is zero already
            k = zerotest(F, fn, t['cond'], fld)
            if k is not None:
                work.append(t['succ'][1 - k])
                continue
        work += fn.succ[b]
    return True


def zerotest(F, fn, o, fld):
    """0/1: the successor taken when fld is zero"""
    if o[0] != 'v':
        return None
    d = fn.defs[o[1]]
    if d['op'] == 'icmp' and d['pred'] in ('eq', 'ne') and (d['args'][1][0] in ('n', 'z') or d['args'][1][0] == 'i' and d['args'][1][1] == 0):
        a = strip(fn, d['args'][0])
        if a[0] == 'v' and fn.defs[a[1]]['op'] == 'load' and field(F, fn, fn.defs[a[1]]['args'][0]) == fld:
            return 0 if d['pred'] == 'eq' else 1
    if d['op'] == 'trunc':
        a = strip(fn, o)
        if a[0] == 'v' and fn.defs[a[1]]['op'] == 'load' and field(F, fn, fn.defs[a[1]]['args'][0]) == fld:
            return 1
    return None


def run(prog, rep):
    F = flow(prog)
    rel = relevant(prog)
    tabs = {}
    for o in ('prepare_commit', 'apply', 'undo', 'apply_event', 'undo_event', 'finish', 'release', 'begin'):
        for m, f in handlers(prog, o):
            tabs.setdefault(m, {})[o] = f
    regs = []                       # (setup fn, call, table, data type)
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if fn.lib.startswith('inst_'):
            continue
        for i in fn.instrs():
            if i['op'] == 'call' and i['fn'] == ['F', REG] and fn.lib != 'core':
                regs.append((fn, i))
    rep.floor('registrations of modules', len(regs), 6)
    # ------------------------------------------------ (1) complete
    roots = [f for f in prog.fns.values() if exported(f) and f.lib not in ('core',)]
    setupfns = {f.key for f, i in regs}
    ex = closure(prog, F, roots, stop=lambda f: f.key in setupfns)
    acc = accumulators(prog, F, [k for k in ex if k not in setupfns])
    recs = recorders(prog, F)
    owner = {}
    nreset = 0
    for fn, i in regs:
        t = None
        for d in F.val(fn, i['args'][0]):
            if d[0] == 'g':
                t = (fn.unit, d[1]) if (fn.unit, d[1]) in tabs else None
        name = fn.name
        if t is None:
            rep.bad('complete', '%s:table' % name, fn.loc(i), '%s registers a module without an operation table, or with an empty one' % name)
            continue
        ops = tabs[t]
        rep.ob('complete', 'release' in ops, '%s:release' % fn.file, fn.loc(i), 'the module registered by %s has no release operation, so what it sets up is never torn down' % name)
        # which fields get the module number?
        up = [fn] + [f for f in prog.fns.values() if f.unit == fn.unit and any(c is fn for _, _, c in prog.callees(f))]
        for f, s, args, ch, env in walk(F, fn):
            if s['op'] == 'store':
                v = F.val(f, s['args'][0]) if env is None else F.substset(F.val(f, s['args'][0]), env)
                if any(d[0] == 'r' and d[1] == REG for d in v):
                    fl = field(F, f, s['args'][1])
                    if fl:
                        owner[fl] = (fn, i, t)
        data = {d for d in F.val(fn, i['args'][1])}
        dt = None
        if len(data) == 1 and next(iter(data))[0] == 'p':
            dt = 'struct.' + fn.dty[1 + next(iter(data))[1]].replace('struct ', '').rstrip('*')
        em = embedded(prog, dt) if dt else set()
        if not em:
            rep.bad('complete', '%s:data' % fn.file, fn.loc(i), 'the module registered by %s gets something else than its own state as data' % name)
            continue
        locks = 'struct.picotm_rwstate' in em
        cnt = sorted(f for f in acc if f[0] in em and f[0] not in ('struct.picotm_ref16', 'struct.picotm_slist', 'struct.picotm_treemap') and not capacity(prog, F, f, acc[f]))
        if cnt or locks:
            rep.ob('complete', 'finish' in ops, '%s:finish' % fn.file, fn.loc(i), 'the module registered by %s keeps %s for a transaction but has no finish operation' % (name, ', '.join([fname(prog, c) for c in cnt] + ['locks'] * locks)))
        if 'finish' not in ops:
            continue
        for c in cnt:
            nreset += 1
            rep.ob('reset', cleared(prog, F, ops['finish'], c), fname(prog, c), ops['finish'].loc(), 'a path through the finish operation in %s does not set %s, which %s changes, back to zero' % (ops['finish'].file, fname(prog, c), acc[c][0].name))
    for r in recs:
        fl = field(F, r.fn, r.append['args'][0])
        fl = next(iter({lastfield(d)[:2] for d in F.val(r.fn, r.append['args'][0]) if lastfield(d)}), None)
        o = owner.get(fl)
        rep.ob('complete', o is not None, '%s:module' % r.fn.name, r.fn.loc(r.append), '%s records an event with a module number that no registration returned' % r.fn.name)
        if o is None:
            continue
        for op in ('apply_event', 'undo_event'):
            rep.ob('complete', op in tabs[o[2]], '%s:%s' % (o[0].file, op), o[0].loc(o[1]), 'the module records events (%s) but has no %s operation' % (r.fn.name, op))
    rep.floor('event recorders', len(recs), 3)
    rep.floor('per-transaction counters and flags', nreset, 4)
    reg = prog.get(REG, 'core')
    for fl, k in (('ops', 0), ('data', 1)):
        idx = prog.fieldidx('struct.picotm_module', fl)
        got = []
        for f, s, args, ch, env in walk(F, reg):
            if s['op'] == 'store' and field(F, f, s['args'][1]) == ('struct.picotm_module', idx):
                got.append((F.val(f, s['args'][0]) if env is None else F.substset(F.val(f, s['args'][0]), env), f, s))
        rep.ob('complete', bool(got) and all(v == frozenset([('p', k)]) for v, f, s in got), 'picotm_module.%s' % fl, got[0][1].loc(got[0][2]) if got else reg.loc(),
               'registering a module does not store the %s it was given' % ('operation table' if k == 0 else 'data'))
    # ------------------------------------------------ (3,4) thread states
    nok = 0
    for fn, i in regs:
        t = next(((fn.unit, d[1]) for d in F.val(fn, i['args'][0]) if d[0] == 'g' and (fn.unit, d[1]) in tabs), None)
        td = tabs[t].get('release') if t else None
        ups = climb(prog, F, fn, paramsof(F, fn, i['args'][1]))
        rep.ob('set-up', bool(ups), '%s:used' % fn.file, fn.loc(), '%s is never called' % fn.name)
        n = follow(prog, rep, rel, fn.file, ups, td, 'module')
        rep.ob('set-up', n > 0, '%s:succeeds' % fn.file, fn.loc(), '%s has no path on which the set-up succeeds' % fn.name)
        nok += n
    core = prog.get('picotm_release', 'core')
    own = [(f, i) for f in prog.fns.values() if f.lib == 'core' for i in f.instrs() if i['op'] == 'call' and i['fn'] == ['F', REGO]]
    ups = list({f.key: f for o, i in own for f in climb(prog, F, o, paramsof(F, o, i['args'][1]))}.values())
    rep.ob('set-up', bool(ups), 'thread', core.loc(), 'no function sets up a thread')
    n = follow(prog, rep, rel, 'src/picotm.c', ups, core, 'thread')
    rep.ob('set-up', n > 0, 'thread:succeeds', core.loc(), 'setting up a thread never succeeds')
    nok += n
    # ------------------------------------------------ (3,4) shared states
    firsts, finals = {}, {}
    for f in prog.fns.values():
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in (UP, DOWN):
                fl = field(F, f, i['args'][0])
                cb = i['args'][3]
                if cb[0] == 'F':
                    (firsts if i['fn'][1] == UP else finals).setdefault(fl, {})[prog.resolve(f, cb[1]).key] = (f, i)
                elif i['fn'][1] == DOWN and fl:
                    finals.setdefault(fl, {})[None] = (f, i)
    npair = 0
    for fl in sorted(firsts, key=str):
        for k in firsts[fl]:
            f1 = prog.fns[k]
            fs = finals.get(fl, {})
            rep.ob('teardown', bool(fs) and None not in fs and len(fs) == 1, '%s:final' % fname(prog, fl), f1.loc(), 'what %s sets up for the first reference is not torn down by the last one' % f1.name)
            if len(fs) != 1 or None in fs:
                continue
            npair += 1
            f2 = prog.fns[next(iter(fs))]
            if f1.key in rel or f2.key in rel:
                nok += follow(prog, rep, rel, fname(prog, fl), [f1], f2, False)
    rep.floor('shared objects with set-up and teardown', npair, 4)
    rep.floor('successful set-ups followed', nok, 9)
    # ------------------------------------------------ (5)
    rep.ob('release-walk', bool(list(find_events(prog, core, ('release',)))), 'reached', core.loc(), 'releasing a thread never calls the release operation of a module')
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.lib == 'core' and any(i['op'] == 'call' and i['fn'] == ['F', UNREGO] for i in f.instrs()):
            for ev in find_events(prog, f, ('release',)):
                event_checks(prog, rep, 'release', ev, None)
    # ------------------------------------------------ (6) memory
    tds = [ops['release'] for ops in tabs.values() if 'release' in ops] + [core] + [prog.fns[k] for d in finals.values() for k in d if k]
    cl = closure(prog, F, tds, stop=lambda f: f.name in JUMP)
    freed = set()
    for k in cl:
        f = prog.fns[k]
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['args'] and i['fn'][1] == 'free':
                for d in F.val(f, i['args'][0]):
                    freed |= loaded(F, prog, f, d, cl)
    roots = set()
    for fn, i in regs:
        for d in F.val(fn, i['args'][1]):
            if d[0] == 'p':
                roots |= embedded(prog, 'struct.' + fn.dty[1 + d[1]].replace('struct ', '').rstrip('*'))
    for fl in firsts:
        if fl:
            roots |= embedded(prog, fl[0])
    roots |= embedded(prog, 'struct.picotm_tx')
    nmem = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] != 'store':
                continue
            if any(y[0] == 'r' and y[1] in ALLOC for d in F.val(f, i['args'][0]) for y in F.expand(f, d)):
                fl = next(iter({lastfield(d)[:2] for d in F.val(f, i['args'][1]) if lastfield(d)}), None)
                if fl and fl[0] in roots:
                    nmem += 1
                    rep.ob('memory', fl in freed, fname(prog, fl), f.loc(i), 'the memory that %s stores in %s is not freed when its owner is torn down' % (f.name, fname(prog, fl)))
    rep.floor('fields that own memory', nmem, 3)


def loaded(F, prog, f, d, cl):
    """fields whose content d is, also through parameters of f"""
    out = set()
    seen = set()
    work = [(f, d)]
    while work:
        g, x = work.pop()
        if (g.key, x) in seen or len(seen) > 60:
            continue
        seen.add((g.key, x))
        if x[0] == 'ld':
            lf = lastfield(x)
            if lf:
                out.add(lf[:2])
        elif x[0] == 'p':
            for h in (prog.fns[k] for k in cl):
                for i in h.instrs():
                    if i['op'] == 'call' and i['fn'][0] == 'F' and prog.resolve(h, i['fn'][1]) is g and x[1] < len(i['args']):
                        for y in F.val(h, i['args'][x[1]]):
                            work.append((h, y))
    return out


def capacity(prog, F, fld, fns):
    """fld counts what has been allocated: the same function hands its new value to an allocation"""
    for f in fns:
        vals = {strip(f, i['args'][0])[1] for i in f.instrs() if i['op'] == 'store' and field(F, f, i['args'][1]) == fld and strip(f, i['args'][0])[0] == 'v'}
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and (i['fn'][1] in ALLOC or any(y[0] == 'r' and y[1] in ALLOC for y in F.expand(f, ('r', i['fn'][1], f.key, i['i'])))):
                for o in i['args']:
                    o = strip(f, o)
                    if o[0] == 'v' and (o[1] in vals or f.defs[o[1]]['op'] == 'mul' and any(strip(f, a)[0] == 'v' and strip(f, a)[1] in vals for a in f.defs[o[1]]['args'])):
                        return True
    return False
