"""Transaction phases: which functions reach which module operation, and what walks over modules and events cover."""
from . import affine
from .affine import Frame, add, const, sym, show, key
from .build import AnalysisBroken

PHASES = ('begin', 'prepare_commit', 'apply', 'undo', 'apply_event', 'undo_event', 'finish', 'release')
XLOCK = {'picotm_os_rwlock_rdlock': 'x+shared', 'picotm_os_rwlock_wrlock': 'x+excl', 'picotm_os_rwlock_unlock': 'x-',
         'pthread_rwlock_rdlock': 'x+shared', 'pthread_rwlock_wrlock': 'x+excl', 'pthread_rwlock_unlock': 'x-'}


def opfield(prog, fn, o):
    """name of the module operation that operand o was loaded from, or None"""
    if o[0] != 'v':
        return None
    d = fn.defs[o[1]]
    if d['op'] == 'phi':
        r = {opfield(prog, fn, x) for _, x in d['in']}
        return r.pop() if len(r) == 1 else None
    if d['op'] != 'load':
        return None
    a = d['args'][0]
    steps = None
    if a[0] == 'v':
        g = fn.defs[a[1]]
        if g['op'] == 'getelementptr':
            steps = g['gep'][1]
    if steps and steps[-1][0] == 'f' and steps[-1][1] == 'struct.picotm_module_ops':
        return prog.fieldname('struct.picotm_module_ops', steps[-1][2])
    return None


def xfield(prog, fn, o):
    if o[0] == 'v':
        g = fn.defs[o[1]]
        if g['op'] == 'getelementptr':
            for s in g['gep'][1]:
                if s[0] == 'f' and s[1] == 'struct.picotm_lock_manager' and prog.fieldname(s[1], s[2]) == 'exclusive_lo_lock':
                    return True
            return xfield(prog, fn, g['gep'][0])
    return False


def logclear(prog, fn, i):
    if i['op'] == 'store' and i['args'][1][0] == 'v':
        g = fn.defs[i['args'][1][1]]
        if g['op'] == 'getelementptr' and g['gep'][1]:
            s = g['gep'][1][-1]
            if s[0] == 'f' and s[1] == 'struct.picotm_log' and prog.fieldname(s[1], s[2]) == 'eventtablen':
                return i['args'][0][0] in ('i', 'n', 'z') and not i['args'][0][1:2] in ([1],)
    return False


def direct(prog, fn):
    """phase operations performed by fn itself: instr id -> kind"""
    c = prog.__dict__.setdefault('_phase_direct', {})
    if fn.key not in c:
        r = {}
        for i in fn.instrs():
            if i['op'] == 'call':
                k = opfield(prog, fn, i['fn'])
                if k:
                    r[i['i']] = k
                elif i['fn'][0] == 'F' and i['fn'][1] in XLOCK and i['args'] and xfield(prog, fn, i['args'][0]):
                    r[i['i']] = XLOCK[i['fn'][1]]
            elif logclear(prog, fn, i) and fn.name != 'picotm_log_init':
                r[i['i']] = 'clear'
        c[fn.key] = r
    return c[fn.key]


def reach(prog, fn):
    """phase operations reachable from fn (through direct calls and function operands)"""
    memo = prog.__dict__.setdefault('_phase_reach', {})
    if memo:
        return memo.get(fn.key, frozenset())
    g, r = {}, {}
    for f in prog.fns.values():
        r[f.key] = set(direct(prog, f).values())
        s = set()
        for i in f.instrs():
            if i['op'] != 'call':
                continue
            for o in [i['fn']] + i['args']:
                if o[0] == 'F':
                    c = prog.resolve(f, o[1])
                    if c is not None:
                        s.add(c.key)
        g[f.key] = s
    # only the core library drives phases; recovery (longjmp) calls are not descended into
    ch = True
    while ch:
        ch = False
        for k, s in g.items():
            n = set(r[k])
            for c in s:
                n |= r[c]
            if n != r[k]:
                r[k] = n
                ch = True
    for k in r:
        memo[k] = frozenset(r[k])
    return memo.get(fn.key, frozenset())


class Event:
    def __init__(self, kind, fr, ins, stack):
        self.kind, self.fr, self.ins, self.stack = kind, fr, ins, stack

    @property
    def where(self):
        return self.fr.fn.loc(self.ins)


def find_events(prog, fn, kinds, args=None):
    """all ways the phase operations `kinds` are reached from fn, with the frames in between"""
    if args is None:
        args = [sym(('arg', k, fn.argn[k] if k < len(fn.argn) else '')) for k in range(len(fn.args))]
    out = []

    def go(fr, stack):
        if fr.depth > 10 or len({s[0].fn.key for s in stack}) != len(stack):
            return
        d = direct(prog, fr.fn)
        for i in fr.fn.instrs():
            if d.get(i['i']) in kinds:
                out.append(Event(d[i['i']], fr, i, stack))
                continue
            if i['op'] != 'call':
                continue
            c = None
            fa = fr.fnarg(i['fn'])
            if fa is not None and fa[0] == 'fn':
                c = fa[1]
            if c is None:
                continue
            r = set(reach(prog, c))
            for o in i['args']:
                a = fr.fnarg(o)
                if a is not None and a[0] == 'fn':
                    r |= reach(prog, a[1])
            if r & set(kinds):
                go(fr.enter(c, i), stack + [(fr, i)])
    go(Frame(prog, fn, args), [])
    return out


def skips(prog, fr, ins, kind):
    """branches that let a frame return without reaching ins although the operation exists; [(block, text)]"""
    fn = fr.fn
    bi = fn.block_of(ins['i'])
    l = affine.innermost_loop(fn, bi)
    target = bi
    while l is not None:
        target = l[0]
        # enclosing loop of the header
        outer = None
        for h in fn.headers:
            if h == target:
                continue
            b = affine.natural_loop(fn, h)
            if target in b and (outer is None or len(b) < len(outer[1])):
                outer = (h, b)
        l = outer
    canreach = {target}
    work = [target]
    while work:
        b = work.pop()
        for p in fn.pred[b]:
            if p not in canreach:
                canreach.add(p)
                work.append(p)
    bad = []
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b == target or b not in canreach:
            continue
        seen.add(b)
        t = fn.blocks[b][-1]
        for x in fn.succ[b]:
            if x in canreach:
                work.append(x)
            elif not affine.dead_block(fn, x):
                if t['op'] == 'br' and 'cond' in t:
                    g = affine.guard(fr, t['cond'], t['succ'][0] == x)
                    if g is not None and g[0] == 'call':
                        if g[1]['fn'][0] == 'F' and g[1]['fn'][1] == 'picotm_error_is_set' and g[2]:
                            continue
                    elif g is not None:
                        a, rel, c, ci = g
                        o = ci['args'][0] if ci['args'][1][0] == 'n' else ci['args'][1]
                        if rel == '==' and (not a or not c) and opfield(prog, fn, o) == kind:
                            continue
                bad.append((b, fn.loc(t)))
    return bad


def off(prog, struct, field):
    return prog.structs[struct]['el'][prog.fieldidx(struct, field)][0]


def module_of(ev):
    """polynomial of the struct picotm_module whose operation is called"""
    prog, fr = ev.fr.prog, ev.fr
    d = fr.fn.defs[ev.ins['fn'][1]]
    while d['op'] == 'phi':
        d = fr.fn.defs[d['in'][0][1][1]]
    a = fr.ev(d['args'][0])
    # a = ld(m + off(ops)) + off(field)
    o = off(prog, 'struct.picotm_module_ops', ev.kind)
    base = add(a, const(-o))
    if len(base) == 1:
        (m, c), = base.items()
        if c == 1 and len(m) == 1 and m[0][0] == 'ld':
            return add(dict(m[0][1]), const(-off(prog, 'struct.picotm_module', 'ops')))
    return None


def event_checks(prog, rep, rule, ev, want):
    """coverage, skipping and argument obligations of one reached phase operation"""
    kind = ev.kind
    name = kind
    frames = ev.stack + [(ev.fr, ev.ins)]
    # ----- nothing between the entry and the call skips it
    for fr, ins in frames[1:]:
        for b, w in skips(prog, fr, ins, kind):
            rep.bad(rule + '-skip', '%s:%s' % (name, fr.fn.name), w, '%s can return in %s without calling the %s operation of a module that has one' % (fr.fn.name, w, kind))
        rep.count(rule + '-skip')
    m = module_of(ev)
    where = ev.where
    if m is None:
        rep.bad(rule + '-args', name + ':module', where, 'the %s operation is not taken from a module\'s operation table' % kind)
        return None
    # ----- arguments
    data = sym(('ld', key(add(m, const(off(prog, 'struct.picotm_module', 'data'))))))
    args = [ev.fr.ev(o) for o in ev.ins['args']]
    dpos = 2 if kind.endswith('_event') else 0
    rep.ob(rule + '-args', len(args) > dpos and args[dpos] == data, name + ':data', where,
           'the %s operation of a module gets %s instead of its own data' % (kind, show(args[dpos]) if len(args) > dpos else 'nothing'))
    # ----- loop
    loopfr = None
    for fr, ins in reversed(frames):
        l = affine.innermost_loop(fr.fn, fr.fn.block_of(ins['i']))
        if l is not None:
            loopfr = (fr, ins)
            break
    if loopfr is None:
        rep.bad(rule + '-walk', name + ':none', where, 'the %s operation is called for one module only' % kind)
        return None
    nl = sum(1 for fr, ins in frames if affine.innermost_loop(fr.fn, fr.fn.block_of(ins['i'])) is not None)
    if nl > 1:
        rep.bad(rule + '-walk', name + ':nested', where, 'the %s operation is called from nested loops' % kind)
        return None
    fr, ins = loopfr
    elem = m
    if kind.endswith('_event'):
        # m = X + off(module) + zext(ld e.module)*16
        e = None
        for s in affine.symbols(args[0]) if len(args) > 2 else ():
            if s[0] == 'ld':
                e = add(dict(s[1]), const(-off(prog, 'struct.picotm_event', 'head')))
        if e is None:
            rep.bad(rule + '-args', name + ':head', where, 'the %s operation does not get the head of the recorded event' % kind)
            return None
        for k, f in ((0, 'head'), (1, 'tail')):
            w = sym(('ld', key(add(e, const(off(prog, 'struct.picotm_event', f))))))
            rep.ob(rule + '-args', args[k] == w, '%s:%s' % (name, f), where,
                   'the %s operation gets %s where the %s of the recorded event belongs' % (kind, show(args[k]), f))
        mid = sym(('ld', key(add(e, const(off(prog, 'struct.picotm_event', 'module'))))))
        base = add(m, affine.mul(mid, const(prog.structs['struct.picotm_module']['size'])), -1)
        tx = add(base, const(-off(prog, 'struct.picotm_tx', 'module')))
        rep.ob(rule + '-args', not any(s[0] == 'ld' and 'phi' in str(s) for s in affine.symbols(tx)), name + ':module', where,
               'the %s operation is called on module %s instead of the one that recorded the event' % (kind, show(m)))
        elem = e
    c, why = affine.loop_cover(fr, ins, elem)
    if c is None:
        rep.bad(rule + '-walk', name, fr.fn.loc(ins), 'cannot show that %s is called for every element: %s' % (kind, why))
        return None
    for b, g in c.exits:
        ok = g[0] == 'call' and g[1]['fn'][0] == 'F' and g[1]['fn'][1] == 'picotm_error_is_set' and not g[2]
        if not ok:
            rep.bad(rule + '-walk', name + ':exit', fr.fn.loc(fr.fn.blocks[b][-1]), 'the walk for %s can end early without a failure' % kind)
    # step symbols that are results of the callback must be 1 on success
    unit = {}
    for s in affine.symbols(c.step):
        if s[0] == 'v' and s[1] == fr.fn.key:
            d = fr.fn.defs[s[2]]
            if d['op'] == 'call':
                fa = fr.fnarg(d['fn'])
                if fa is not None and fa[0] == 'fn':
                    from .checks.errflow import ret_summary
                    if ret_summary(prog, fa[1])[0] == frozenset({1}):
                        unit[s] = 1
    if kind.endswith('_event'):
        lg = None
        for s in affine.symbols(c.init) | affine.symbols(c.bound):
            if s[0] == 'ld':
                lg = s
        # first = ld(L+eventtab), count = ld(L+eventtablen)
        ot, ol = off(prog, 'struct.picotm_log', 'eventtab'), off(prog, 'struct.picotm_log', 'eventtablen')
        cand = []
        for s in affine.symbols(c.init) | affine.symbols(c.bound):
            if s[0] == 'ld':
                cand.append(add(dict(s[1]), const(-ot)))
                cand.append(add(dict(s[1]), const(-ol)))
        first = count = None
        res = (None, 'the log is not walked')
        for L in cand:
            first = sym(('ld', key(add(L, const(ot)))))
            count = sym(('ld', key(add(L, const(ol)))))
            r = affine.covers(c, first, count, const(prog.structs['struct.picotm_event']['size']), unit)
            if r[0] or res[1] == 'the log is not walked':
                res = r
            if r[0]:
                break
    else:
        size = const(prog.structs['struct.picotm_module']['size'])
        om, on = off(prog, 'struct.picotm_tx', 'module'), off(prog, 'struct.picotm_tx', 'nmodules')
        res = (None, 'the table of modules is not walked')
        cand = []
        for p in (c.init, c.bound):
            cand.append(add(add(affine.mul(p, c.scale), c.off), const(-om)))
            for s in affine.symbols(p):
                if s[0] == 'ld':
                    cand.append(add(dict(s[1]), const(-on)))
        for T in cand:
            first = add(T, const(om))
            count = sym(('ld', key(add(T, const(on)))))
            r = affine.covers(c, first, count, size, unit)
            if r[0] or res[1] == 'the table of modules is not walked':
                res = r
            if r[0]:
                break
    rep.ob(rule + '-walk', res[0] is not None and (want is None or res[0] == want), name, fr.fn.loc(ins),
           'the walk that calls %s %s' % (kind, res[1] or 'runs %s' % ('backwards' if res[0] == 'rev' else 'forwards')))
    return res[0]


# ---------------------------------------------------------------- order of the phases
from .checks.errflow import ErrPlugin, pure, errparams, may_set          # noqa: E402
from .engine import Engine, Plugin, mentions, I0, I1, trace_list, ERR_SET, ERR_QUERY  # noqa: E402

LONGJMP = ('siglongjmp', '__siglongjmp_chk', 'longjmp', '_longjmp', '__longjmp_chk')


def ljreach(prog, fn, depth=0):
    memo = prog.__dict__.setdefault('_ljreach', {})
    if fn.key not in memo:
        memo[fn.key] = False
        r = False
        for i in fn.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F':
                if i['fn'][1] in LONGJMP:
                    r = True
                c = prog.resolve(fn, i['fn'][1])
                if c is not None and c.internal and c.unit == fn.unit and ljreach(prog, c):
                    r = True
        memo[fn.key] = r
    return memo[fn.key]


class PhasePlugin(ErrPlugin):
    """ps = tuple of phase operations in the order in which a path reaches them; a failing one ends with '!'"""
    max_block_states = 400

    def __init__(self, prog):
        ErrPlugin.__init__(self, prog)
        self.jumps = []          # (site, mode argument, st)
        self.loops = {}

    def keep(self, ps):
        return ()

    def op(self, st, kind, site):
        if st.ps and st.ps[-1] == kind:
            return st
        if len(st.ps) > 40:
            raise AnalysisBroken('phase sequence too long')
        return st.with_(ps=st.ps + (kind,)).note(site.where, kind)

    def candidates(self, eng, fv, cands, st, site):
        if site.ins['i'] in direct(self.prog, site.fn):
            return None
        return ErrPlugin.candidates(self, eng, fv, cands, st, site)

    def kinds_of(self, callee, args):
        r = set(reach(self.prog, callee))
        for a in args:
            if a[0] == 'F':
                c = self.prog.local.get((a[2], a[1])) or next((x for x in self.prog.by_name.get(a[1], ()) if not x.internal), None)
                if c is not None:
                    r |= reach(self.prog, c)
        return r

    def perform(self, eng, kind, callee, args, st, site):
        """phase operation with both outcomes"""
        R = ('R', kind, site.id, site.ctx)
        st = eng.clobber(st.kill(R), [a for a in args if not self.is_err(eng, a, callee)])
        out = [(R, self.op(st, kind, site))]
        for k, a in enumerate(args):
            if callee is not None and k not in errparams(callee):
                continue
            if callee is None and not self.is_err(eng, a) and a not in self.errobjs(args, site):
                continue
            kinds = self.kinds(eng, callee, k, args) if callee is not None else frozenset({'conflicting', 'revocable', 'errno', 'code'})
            if callee is not None and kind in PHASES:
                kinds = kinds | {'conflicting', 'revocable', 'errno', 'code'}
            if kinds:
                s2 = st.seterr(a, (kinds, kind, site.where, False))
                ps = s2.ps[:-1] if s2.ps and s2.ps[-1] == kind and kind in PHASES else s2.ps
                out.append((R, s2.with_(ps=ps + (kind + '!',)).note(site.where, kind + ' fails')))
        return out

    def errobjs(self, args, site):
        # the last argument of a module operation is its error object
        return [args[-1]] if len(args) > 1 else []

    def default(self, eng, name, callee, args, st, site):
        if name in LONGJMP:
            self.jumps.append((site, args[1], st))
            return []
        k = direct(self.prog, site.fn).get(site.ins['i'])
        if k is not None:
            if k in PHASES:
                args = args[1:]
            elif callee is None or not errparams(callee):
                return [(I0, self.op(st, k, site))]
            return self.perform(eng, k, callee, args, st, site)
        if callee is not None:
            r = self.kinds_of(callee, args)
            if len(r) == 1 and r <= set(PHASES):
                return self.perform(eng, next(iter(r)), callee, args, st, site)
            if r or ljreach(self.prog, callee) and callee.unit == site.fn.unit:
                return 'inline'
            if pure(self.prog, callee):
                return 'inline'
            if callee.internal and callee.unit == site.fn.unit and callee.ret == 'ptr' and sum(len(b) for b in callee.blocks) <= 3:
                return 'inline'
        return self.opaque(eng, name, callee, args, st, site)

    def opaque(self, eng, name, callee, args, st, site):
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def small(self, site, callee):
        return False

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def store(self, eng, addr, val, st, site):
        if direct(self.prog, site.fn).get(site.ins['i']) == 'clear':
            return self.op(st, 'clear', site)
        return st

    def on_recover(self, eng, name, e, st, site):
        if name == 'picotm_error_mark_as_non_recoverable':
            return [(('u',), self.op(st, 'mark', site))]
        return ErrPlugin.on_recover(self, eng, name, e, st, site)

    def branch(self, eng, cond, truth, st, site):
        fn = site.fn
        if fn.key not in self.loops:
            d = {}
            for h in fn.headers:
                ks = set()
                for b in affine.natural_loop(fn, h):
                    for i in fn.blocks[b]:
                        k = direct(self.prog, fn).get(i['i'])
                        if k:
                            ks.add(k)
                        elif i['op'] == 'call' and i['fn'][0] == 'F':
                            c = self.prog.resolve(fn, i['fn'][1])
                            if c is not None:
                                ks |= reach(self.prog, c)
                if len(ks) == 1 and ks <= set(PHASES):
                    d[fn.blocks[h][-1]['i']] = ks.pop()
            self.loops[fn.key] = d
        k = self.loops[fn.key].get(site.ins['i'])
        if k and not (st.ps and st.ps[-1].rstrip('!') == k):
            return self.op(st, k, site)
        return st

    def ret(self, eng, fn, val, st, site):
        return st


def failed(ps):
    return [k[:-1] for k in ps if k.endswith('!')]


class Mode(PhasePlugin):
    """also tracks whether the transaction's failure is recoverable ('rec' / 'nonrec') and whether the transaction could be had ('notx')"""

    def default(self, eng, name, callee, args, st, site):
        if name == 'picotm_error_is_non_recoverable' and site.fn.lib == 'core':
            return [(I1, st.with_(ps=st.ps + ('nonrec',))), (I0, st.with_(ps=st.ps + ('rec',)))]
        return PhasePlugin.default(self, eng, name, callee, args, st, site)

    def branch(self, eng, cond, truth, st, site):
        st = PhasePlugin.branch(self, eng, cond, truth, st, site)
        for m in mentions(cond):
            if isinstance(m, tuple) and len(m) > 1 and m[0] == 'L' and isinstance(m[1], tuple) and m[1][0] == 'P' and m[1][2][-1][0] == 'f' and \
                    m[1][2][-1][1] == 'struct.picotm_error' and self.prog.fieldname(*m[1][2][-1][1:3]) == 'is_non_recoverable':
                r = eng.getfact(st, m)
                if r[0] == r[1] == 0:
                    st = st.with_(ps=st.ps + ('rec',))
                elif r[0] > 0 or 0 in r[2]:
                    st = st.with_(ps=st.ps + ('nonrec',))
        return st

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        st = PhasePlugin.failed(self, eng, name, callee, args, e, kinds, R, st, site)
        if callee is not None and callee.ret == 'ptr' and not st.ps:
            st = st.with_(ps=('notx',))
        return st
