"""P13: transactional locks are kept to the end of the transaction, then all released."""
from .. import affine
from ..affine import Frame, add, const, sym, key
from ..flow import flow
from ..must import Must
from .p25 import handlers
from .errflow import errparams
from ..ir import dominates

EXPLANATION = (
    "Call-graph, value-origin and loop-coverage analysis over LLVM IR. (1) early: no unlock of a transactional reader/writer lock (picotm_rwstate_unlock, picotm_rwlock_unlock) is reachable, through calls, tables of functions or callbacks, from any exported operation or from a "
    "prepare, apply, undo, apply_event or undo_event callback (releasing what the same failing call has just acquired is allowed, see 6). (2) released: every structure member on which a try-lock is performed is unlocked below a finish callback. "
    "(3) whole: if the member is an array, the unlocking loop covers all its elements, each together with its own lock; no branch between the finish callback and the unlock skips it. (4) lists: every list onto which an operation puts an object is emptied through an unlocking callback in finish, "
    "and the list walkers call the callback for every item. (5) pairing: try-lock and unlock of one member use the same lock. (6) regions: an ownership automaton over locks that are taken without a state object: every call that may have locked something either records it, or releases it when it fails, "
    "in the function itself or in one of its callers before the operation returns; partial loops release what they got. (7) forget: no exported operation re-initialises a lock state.")

TRY = ('picotm_rwstate_try_rdlock', 'picotm_rwstate_try_wrlock')
RAWTRY = ('picotm_rwlock_try_rdlock', 'picotm_rwlock_try_wrlock')
UNLOCK = ('picotm_rwstate_unlock', 'picotm_rwlock_unlock')
STATE = TRY + ('picotm_rwstate_unlock', 'picotm_rwstate_init', 'picotm_rwstate_uninit', 'picotm_rwstate_set_status', 'picotm_rwstate_get_status')
PHASES = ('prepare_commit', 'apply', 'undo', 'apply_event', 'undo_event')


def targets(prog, F, fn, i):
    """functions called by instruction i, including functions handed over as arguments"""
    out = [(n, c) for n, c in F.targets(fn, i)]
    for o in i['args']:
        if o[0] == 'F':
            out.append((o[1], prog.resolve(fn, o[1])))
        elif o[0] in ('g', 'gep'):
            g = prog.global_(fn, o[1] if o[0] == 'g' else o[1][0][1]) if o[0] == 'g' or o[1][0][0] == 'g' else None
            if g and g['const'] and g['init'] and g['init'][0] == 'A':
                for e in g['init'][1]:
                    if e[0] == 'F':
                        out.append((e[1], prog.resolve(fn, e[1])))
    return out


def closure(prog, F, roots, stop=lambda f: False, names=None):
    """{fn key: (fn, parent key, call)} reachable from roots"""
    seen = {f.key: (f, None, None) for f in roots}
    work = list(roots)
    while work:
        f = work.pop()
        if stop(f):
            continue
        for i in f.instrs():
            if i['op'] != 'call':
                continue
            for n, c in targets(prog, F, f, i):
                if c is not None and c.key not in seen:
                    seen[c.key] = (c, f.key, i)
                    work.append(c)
    return seen


def chain(seen, k):
    out = []
    while k is not None:
        f, p, i = seen[k]
        out.append(f.name)
        k = p
    return ' > '.join(reversed(out))


def lastfield(d):
    """(struct, field) of the innermost member named by descriptor d"""
    while d[0] == '&' or d[0] == 'ld':
        for s in reversed(d[2]):
            if s[0] == 'f':
                return (s[1], s[2])
        d = d[1]
    return None


def apis(prog):
    return [f for f in prog.fns.values() if not f.internal and f.vis != 'hidden' and f.lib != 'core' and f.lib is not None]


def run(prog, rep):
    F = flow(prog)
    fin = [f for _, f in handlers(prog, 'finish')]
    finset = closure(prog, F, fin)
    ends = {f.key for f in fin}
    # ---------------- regions: locks without a state object
    R = Regions(prog, F, rep)
    # ---------------- early
    core = lambda f: f.lib == 'core' and f.name not in ()
    roots = [f for f in prog.fns.values() if f.lib != 'core' and not f.internal and exported(f) and f.key not in finset]
    n = 0
    for what, rs in [('operation', roots)] + [(op, [f for _, f in handlers(prog, op)]) for op in PHASES]:
        for r in rs:
            n += 1
            seen = closure(prog, F, [r], stop=lambda f: f.key in ends or f.lib == 'core')
            for k, (f, p, i) in seen.items():
                if f.lib == 'core':
                    continue
                for c in f.instrs():
                    if c['op'] == 'call' and c['fn'][0] == 'F' and c['fn'][1] in UNLOCK and not R.cleanup(seen, f, c):
                        rep.bad('early', '%s:%s' % (r.name, f.name), f.loc(c), '%s releases a transactional lock while the transaction is still running (%s)' % (r.name, chain(seen, k)))
                    if c['op'] == 'call' and c['fn'][0] == 'F' and c['fn'][1] == 'picotm_rwstate_init' and what != 'operation':
                        rep.bad('forget', '%s:%s' % (r.name, f.name), f.loc(c), '%s re-initialises a lock state instead of releasing the lock' % r.name)
            rep.count('early')
    rep.floor('operations and callbacks examined', n, 250)
    # ---------------- released
    acq, locks = {}, {}
    for f in prog.fns.values():
        if f.lib == 'core':
            continue
        for i in f.instrs():
            pass
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.lib == 'core':
            continue
        for nm, args, site, ch in F.calls(f, want_try):
            for d in args[0]:
                fld = lastfield(d)
                if fld and not fld[0].startswith('struct.picotm_rw'):
                    acq.setdefault(fld, set()).add(site)
                    for e in args[1]:
                        lf = lastfield(e)
                        if lf:
                            locks.setdefault(fld, set()).add(lf)
    rel, rlocks, holders = {}, {}, {}
    for k, (f, p, i) in finset.items():
        if f.lib == 'core':
            continue
        for nm, args, site, ch in F.calls(f, want_unlock):
            for d in args[0]:
                fld = lastfield(d)
                if fld:
                    rel.setdefault(fld, set()).add(site)
                    for e in args[1]:
                        lf = lastfield(e)
                        if lf:
                            rlocks.setdefault(fld, set()).add(lf)
    rep.floor('lock states', len(acq), 11)
    for fld in sorted(acq):
        nm = fname(prog, fld)
        site = sorted(acq[fld])[0]
        f = prog.fns[site[0]]
        rep.ob('released', fld in rel, nm, f.loc(f.defs[site[1]]), 'locks held through %s are never released when the transaction finishes' % nm)
        if fld in rel:
            rep.ob('pairing', locks.get(fld) == rlocks.get(fld), nm, f.loc(f.defs[site[1]]), 'locks held through %s: locked are %s, released %s' % (
                nm, ', '.join(fname(prog, x) for x in sorted(locks.get(fld, ()))), ', '.join(fname(prog, x) for x in sorted(rlocks.get(fld, ())))))
    # ---------------- whole: per finish function that names the member
    whole(prog, F, rep, acq, finset, fin)
    lists(prog, F, rep, finset, roots)
    R.run(roots)
    R.finish(finset)


def want_try(n):
    return n in TRY


def want_unlock(n):
    return n == 'picotm_rwstate_unlock'


def exported(f):
    import re
    return f.vis and bool(re.search('_t[xm]$', f.name) or f.name.startswith(('__picotm', 'picotm_', 'tx')))


def fname(prog, fld):
    return '%s.%s' % (fld[0].split('.')[-1], prog.fieldname(*fld))


def unlockreach(prog, F):
    m = prog.__dict__.setdefault('_unlockreach', {})
    if not m:
        g = {}
        for f in prog.fns.values():
            m[f.key] = False
            g[f.key] = set()
            for i in f.instrs():
                if i['op'] == 'call':
                    for n, c in targets(prog, F, f, i):
                        if n in UNLOCK:
                            m[f.key] = True
                        if c is not None:
                            g[f.key].add(c.key)
        ch = True
        while ch:
            ch = False
            for k in m:
                if not m[k] and any(m.get(c) for c in g[k]):
                    m[k] = ch = True
    return m


def skipped(prog, fr, ins):
    """branches by which fr's function can return without reaching ins, other than on failure"""
    from ..phases import skips
    out = []
    for b, w in skips(prog, fr, ins, '-'):
        t = fr.fn.blocks[b][-1]
        if t['op'] == 'br' and 'cond' in t:
            x = [k for k in (0, 1)]
            g = affine.guard(fr, t['cond'], True)
            if g is not None and g[0] == 'call' and g[1]['fn'] == ['F', 'picotm_error_is_set']:
                continue
            away = [k for k in (0, 1) if w_leaves(fr, t['succ'][k], ins)]
            if len(away) == 1 and unlocked(prog, fr.fn, t['cond'], away[0] == 0):
                continue
        out.append(w)
    return out


def w_leaves(fr, b, ins):
    """ins cannot be reached from block b"""
    t = fr.fn.block_of(ins['i'])
    seen, work = set(), [b]
    while work:
        x = work.pop()
        if x == t:
            return False
        if x not in seen:
            seen.add(x)
            work += fr.fn.succ[x]
    return True


def unlocked(prog, fn, cond, truth, depth=0):
    """cond == truth implies that the lock state says 'not locked'"""
    zero = prog.enum('PICOTM_RWSTATE_UNLOCKED')
    while cond[0] == 'v':
        i = fn.defs[cond[1]]
        if i['op'] == 'xor':
            truth = not truth
        elif i['op'] == 'icmp' and i['args'][1][0] in ('i', 'z') and i['pred'] in ('eq', 'ne'):
            x = i['args'][0]
            v = i['args'][1][1] if i['args'][1][0] == 'i' else 0
            c = fn.defs[x[1]] if x[0] == 'v' else None
            while c is not None and c['op'] in ('zext', 'trunc', 'sext', 'freeze') and c['args'][0][0] == 'v':
                c = fn.defs[c['args'][0][1]]
            if c is not None and c['op'] == 'call' and c['fn'] == ['F', 'picotm_rwstate_get_status']:
                return v == zero and (i['pred'] == 'eq') == truth
            if v:
                return False
            if i['pred'] == 'eq':
                truth = not truth
        elif i['op'] == 'call' and i['fn'][0] == 'F' and depth < 3:
            c = prog.resolve(fn, i['fn'][1])
            rets = [j['args'][0] for j in c.instrs() if j['op'] == 'ret' and j.get('args')] if c is not None else []
            return len(rets) == 1 and unlocked(prog, c, rets[0], truth, depth + 1)
        elif i['op'] not in ('zext', 'freeze', 'trunc'):
            return False
        cond = i['args'][0]
    return False


def whole(prog, F, rep, acq, finset, fin):
    UR = unlockreach(prog, F)
    done = {}
    n = 0
    # frames from every finish-reachable function that forms the member's address and leads to the unlock
    for k, (f, p, call) in sorted(finset.items()):
        if f.lib == 'core' or not UR.get(k):
            continue
        for fr, ins, stack in unlocks(prog, f):
            a0 = fr.ev(ins['args'][0])
            a1 = fr.ev(ins['args'][1])
            fld = None
            for d in F_first(F, f, fr, ins, stack):
                fld = lastfield(d)
            if fld is None or fld not in acq:
                continue
            own = fieldowner(prog, F, f, stack, fld)
            if not own:
                continue
            n += 1
            nm = fname(prog, fld)
            el = prog.structs[fld[0]]['el'][fld[1]]
            cnt = arraylen(el)
            frames = stack + [(fr, ins)]
            for x, ci in frames:
                for w in skipped(prog, x, ci):
                    rep.bad('whole', nm + ':skip', w, '%s can return without releasing the locks held through %s' % (x.fn.name, nm))
            kk = k
            while finset[kk][1] is not None:
                _, par, ci = finset[kk]
                pf = finset[par][0]
                if pf.lib != 'core' and ci['fn'][0] == 'F' and prog.resolve(pf, ci['fn'][1]) is finset[kk][0]:
                    for w in skipped(prog, Frame(prog, pf, [sym(('arg', q, '')) for q in range(len(pf.args))]), ci):
                        rep.bad('whole', nm + ':skip', w, '%s can return without releasing the locks held through %s' % (pf.name, nm))
                kk = par
            inloop = None
            for x, ci in reversed(frames):
                if affine.innermost_loop(x.fn, x.fn.block_of(ci['i'])) is not None:
                    inloop = (x, ci)
                    break
            if cnt <= 1:
                rep.ob('whole', True, nm, fr.fn.loc(ins), '')
                done[fld] = True
                continue
            if inloop is None:
                rep.bad('whole', nm, fr.fn.loc(ins), 'only one of the %d locks held through %s is released' % (cnt, nm))
                done[fld] = True
                continue
            x, ci = inloop
            res = []
            for a, size, base in ((a0, None, own), (a1, None, None)):
                c, why = affine.loop_cover(x, ci, a)
                res.append((c, why))
            c, why = res[0]
            if c is None:
                rep.bad('whole', nm, x.fn.loc(ci), 'cannot show that all locks held through %s are released: %s' % (nm, why))
                done[fld] = True
                continue
            stride = const(prog.structs['struct.picotm_rwstate']['size'])
            first = [s for s in own]
            r = (None, '')
            for b in first:
                r = affine.covers(c, b, const(cnt), stride)
                if r[0]:
                    break
            ex = [g for b, g in c.exits]
            rep.ob('whole', r[0] is not None and not ex, nm, x.fn.loc(ci), 'the loop that releases the locks held through %s %s' % (nm, r[1] or 'can end early'))
            # the lock of the same index
            ok, why = lockstep(prog, x, ci, a0, a1, cnt, stride)
            rep.ob('whole', ok, nm + ':lock', x.fn.loc(ci), 'the locks released for the states in %s are not the states\' own locks: %s' % (nm, why))
            done[fld] = True
    for fld in sorted(acq):
        if fld not in done:
            rep.ob('whole', False, fname(prog, fld), '', 'cannot find where all locks held through %s are released' % fname(prog, fld))
    rep.count('release sites', n)


def F_first(F, f, fr, ins, stack):
    """origin of the unlocked state in terms of f's parameters"""
    env = None
    fn = f
    for x, ci in stack:
        args = [F.val(x.fn, o) if env is None else F.substset(F.val(x.fn, o), env) for o in ci['args']]
        env = args
    v = F.val(fr.fn, ins['args'][0])
    return v if env is None else F.substset(v, env)


def fieldowner(prog, F, f, stack, fld):
    """f itself forms the address of member fld: polynomials of the first element"""
    out = []
    args = [sym(('arg', k, f.argn[k] if k < len(f.argn) else '')) for k in range(len(f.args))]
    fr = stack[0][0] if stack else Frame(prog, f, args)
    for i in f.instrs():
        for g in geps(i):
            for n, s in enumerate(g[1]):
                if s[0] == 'f' and s[1] == fld[0] and s[2] == fld[1]:
                    b = fr.gep([g[0], g[1][:n + 1]])
                    if b is not None and b not in out:
                        out.append(b)
    return out


def geps(i):
    if i['op'] == 'getelementptr':
        yield i['gep']
    for o in i.get('args', ()):
        if o[0] == 'gep':
            yield o[1]


def arraylen(el):
    return el[2] if el[2] > 0 else 1


def lockstep(prog, fr, ci, a0, a1, n, stride):
    """a1 - lockbase = k * (a0 - statebase) through the loop"""
    c0, w0 = affine.loop_cover(fr, ci, a0)
    c1, w1 = walk_of(fr, ci, a1)
    if c1 is None:
        return False, w1
    init, step = c1
    ls = const(prog.structs['struct.picotm_rwlock']['size'])
    s0 = affine.mul(c0.step, c0.scale)
    back = s0 != stride
    if s0 != stride and s0 != affine.mul(stride, const(-1)) or step != (affine.mul(ls, const(-1)) if back else ls):
        return False, 'the lock advances by %s, the state by %s' % (affine.show(step), affine.show(s0))
    # start: no constant part besides the member's offset: the lock array begins there
    offs = init.get((), 0)
    if back:
        offs -= (n - 1) * ls[()]
    return offs in lockarrays(prog), 'it starts %s bytes into the object' % offs


def lockarrays(prog):
    out = set()
    for n, s in prog.structs.items():
        for e in s['el']:
            if e[2] > 0 and e[1] == 'struct.picotm_rwlock':
                out.add(e[0])
    return out


def walk_of(fr, ci, elem):
    """(value in the first iteration, step) of polynomial elem in the innermost loop around ci"""
    fn = fr.fn
    h, body = affine.innermost_loop(fn, fn.block_of(ci['i']))
    init, step = dict(elem), {}
    for p in [i for i in fn.blocks[h] if i['op'] == 'phi']:
        s = ('phi', fn.key, p['i'], fr.ctx)
        hit = {m: c for m, c in elem.items() if s in m}
        if not hit:
            continue
        ini = stp = None
        for b, o in p['in']:
            v = fr.ev(o)
            if b in body:
                stp = add(v, sym(s), -1)
            else:
                ini = v
        if ini is None or stp is None or any(s in m for m in stp):
            return None, 'no linear step'
        for m, c in hit.items():
            init.pop(m, None)
            k = list(m)
            k.remove(s)
            init = add(init, affine.mul({tuple(k): c}, ini))
            step = add(step, affine.mul({tuple(k): c}, stp))
    return (init, step), ''


def unlocks(prog, f):
    """(frame, call, stack) of picotm_rwstate_unlock reached from f by direct calls"""
    args = [sym(('arg', k, f.argn[k] if k < len(f.argn) else '')) for k in range(len(f.args))]
    out = []

    def go(fr, stack):
        if fr.depth > 6:
            return
        for i in fr.fn.instrs():
            if i['op'] != 'call' or i['fn'][0] != 'F':
                continue
            if i['fn'][1] == 'picotm_rwstate_unlock':
                out.append((fr, i, stack))
                continue
            c = prog.resolve(fr.fn, i['fn'][1])
            if c is not None and prog._unlockreach.get(c.key) and c.key not in {s[0].fn.key for s in stack} and c.lib != 'core':
                go(fr.enter(c, i), stack + [(fr, i)])
    go(Frame(prog, f, args), [])
    return out


# ------------------------------------------------------------------ lists
def slot(d):
    return lastfield(d)


def lists(prog, F, rep, finset, roots):
    UR = unlockreach(prog, F)
    emptied = {}
    for k, (f, p, call) in finset.items():
        if f.lib != 'core':
            for fld in emptyloops(prog, F, f, UR):
                emptied.setdefault(fld, [])
        for i in f.instrs():
            if i['op'] != 'call' or i['fn'][0] != 'F':
                continue
            cbs = [(n, prog.resolve(f, o[1])) for n, o in enumerate(i['args']) if o[0] == 'F']
            cbs = [(n, c) for n, c in cbs if c is not None and UR.get(c.key)]
            w = prog.resolve(f, i['fn'][1])
            if not cbs or w is None or not (w.dty[1:2] or [''])[0].startswith(('struct picotm_slist', 'const struct picotm_slist')):
                continue
            for n, c in cbs:
                good, why = walker(prog, w, n)
                rep.ob('walker', good, w.name, w.loc(), '%s does not hand every item to its callback: %s' % (w.name, why))
            for fld in headfields(prog, F, f, i, finset):
                emptied.setdefault(fld, []).append((f, i))
    rep.floor('lists emptied at finish', len(emptied), 6)
    opset = closure(prog, F, roots, stop=lambda f: f.lib == 'core')
    free = set()                # lists of unused objects: finish itself puts objects there
    for k, (f, p, call) in finset.items():
        if f.lib != 'core':
            for nm, args, site, ch in F.calls(f, want_enqueue):
                free |= {lastfield(d) for d in args[0]}
    free -= set(emptied)
    n = 0
    did = set()
    owners = {(s, j) for s, _ in emptied for j in range(len(prog.structs[s]['el']))}
    for k, (f, p, call) in sorted(opset.items()):
        if k in finset and p is None:
            continue
        for nm, args, site, ch in F.calls(f, want_enqueue):
            for d in args[0]:
                fld = lastfield(d)
                if fld is None or fld[0].startswith('struct.picotm_slist') or not tracked(prog, fld) or (fld, site) in did:
                    continue
                did.add((fld, site))
                if fld in owners and fld not in free:
                    n += 1
                    g = prog.fns[site[0]]
                    rep.ob('lists', fld in emptied, fname(prog, fld), g.loc(g.defs[site[1]]),
                           '%s puts an object onto %s, which is not emptied when the transaction finishes; its locks stay held' % (g.name, fname(prog, fld)))
    rep.floor('operations that put objects onto lists', n, 8)
    used = {fld for fld, _ in did}
    for fld, sites in sorted(emptied.items()):
        rep.ob('lists', fld in used, fname(prog, fld) + ':unused', sites[0][0].loc(sites[0][1]) if sites else '', 'no operation puts an object onto %s, so finish cannot release the objects\' locks' % fname(prog, fld))
    for fld, site in sorted(did, key=str):
        if fld not in emptied:
            continue
        g = prog.fns[site[0]]
        w = bypass(prog, g, g.defs[site[1]])
        rep.ob('lists', w is None, fname(prog, fld) + ':' + g.name, g.loc(g.defs[site[1]]), '%s can succeed without putting the object onto %s (%s)' % (g.name, fname(prog, fld), w))
    for fld, sites in emptied.items():
        for f, i in sites:
            fr = Frame(prog, f, [sym(('arg', k, '')) for k in range(len(f.args))])
            if not UR.get(f.key) or f.lib == 'core':
                continue
            for w in skipped(prog, fr, i):
                rep.bad('lists', fname(prog, fld) + ':skip', w, '%s can return without emptying %s' % (f.name, fname(prog, fld)))


def want_enqueue(n):
    return n in ('picotm_slist_enqueue_front', 'picotm_slist_enqueue_back')


def bypass(prog, fn, ins):
    """a way from the last success before ins to a return around ins"""
    b = fn.block_of(ins['i'])
    start = None
    for bi, blk in enumerate(fn.blocks):
        t = blk[-1]
        if t['op'] != 'br' or 'cond' not in t:
            continue
        for k in (0, 1):
            x = t['succ'][k]
            if errcond(fn, t['cond'], k == 0) == 'ok' and dominates(fn, x, b) and (start is None or dominates(fn, start, x)):
                start = x
    if start is None:
        return None
    stop = {bi for bi, blk in enumerate(fn.blocks) for i in blk if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1].startswith('picotm_slist_enqueue')}
    seen, work = set(), [start]
    while work:
        x = work.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        t = fn.blocks[x][-1]
        if t['op'] == 'ret':
            return fn.loc(t)
        for k, y in enumerate(fn.succ[x]):
            if t['op'] == 'br' and 'cond' in t and errcond(fn, t['cond'], k == 0) == 'err':
                continue
            work.append(y)
    return None


def emptyloops(prog, F, f, UR):
    """lists that f empties in a loop that reaches an unlock for each item"""
    out = set()
    for h in f.headers:
        body = affine.natural_loop(f, h)
        outs = [x for x in body for y in f.succ[x] if y not in body and not affine.dead_block(f, y)]
        if len(outs) != 1:
            continue
        t = f.blocks[outs[0]][-1]
        o = t.get('cond')
        while o and o[0] == 'v' and f.defs[o[1]]['op'] in ('xor', 'zext', 'freeze', 'trunc', 'icmp'):
            o = f.defs[o[1]]['args'][0]
        if not o or o[0] != 'v' or f.defs[o[1]]['op'] != 'call' or f.defs[o[1]]['fn'][0] != 'F' or f.defs[o[1]]['fn'][1] != 'picotm_slist_is_empty':
            continue
        ok = False
        for b in body:
            for i in f.blocks[b]:
                if i['op'] == 'call' and i['fn'][0] == 'F':
                    c = prog.resolve(f, i['fn'][1])
                    if c is not None and UR.get(c.key) and all(dominates(f, b, x) for x, hh in f.backedges if hh == h):
                        ok = True
        if ok:
            for d in F.val(f, f.defs[o[1]]['args'][0]):
                if lastfield(d):
                    out.add(lastfield(d))
    return out


def tracked(prog, fld):
    el = prog.structs[fld[0]]['el'][fld[1]]
    return 'picotm_slist' in str(el)


def headfields(prog, F, f, i, finset):
    out = set()
    v = F.val(f, i['args'][0])
    for d in v:
        x = lastfield(d)
        if x:
            out.add(x)
        elif d[0] == 'p':
            for k, (g, p, call) in finset.items():
                for j in g.instrs():
                    if j['op'] == 'call' and j['fn'][0] == 'F' and prog.resolve(g, j['fn'][1]) is f and d[1] < len(j['args']):
                        for e in F.val(g, j['args'][d[1]]):
                            x = lastfield(e)
                            if x:
                                out.add(x)
    return out


def walker(prog, w, n):
    calls = [i for i in w.instrs() if i['op'] == 'call' and i['fn'] == ['a', n]]
    if not calls:
        # handed on
        for i in w.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F':
                c = prog.resolve(w, i['fn'][1])
                for k, o in enumerate(i['args']):
                    if o == ['a', n] and c is not None:
                        return walker(prog, c, k)
        return True, ''         # not a list walker: calls it in another way
    for i in calls:
        b = w.block_of(i['i'])
        l = affine.innermost_loop(w, b)
        if l is None:
            return False, 'no loop'
        h, body = l
        for x, hh in w.backedges:
            if hh == h and not dominates(w, b, x):
                return False, 'some iterations skip it'
        outs = []
        for x in body:
            for y in w.succ[x]:
                if y not in body and not affine.dead_block(w, y):
                    outs.append(x)
        if len(outs) != 1:
            return False, '%d ways out of the loop' % len(outs)
    return True, ''


# ------------------------------------------------------------------ region locks
class Regions:
    """ownership of locks that are taken without a state object"""

    def __init__(self, prog, F, rep):
        self.prog, self.F, self.rep = prog, F, rep
        self.tables = set()
        self.acq = self.reachset(RAWTRY)
        self.rel = self.reachset(('picotm_rwlock_unlock',))
        self.grow = self.reachset(('picotm_tabresize', 'realloc', 'malloc'))

    def reachset(self, names):
        """functions from which one of names is reached without passing through the state-object functions"""
        prog, F = self.prog, self.F
        g, r = {}, set()
        for f in prog.fns.values():
            if f.name in STATE or f.lib == 'core':
                continue
            for i in f.instrs():
                if i['op'] == 'call':
                    for n, c in targets(prog, F, f, i):
                        if n in names:
                            r.add(f.key)
                        if c is not None:
                            g.setdefault(c.key, set()).add(f.key)
        work = list(r)
        while work:
            k = work.pop()
            for p in g.get(k, ()):
                if p not in r and self.prog.fns[p].name not in STATE:
                    r.add(p)
                    work.append(p)
        return r

    def cleanup(self, seen, f, c):
        """the unlock is reached only through calls made after an acquiring call of the same function has failed"""
        if c['fn'][1] != 'picotm_rwlock_unlock':
            return False
        k = f.key
        failed = False
        while k is not None:
            g, p, i = seen[k]
            if p is None:
                return False
            pf = seen[p][0]
            failed |= self.guarded(pf, i)
            if failed and p in self.acq and self.acquired(pf, i):
                return True
            k = p
        return False

    def guarded(self, fn, i):
        """instruction i runs only where a failure was found"""
        b = fn.block_of(i['i'])
        for bi, blk in enumerate(fn.blocks):
            t = blk[-1]
            if t['op'] == 'br' and 'cond' in t and t['succ'][0] != t['succ'][1]:
                for k in (0, 1):
                    s = t['succ'][k]
                    if dominates(fn, s, b) and len(fn.pred[s]) == 1:
                        g = errguard(fn, t['cond'], k == 0)
                        if g:
                            return True
        return False

    def acquired(self, fn, i):
        """instruction i runs only after an acquiring call"""
        b = fn.block_of(i['i'])
        for bi, blk in enumerate(fn.blocks):
            for j in blk:
                if j['op'] == 'call' and j is not i and (dominates(fn, bi, b)) and any(c is not None and c.key in self.acq for _, c in targets(self.prog, self.F, fn, j)):
                    return True
        return False

    def run(self, roots):
        rep = self.rep
        # summaries over the acquiring functions: may it fail / succeed while something it acquired is neither recorded nor released?
        keys = sorted(self.acq)
        rep.floor('functions that lock file regions', len(keys), 8)
        changed = True
        summ = {k: frozenset() for k in keys}
        while changed:
            changed = False
            for k in keys:
                s = self.analyse(self.prog.fns[k], summ)
                if s != summ[k]:
                    summ[k] = s | summ[k]
                    changed = True
        rs = {f.key for f in roots}
        called = set()
        for f in self.prog.fns.values():
            for i in f.instrs():
                if i['op'] == 'call' and i['fn'][0] == 'F':
                    c = self.prog.resolve(f, i['fn'][1])
                    if c is not None:
                        called.add(c.key)
        n = 0
        for k in keys:
            f = self.prog.fns[k]
            callers = [c for c in keys if c != k and any(x is f for i in self.prog.fns[c].instrs() if i['op'] == 'call' for _, x in targets(self.prog, self.F, self.prog.fns[c], i))]
            if callers and k not in rs:
                continue
            n += 1
            for what in ('fail', 'ok'):
                self.rep.ob('regions', what not in summ[k], '%s:%s' % (f.name, what), f.loc(),
                            '%s can %s although a lock it has acquired is neither recorded for release nor released' % (f.name, 'fail' if what == 'fail' else 'succeed'),
                            self.why(k, what, summ))
        # also report at the innermost place
        for k in keys:
            self.rep.count('regions')

    def finish(self, finset):
        """all recorded regions are released at finish"""
        prog, rep = self.prog, self.rep
        rep.floor('tables of regions', len(self.tables), 1)
        for tab in sorted(self.tables):
            name = '/'.join(fname(prog, x) for x in tab)
            good, why, where = False, 'no loop at the end of the transaction releases them', ''
            for k, (f, p, call) in sorted(finset.items()):
                if f.lib == 'core':
                    continue
                ads = {}
                fr0 = Frame(prog, f, [sym(('arg', n, '')) for n in range(len(f.args))])
                for i in f.instrs():
                    for g in geps(i):
                        s = g[1][-1]
                        if s[0] == 'f' and (s[1], s[2]) in tab:
                            ads[(s[1], s[2])] = sym(('ld', key(fr0.gep(g))))
                if len(ads) < 2:
                    continue
                for fr, ins, stack in self.releases(fr0):
                    frames = stack + [(fr, ins)]
                    for x, ci in frames:
                        for w in skipped(prog, x, ci):
                            rep.bad('regions', name + ':skip', w, '%s can return without releasing the regions in %s' % (x.fn.name, name))
                    for x, ci in frames:
                        l = affine.innermost_loop(x.fn, x.fn.block_of(ci['i']))
                        if l is None:
                            continue
                        where = x.fn.loc(ci)
                        for ph in [i for i in x.fn.blocks[l[0]] if i['op'] == 'phi']:
                            s = sym(('phi', x.fn.key, ph['i'], x.ctx))
                            c, why1 = affine.loop_cover(x, ci, s)
                            if c is None or c.exits:
                                why = why1 or 'the loop can end early'
                                continue
                            for n1, first in ads.items():
                                for n2, count in ads.items():
                                    if n1 != n2:
                                        size = prog.structs.get('struct.region', {}).get('size')
                                        for st in {16, size}:
                                            r = affine.covers(c, first, count, const(st))
                                            good = good or r[0] is not None
                                        r = affine.covers(c, const(0), count, const(1))
                                        good = good or r[0] is not None
                                        why = r[1]
            rep.ob('regions', good, name, where, 'regions recorded in %s are not all released: %s' % (name, why))

    def releases(self, fr0):
        out = []

        def go(fr, stack):
            for i in fr.fn.instrs():
                if i['op'] != 'call' or i['fn'][0] != 'F':
                    continue
                c = self.prog.resolve(fr.fn, i['fn'][1])
                if c is None or c.key not in self.rel or c.lib == 'core':
                    continue
                if affine.innermost_loop(fr.fn, fr.fn.block_of(i['i'])) is not None:
                    out.append((fr, i, stack))
                elif len(stack) < 4:
                    go(fr.enter(c, i), stack + [(fr, i)])
        go(fr0, [])
        return out

    def why(self, k, what, summ):
        out = []
        for x, s in sorted(summ.items()):
            if what in s:
                out.append(self.prog.fns[x].name)
        return [', '.join(out)] if out else []

    def analyse(self, fn, summ, start=(0, 0, None), depth=0):
        """{'fail', 'ok'}: exits with something acquired and not accounted for.  state: subset of {'h'} x last call's pending failure"""
        prog, F = self.prog, self.F
        # abstract state: (held, err): held in {0,1}; err in {'n','e'} as known from branches; pend: held if the last call failed / succeeded
        res = set()
        loopacq = set()
        seen = {}
        work = [(0, start)]
        while work:
            b, st = work.pop()
            if st in seen.setdefault(b, set()):
                continue
            seen[b].add(st)
            held_ok, held_err, pend = st
            for i in fn.blocks[b]:
                if i['op'] == 'call':
                    keys = []
                    direct = False
                    relc = False
                    keeps = None
                    for n, c in targets(prog, F, fn, i):
                        if n in RAWTRY:
                            direct = True
                        elif n == 'picotm_rwlock_unlock' or c is not None and c.key in self.rel and c.key not in self.acq:
                            relc = True
                            if c is not None and c.key in self.grow and errparams(c) and held_ok and depth < 3:
                                # a helper that records what is held, or releases it
                                keeps = self.analyse(c, summ, (1, 1, None), depth + 1)
                        elif c is not None and c.key in self.acq:
                            keys.append(c.key)
                    cb = any(o[0] == 'F' and self.isacq(fn, o[1]) for o in i['args']) and i['fn'][0] == 'F' and self.loops(self.prog.resolve(fn, i['fn'][1]))
                    if direct:
                        held_err = max(held_ok, held_err)
                        held_ok = 1
                        pend = i['i']
                    elif keys:
                        e = cb or any('fail' in summ[k] for k in keys)
                        o = any('ok' in summ[k] for k in keys)
                        held_err = 1 if e or held_ok or held_err else 0
                        held_ok = 1 if o or held_ok else 0
                        pend = i['i']
                    elif keeps is not None:
                        held_ok, held_err, pend = int('ok' in keeps), int('fail' in keeps), i['i']
                    elif relc:
                        held_ok = held_err = 0
                    else:
                        for n, c in F.targets(fn, i):
                            if c is not None and c.key in self.grow and errparams(c) and held_ok:
                                self.tables.add(tuple(sorted({lastfield(d) for o in i['args'] for d in F.val(fn, o) if lastfield(d)})))
                                # recording: success transfers ownership
                                held_err = held_ok
                                held_ok = 0
            t = fn.blocks[b][-1]
            if t['op'] == 'ret':
                if held_err:
                    res.add('fail')
                if held_ok:
                    res.add('ok')
                continue
            for k, x in enumerate(fn.succ[b]):
                ho, he = held_ok, held_err
                if t['op'] == 'br' and 'cond' in t and t['succ'][0] != t['succ'][1]:
                    g = errcond(fn, t['cond'], t['succ'][0] == x)
                    if g == 'err':
                        ho = 0
                    elif g == 'ok':
                        he = 0
                work.append((x, (ho, he, pend)))
        return frozenset(res)

    def isacq(self, fn, name):
        c = self.prog.resolve(fn, name)
        return c is not None and c.key in self.acq

    def loops(self, f, depth=0):
        if f is None or depth > 6:
            return False
        return bool(f.headers) or any(self.loops(c, depth + 1) for _, _, c in self.prog.callees(f) if c is not None and c.lib == f.lib and c is not f)


def errcond(fn, cond, truth):
    """'err' or 'ok' if the branch outcome tells whether the error is set"""
    while cond[0] == 'v':
        i = fn.defs[cond[1]]
        if i['op'] == 'xor':
            truth = not truth
            cond = i['args'][0]
        elif i['op'] in ('zext', 'freeze', 'trunc'):
            cond = i['args'][0]
        elif i['op'] == 'icmp' and i['args'][1][0] == 'i' and i['args'][1][1] == 0 and i['pred'] in ('eq', 'ne'):
            if i['pred'] == 'eq':
                truth = not truth
            cond = i['args'][0]
        elif i['op'] == 'call' and i['fn'] == ['F', 'picotm_error_is_set']:
            return 'err' if truth else 'ok'
        else:
            return None
    return None


def errguard(fn, cond, truth):
    return errcond(fn, cond, truth) == 'err'
