"""P07: each recorded event is replayed by its own handler with its own data."""
import re
from ..flow import flow, UNK
from ..events import Cases, walk, dispatches, recorders, tailparts, deepset, deep, orig, table, strip
from .p25 import handlers, reach

EXPLANATION = (
    "Value-origin analysis over LLVM IR of both ends of every event. Recording: the function that registers an event with the transaction passes on the operation's number, the index of the very record it has filled, and its own module. "
    "Replay: the module's apply and undo callbacks select the handler by that number from different tables, hand it the data of the record at that index, each field in the same place for apply and undo. "
    "Ownership: for every operation that is recorded anywhere, both tables have a handler; it is not the handler of another operation or of the other phase; file operations recorded after slot X of the per-file-type table are applied and undone through slots X_apply and X_undo, "
    "on the same descriptor and with the cookie that X_exec has produced; every file type whose X_exec can record an event has both handlers in its table, and these use the cookie to index only a table to which X_exec has appended and whose index it has returned.")


def slot(fn, i):
    """(struct, field index, name) if i calls through a field of a structure of operations"""
    if i['op'] != 'call' or i['fn'][0] != 'v':
        return None
    d = fn.defs[i['fn'][1]]
    if d['op'] != 'load' or d['args'][0][0] != 'v':
        return None
    g = fn.defs[d['args'][0][1]].get('gep')
    if not isinstance(g, list) or not g[1] or g[1][-1][0] != 'f':
        return None
    s = g[1][-1]
    return s[1], s[2], fn.prog.fieldname(s[1], s[2])


def split(name):
    m = re.match(r'(\w+)_(exec|apply|undo)$', name)
    return m.groups() if m else (None, None)


def tokens(prog, fn, k):
    """operation number -> word, from the enumeration type of parameter k"""
    t = fn.dty[k + 1] if k + 1 < len(fn.dty) else ''
    return enumtokens(prog, t[5:]) if t.startswith('enum ') else {}


def enumtokens(prog, name):
    e = {n: v for n, v in prog.enums.get(name, {}).items() if not n.startswith('LAST_')}
    if len(e) < 2:
        return {}
    p = common([n.split('_') for n in e])
    return {v: '_'.join(n.split('_')[p:]).lower() for n, v in e.items()}


def common(ls):
    k = 0
    while all(len(l) > k + 1 for l in ls) and len({l[k] for l in ls}) == 1:
        k += 1
    return k


def word(name, toks):
    """the operation a function's name speaks of: longest token that occurs in it as whole words"""
    best = None
    for t in toks:
        if re.search(r'(^|_)%s(_|$)' % re.escape(t), name) and (best is None or len(t) > len(best)):
            best = t
    return best


def run(prog, rep):
    F = flow(prog)
    ap, un = dict(handlers(prog, 'apply_event')), dict(handlers(prog, 'undo_event'))
    recs = recorders(prog, F)
    mods = {}
    nmod = 0
    for m in sorted(set(ap) | set(un), key=str):
        cb = ap.get(m) or un.get(m)
        rep.ob('wiring', m in ap and m in un, '%s:%s' % (cb.file, m[1]), cb.loc(), 'the module can %s events, but not %s them' % (('apply', 'undo') if m in ap else ('undo', 'apply')))
        d = {}
        for ph, c in (('apply', ap.get(m)), ('undo', un.get(m))):
            if c is not None:
                d[ph] = dispatches(prog, F, c)
                rep.ob('wiring', bool(d[ph]), '%s:%s' % (c.file, ph), c.loc(), 'the module\'s %s callback does not select a handler from a table' % ph)
        if not d.get('apply') or not d.get('undo'):
            continue
        nmod += 1
        mods[m] = d
        a, u = d['apply'][0], d['undo'][0]
        rep.ob('wiring', a.table.name != u.table.name, cb.file + ':tables', a.fn.loc(a.ins), 'apply and undo use the same handlers')
        for ph in d:
            for x in d[ph]:
                other = 'undo' if ph == 'apply' else 'apply'
                bad = [f for f in x.table.el if f is not None and re.search(r'(^|_)%s(_|$)' % other, f.name) and not re.search(r'(^|_)%s(_|$)' % ph, f.name)]
                rep.ob('wiring', not bad, '%s:%s:phase' % (cb.file, ph), x.fn.loc(x.ins), 'the %s callback of the module runs %s' % (ph, bad[0].name if bad else ''))
        ma, mu = argmap(a), argmap(u)
        same = all(argmap(a, k) == argmap(u, k) for k, h in enumerate(u.table.el) if h is not None and k < len(a.table.el) and a.table.el[k] is not None)
        rep.ob('data', ma == mu and same, cb.file, u.fn.loc(u.ins), 'apply and undo hand the recorded data to their handlers in different places')
    ops = {}
    nrec = 0
    for r in recs:
        recorder(prog, F, rep, r, mods, ops)
        nrec += 1
    nop = 0
    for (m, op), sites in sorted(ops.items(), key=str):
        nop += 1
        operation(prog, F, rep, mods[m], m, op, sites)
    nslot = filetypes(prog, F, rep)
    rep.floor('modules with events', nmod, 5)
    rep.floor('recording functions', nrec, 5)
    rep.floor('recorded operations', nop, 30)
    rep.floor('slots of file types', nslot, 30)


def argmap(x, op=None):
    """for each argument of the handler call: which record field it is ('f', idx) / the record ('rec',) / other"""
    r = []
    for a in x.args if op is None else x.argsof(op):
        v = set()
        for d in deepset(x.fn.prog._flow, x.fn, a):
            e = [s for s in (d[2] if d[0] in ('ld', '&') else ()) if s[0] == 'f' and s[1].endswith('_event')]
            if e:
                v.add((d[0], e[-1][1], e[-1][2]))
            elif d[0] == '&' and d[2] and d[2][-1][0] == 'x' and d[1][0] == 'ld':
                v.add(('rec',))
            elif d[0] == 'p' and d[1] == 3:
                v.add(('error',))
            else:
                v.add(('other',))
        r.append(tuple(sorted(v)))
    return r


def recorder(prog, F, rep, r, mods, ops):
    fn, ap = r.fn, r.append
    name = fn.name
    # the index of the record that has been filled
    t = tailparts(F, fn, r.tail) or tailcount(F, fn, r.tail) or tailidx(fn, r.tail)
    rep.ob('record', t is not None, name + ':index', fn.loc(ap), '%s does not register the event under the index of its record' % name)
    if t is None:
        return
    ptr, base, size = t
    E = None
    pv, bv = deepset(F, fn, F.val(fn, ptr)), F.val(fn, base) if base is not None else frozenset()
    ok = True
    for d in pv:
        if d == UNK or d[0] == 'op':
            continue
        if base is not None and d[0] == '&' and d[2] and d[2][-1][0] == 'x':
            arr = d[1] if len(d[2]) == 1 else ('&', d[1], d[2][:-1])
            ok &= arr in bv or any(x[0] == 'ld' and arr[0] == 'ld' and x[2] == arr[2] for x in bv)
    rep.ob('record', ok, name + ':base', fn.loc(ap), '%s registers an index that is not relative to the table of records' % name)
    # which fields are stored, from which parameters
    fields = {}
    whole = None
    for i in fn.instrs():
        if i['op'] == 'store' and i['args'][1][0] == 'v':
            g = fn.defs[i['args'][1][1]].get('gep')
            if isinstance(g, list) and strip(fn, g[0]) == ptr and g[1] and g[1][-1][0] == 'f':
                E = g[1][-1][1]
                fields[g[1][-1][2]] = F.val(fn, i['args'][0])
            elif not isinstance(g, list) and strip(fn, i['args'][1]) == ptr:
                fields[0] = F.val(fn, i['args'][0])
        if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1].startswith(('memcpy', 'llvm.memcpy')) and strip(fn, i['args'][0]) == ptr:
            whole = F.val(fn, i['args'][1])
    # the module whose handlers read such records
    mine = None
    lib = fn.lib
    modfield = {(d[2][-1][1], d[2][-1][2]) for d in F.val(fn, ap['args'][0]) if d[0] == 'ld' and d[2] and d[2][-1][0] == 'f'}
    for m, d in mods.items():
        if registered(prog, F, m) & modfield:
            mine = m
    rep.ob('record', mine is not None, name + ':module', fn.loc(ap), '%s registers its events for a module other than its own' % name)
    if mine is None:
        return
    d = mods[mine]
    a = d['apply'][0]
    for s in a.args:
        for x in deepset(F, a.fn, s):
            for p in (x[2] if x[0] in ('ld', '&') else ()):
                if p[0] == 'f' and p[1].endswith('_event'):
                    rs = p[1]
                    rep.ob('record', E is None or E == rs or whole is not None, name + ':type', fn.loc(ap), '%s records %s, but the handlers of its module read %s' % (name, E, rs))
    # number and index arrive at the handler
    for ph in ('apply', 'undo'):
        for x in d[ph]:
            idx = {stripop(y) for y in x.index}
            viarec = all(y[0] == 'ld' and y[2] and y[2][-1][0] == 'f' and y[2][-1][1].endswith('_event') for y in idx)
            rep.ob('data', idx == {('p', 0)} and not viarec or viarec, '%s:%s:number' % (name, ph), x.fn.loc(x.ins), 'the %s handler is not selected by the number of the operation' % ph)
            rep.ob('data', tailindex(prog, F, x), '%s:%s:index' % (name, ph), x.fn.loc(x.ins), 'the %s handler is not given the record at the registered index' % ph)
    head = {stripop(x) for x in r.head}
    if len(head) == 1 and next(iter(head))[0] == 'p':
        k = next(iter(head))[1]
        toks = tokens(prog, fn, k)
        for f in sorted(prog.fns.values(), key=lambda f: f.key):
            for i, nm, c in prog.callees(f):
                if c is fn:
                    args = [F.val(f, o) for o in i['args']]
                    for x in args[k]:
                        if x[0] == 'i':
                            ops.setdefault((mine, x[1]), []).append((f, i, args, fields, fn, toks, whole))
    else:
        # number inside the record: find the functions that store it
        num = None
        for y in a.index:
            if y[0] == 'ld' and y[2]:
                num = y[2][-1]
        rep.ob('data', num is not None, name + ':number', fn.loc(ap), '%s does not register the number of the operation' % name)
        if num is None:
            return
        toks = {}
        for en in prog.enums:
            t = enumtokens(prog, en)
            if en.endswith('_op') and len(t) == len(a.table.el) and en.split('_')[0] in num[1]:
                toks = t
        for f in sorted(prog.fns.values(), key=lambda f: f.key):
            if f.lib != lib:
                continue
            for i in f.instrs():
                if i['op'] == 'store' and i['args'][1][0] == 'v' and i['args'][0][0] in ('i', 'n', 'z'):
                    g = f.defs[i['args'][1][1]].get('gep')
                    if isinstance(g, list) and g[1] and g[1][-1][:3] == list(num) or isinstance(g, list) and g[1] and tuple(g[1][-1][:3]) == num:
                        ops.setdefault((mine, i['args'][0][1] if i['args'][0][0] == 'i' else 0), []).append((f, i, None, None, None, toks, strip(f, g[0])))
    # a record of its own for each event
    pd = fn.defs.get(ptr[1]) if ptr[0] == 'v' else None
    c = prog.resolve(fn, pd['fn'][1]) if pd is not None and pd['op'] == 'call' and pd['fn'][0] == 'F' else None
    rows = [(fn, None)] + ([] if c is None else [(c, [F.val(fn, o) for o in pd['args']])])
    used, counts = set(), set()
    for c0, env0 in rows:
        for f2, e2 in [(c0, env0)] + helpers(F, c0, env0):
            for i in f2.instrs():
                if isinstance(i.get('gep'), list):
                    s = i['gep'][1]
                    if s and s[0][0] == 'x' and s[0][1][0] != 'i' and len(s[0]) > 3 and str(s[0][3]).endswith('_event'):
                        used |= {stripop(y) for y in orig(F, f2, s[0][1], e2)}
                if i['op'] == 'store':
                    for v in orig(F, f2, i['args'][0], e2):
                        for at in orig(F, f2, i['args'][1], e2):
                            if plus1(v, at):
                                counts.add(at)
    if pd is not None and pd['op'] == 'phi':
        # a run of records: starts at the number of records, which grows with each
        used = set()
        step = False
        for o in phiins(pd):
            d = fn.defs.get(o[1]) if o[0] == 'v' else None
            if d is None:
                continue
            g = d.get('gep')
            if isinstance(g, list) and strip(fn, g[0]) == ptr:
                step |= g[1][0][0] == 'x' and g[1][0][1][:2] == ['i', 1]
            elif isinstance(g, list) and g[1][0][0] == 'x':
                used |= {stripop(y) for y in F.val(fn, g[1][0][1])}
            elif d['op'] == 'call':
                used |= {y for a in d['args'] for y in F.val(fn, a) if y[0] == 'ld' and asaddr(y) in counts}
        used = used if step else set()
    rep.ob('record', any(u[0] == 'ld' and asaddr(u) in counts for u in used) and all(u[0] == 'op' or u[0] == 'ld' and asaddr(u) in counts for u in used), name + ':fresh', fn.loc(ap), '%s does not take a record of its own for each event' % name)


def tailcount(F, fn, o):
    """registered index computed as the number of records minus one: (record pointer, None, 0)"""
    o = strip(fn, o)
    d = fn.defs[o[1]] if o[0] == 'v' else None
    if d is None or d['op'] not in ('add', 'sub'):
        return None
    v = F.val(fn, o)
    for y in v:
        if y[0] != 'op' or len(y[2]) != 2:
            return None
        l, k = y[2]
        if not all(z[0] == 'ld' and z[2] and z[2][-1][0] == 'f' for z in l) or not all(z[0] == 'i' and z[1] % (1 << 64) == (1 if y[1] == 'sub' else (1 << 64) - 1) for z in k):
            return None
        cnt = {asaddr(z) for z in l}
    for i in fn.instrs():
        if i['op'] == 'call' and i['fn'][0] == 'F' and i.get('ty') == 'ptr':
            c = F.prog.resolve(fn, i['fn'][1])
            if c is None:
                continue
            env = [F.val(fn, a) for a in i['args']]
            for f2, e2 in [(c, env)] + helpers(F, c, env):
                for j in f2.instrs():
                    if j['op'] == 'store' and any(plus1(x, at) and at in cnt for x in orig(F, f2, j['args'][0], e2) for at in orig(F, f2, j['args'][1], e2)):
                        return ['v', i['i']], None, 0
    return None


def tailidx(fn, o):
    """registered index is the very index the record is addressed with"""
    o = strip(fn, o)
    for i in fn.instrs():
        g = i.get('gep')
        if isinstance(g, list) and g[1] and g[1][0][0] == 'x' and len(g[1][0]) > 3 and str(g[1][0][3]).endswith('_event') and strip(fn, g[1][0][1]) == o and o[0] == 'v':
            return ['v', i['i']], None, 0
    return None


def phiins(d):
    return [x[1] for x in d['in']]


def asaddr(u):
    return ('&', u[1], u[2]) if u[2] else u[1]


def plus1(v, at):
    if v[0] != 'op' or v[1] not in ('add', 'sub'):
        return False
    one = {'add': 1, 'sub': (1 << 64) - 1}[v[1]]
    ks = [set(x) for x in v[2]]
    ld = ('ld', at[1], at[2]) if at[0] == '&' else ('ld', at, ())
    return any(ks[j] == {ld} and all(y[0] == 'i' and y[1] % (1 << 64) in (one, -1 % (1 << 64) if v[1] == 'sub' else 1) for y in ks[1 - j]) for j in (0, 1)) if len(ks) == 2 else False


def stripop(x):
    while x[0] == 'op' and x[1] in ('trunc', 'zext', 'sext') and len(x[2]) == 1 and len(x[2][0]) == 1:
        x = x[2][0][0]
    return x


def tailindex(prog, F, x):
    """some element of the record table is addressed with the tail of the event on the way to the handler"""
    n = ok = 0
    for fn, env in [(x.fn, x.env)] + list(chainenvs(F, x)):
        for f2, e2 in [(fn, env)] + helpers(F, fn, env):
            for i in f2.instrs():
                if 'gep' in i and isinstance(i['gep'], list):
                    s = i['gep'][1]
                    if s and s[0][0] == 'x' and s[0][1][0] != 'i' and len(s[0]) > 3 and str(s[0][3]).endswith('_event'):
                        n += 1
                        o = {stripop(y) for y in orig(F, f2, s[0][1], e2)}
                        ok += o == {('p', 1)}
    return n > 0 and n == ok


def helpers(F, fn, env):
    out = []
    for i in fn.instrs():
        if i['op'] == 'call' and i['fn'][0] == 'F' and i.get('ty') == 'ptr':
            c = F.prog.resolve(fn, i['fn'][1])
            if c is not None and len(c.blocks) < 8:
                out.append((c, [orig(F, fn, o, env) for o in i['args']]))
    return out


def chainenvs(F, x):
    env = None
    for fn, i in x.chain:
        yield fn, env
        env = [orig(F, fn, o, env) for o in i['args']]


_reg = {}


def registered(prog, F, m):
    """fields in which the number of the module with operations table m is kept"""
    k = (id(prog), m)
    if k in _reg:
        return _reg[k]
    out = set()
    for fn in prog.fns.values():
        if fn.unit != m[0]:
            continue
        for i in fn.instrs():
            if i['op'] == 'call' and i['fn'] == ['F', 'picotm_register_module'] and ('g', m[1]) in F.val(fn, i['args'][0]):
                me = ('r', 'picotm_register_module', fn.key, i['i'])
                kept(prog, F, fn, me, out, 0)
    _reg[k] = out
    return out


def kept(prog, F, fn, v, out, depth):
    if depth > 5:
        return
    for i in fn.instrs():
        if i['op'] == 'store' and v in F.val(fn, i['args'][0]):
            for d in F.val(fn, i['args'][1]):
                if d[0] == '&' and d[2] and d[2][-1][0] == 'f':
                    out.add((d[2][-1][1], d[2][-1][2]))
        if i['op'] == 'call' and i['fn'][0] == 'F':
            c = prog.resolve(fn, i['fn'][1])
            if c is not None:
                for k, o in enumerate(i['args']):
                    if v in F.val(fn, o):
                        kept(prog, F, c, ('p', k), out, depth + 1)


def slotcalls(prog, F, fn, depth=0, env=None, active=()):
    """calls through operation slots reached from fn: (slot, args in fn's terms, where)"""
    out = []
    for i in fn.instrs():
        if i['op'] != 'call':
            continue
        s = slot(fn, i)
        if s and split(s[2])[0]:
            out.append((s, [orig(F, fn, o, env) for o in i['args']], fn.loc(i)))
        elif i['fn'][0] == 'F' and depth < 4:
            c = prog.resolve(fn, i['fn'][1])
            if c is not None and c.key not in active and c.lib == fn.lib and not c.name.endswith('_log_append'):
                out += slotcalls(prog, F, c, depth + 1, [orig(F, fn, o, env) for o in i['args']], active + (fn.key,))
    return out


def operation(prog, F, rep, d, m, op, sites):
    toks = sites[0][5]
    name = toks.get(op, str(op))
    hs = {}
    for ph in ('apply', 'undo'):
        x = d[ph][0]
        key = '%s:%s' % (name, ph)
        inb = 0 <= op < len(x.table.el)
        h = x.table.el[op] if inb else None
        optional = ph == 'apply' and (nullchecked(x) or isinstance(x.table, Cases) and x.table.idle)
        inb = inb or isinstance(x.table, Cases)
        rep.ob('handler', inb and (h is not None or optional), key, sites[0][0].loc(sites[0][1]), 'operation %s can be recorded, but has no %s handler' % (name, ph))
        if h is not None:
            hs[ph] = (h, x)
            w = word(h.name, toks.values())
            rep.ob('own', w is None or w == name, key, h.loc(), 'operation %s is %s by %s, which belongs to %s' % (name, 'applied' if ph == 'apply' else 'undone', h.name, w))
    for f, i, args, fields, rec, tk, extra in sites:
        w = word(f.name, toks.values())
        rep.ob('own', w is None or w == name or related(w, name), '%s:%s' % (f.name, name), f.loc(i), '%s records operation %s' % (f.name, name))
        if args is None:
            stored = storedoffs(prog, F, f, extra)
            for ph, (h, x) in hs.items():
                rd = readoffs(F, h)
                rep.ob('data', rd <= stored, '%s:%s:fields' % (name, ph), h.loc(), '%s reads recorded data that %s does not record (offsets %s)' % (h.name, f.name, sorted(rd - stored)))
            continue
        if not fields:
            continue
        ex = [s for s in slotcalls(prog, F, f) if split(s[0][2])[1] == 'exec']
        if not ex:
            continue
        snames = {split(s[0][2])[0] for s in ex}
        for ph, (h, x) in hs.items():
            hc = slotcalls(prog, F, h)
            want = {'%s_%s' % (n, ph) for n in snames}
            got = {s[0][2] for s in hc}
            rep.ob('own', got == want, '%s:%s:slot' % (name, ph), h.loc(), '%s calls %s, but the event is recorded after %s' % (h.name, ', '.join(sorted(got)) or 'no operation of the file', ', '.join(sorted(n + '_exec' for n in snames))))
            # roles of the data
            am = argmap(x, op)
            for s, a, loc in hc:
                if s[2] not in want:
                    continue
                e = next(y for y in ex if split(y[0][2])[0] == split(s[2])[0])
                # descriptor: same as at execution
                rec_of = {}
                for fi, src in fields.items():
                    for y in src:
                        if y[0] == 'p' and y[1] < len(args):
                            rec_of[fi] = args[y[1]]
                fd = hparam(a[1], am)
                made = {y for j in f.instrs() if j['op'] == 'call' and j['fn'] == ['F', 'close'] for y in F.val(f, j['args'][0])}
                rep.ob('data', fd is not None and rec_of.get(fd) == (frozenset(made) or e[1][1]), '%s:%s:descriptor' % (name, ph), loc, '%s is called for a descriptor other than the one the operation was executed on' % s[2])
                ck = hparam(a[2], am)
                ek = cookiearg(F, f, e)
                rep.ob('data', ck is not None and ek is not None and loadof(rec_of.get(ck), ek), '%s:%s:cookie' % (name, ph), loc, '%s is not called with the cookie of the executed operation' % s[2])
                # the receiver is looked up by the same descriptor
            for j, nm, c in prog.callees(h):
                if c is not None and j.get('ty') == 'ptr' and len(j['args']) == 2 and c.args[1] == 'i32':
                    v = F.val(h, j['args'][1])
                    fdp = {k for k in range(len(am)) if hc and hc[0][1][1] == frozenset([('p', k)])}
                    if all(y[0] == 'p' for y in v) and fdp:
                        rep.ob('data', {y[1] for y in v} == fdp, '%s:%s:lookup' % (name, ph), h.loc(j), '%s looks up the descriptor by other data' % h.name)


def related(w, name):
    return w in name.split('_') or name in w.split('_')


def hparam(v, am):
    """record field that handler-level origin v stands for"""
    if len(v) != 1:
        return None
    y = next(iter(v))
    if y[0] != 'p' or y[1] >= len(am):
        return None
    m = am[y[1]]
    return m[0][2] if len(m) == 1 and m[0][0] == 'ld' else None


def cookiearg(F, f, e):
    for a in reversed(e[1]):
        for y in a:
            if y[0] == 'alloca' and y[1] == f.key:
                t = f.defs[y[2]]
                if t.get('aty') == 'i32' or t.get('ty2') == 'i32' or True:
                    # the error object is a parameter, so the only local passed on is the cookie
                    return y
    return None


def loadof(v, ptr):
    return bool(v) and all(y == ('ld', ptr, ()) for y in v)


def nullchecked(x):
    fn = x.fn
    for b in fn.blocks:
        for i in b:
            if i['op'] == 'icmp' and i['args'][1][0] in ('n', 'z') and i['args'][0][0] == 'v' and fn.defs[i['args'][0][1]]['op'] == 'load':
                a = fn.defs[i['args'][0][1]]['args'][0]
                if a[0] == 'v' and isinstance(fn.defs[a[1]].get('gep'), list):
                    return True
    return False


def storedoffs(prog, F, f, ptr, depth=0):
    out = set()
    for i in f.instrs():
        if i['op'] == 'store':
            o = offs(f, i['args'][1], ptr)
            if o is not None:
                out.add(o)
    return out


def offs(f, o, ptr):
    """byte offset of address o from pointer operand ptr"""
    n = 0
    while True:
        if o == ptr:
            return n
        if o[0] != 'v':
            return None
        g = f.defs[o[1]].get('gep')
        if not isinstance(g, list):
            if f.defs[o[1]]['op'] in ('bitcast',):
                o = f.defs[o[1]]['args'][0]
                continue
            return None
        for s in g[1]:
            if s[0] == 'f':
                n += s[3]
            elif s[0] == 'x' and s[1][0] == 'i':
                n += s[1][1] * s[2]
            else:
                return None
        o = strip(f, g[0])


def readoffs(F, h):
    out = set()
    for i in h.instrs():
        if i['op'] == 'load':
            o = offs(h, i['args'][0], ['a', 0])
            if o is not None:
                out.add(o)
    return out


def filetypes(prog, F, rep):
    """rows of the per-file-type tables"""
    n = 0
    for (a, nm), g in sorted(prog.globals.items(), key=str):
        if not isinstance(a, int) or not g['init'] or g['init'][0] != 'S':
            continue
        st = g['init'][1]
        names = {split(prog.fieldname(st, k))[0] for k in range(len(g['init'][2]))} - {None}
        if len(names) < 8:
            continue
        cells = {}
        for k, c in enumerate(g['init'][2]):
            s, ph = split(prog.fieldname(st, k))
            if s:
                cells[(s, ph)] = None if c[0] != 'F' else (prog.local.get((a, c[1])) or prog.ext.get((g['lib'], c[1])) or next((x for x in prog.by_name.get(c[1], ()) if not x.internal), None))
        for s in sorted(names):
            n += 1
            ex = cells.get((s, 'exec'))
            key = '%s:%s' % (nm, s)
            rep.ob('handler', ex is not None, key + ':exec', '-', 'file type %s has no operation %s' % (nm, s))
            if ex is None:
                continue
            tabs, can = cookies(prog, F, ex)
            for ph in ('apply', 'undo'):
                h = cells.get((s, ph))
                rep.ob('handler', h is not None or not can, '%s:%s' % (key, ph), ex.loc(), '%s can request an event, but %s has no %s handler for it' % (ex.name, nm, ph))
                w = word(h.name, names) if h else None
                p2 = split(h.name)[1] if h else None
                rep.ob('own', h is None or (w in (None, s) or related(w, s)) and p2 in (None, ph), '%s:%s' % (key, ph), h.loc() if h else ex.loc(), '%s of %s is handled by %s' % (s + '_' + ph, nm, h.name if h else ''))
                if h is None or not can:
                    continue
                used, strange = indexed(prog, F, h)
                bad = [x for x in strange if x[0] in tabs]
                rep.ob('data', not bad, '%s:%s:element' % (key, ph), bad[0][1] if bad else h.loc(), '%s does not use the cookie to look into %s' % (h.name, bad and '%s.%s' % (bad[0][0][0], prog.fieldname(*bad[0][0]))))
                rep.ob('data', used <= tabs, '%s:%s:table' % (key, ph), h.loc(), '%s uses the cookie to look into %s, but %s has stored its data in %s' % (h.name, ', '.join(sorted('%s.%s' % (x[0], prog.fieldname(*x)) for x in used - tabs)), ex.name, ', '.join(sorted('%s.%s' % (x[0], prog.fieldname(*x)) for x in tabs)) or 'none'))
            w = word(ex.name, names)
            rep.ob('own', w in (None, s) or related(w, s), key + ':exec', ex.loc(), 'operation %s of %s is executed by %s' % (s, nm, ex.name))
    return n


_ck = {}


def cookies(prog, F, ex):
    """(tables whose fresh index the function stores to its cookie, whether it stores a cookie at all)"""
    k = next((k for k, t in enumerate(ex.dty[1:]) if t == 'int*' and k >= len(ex.dty) - 4), None)
    if k is None:
        k = len(ex.args) - 2
    tabs = set()
    can = False
    for i in ex.instrs():
        if i['op'] == 'store' and F.val(ex, i['args'][1]) == frozenset([('p', k)]):
            v = F.val(ex, i['args'][0])
            if all(d[0] == 'i' and (d[1] < 0 or d[1] >= 1 << 31) for d in v):
                continue
            can = True
            for d in map(stripop, v):
                if d[0] == 'r':
                    tabs |= appended(prog, F, ex, d)
    return tabs, can


def appended(prog, F, fn, d, depth=0):
    """fields of tables to which the call d appends: pointers to table fields that reach a growing function"""
    i = fn.defs.get(d[3]) if d[2] == fn.key else None
    if i is None or i['op'] != 'call' or i['fn'][0] != 'F':
        return set()
    c = prog.resolve(fn, i['fn'][1])
    if c is None:
        return set()
    out = set()
    args = [F.val(fn, o) for o in i['args']]
    for a in grown(prog, F, c):
        for x in F.subst(a, args):
            if x[0] == '&' and x[2] and x[2][-1][0] == 'f':
                out.add(x[2][-1][1:])
    return out


def grown(prog, F, c, depth=0):
    """addresses (in terms of c's parameters) of table pointers that c resizes"""
    key = (id(prog), c.key)
    if key in _ck:
        return _ck[key]
    _ck[key] = set()
    out = set()
    for i in c.instrs():
        if i['op'] == 'call' and i['fn'][0] == 'F':
            g = prog.resolve(c, i['fn'][1])
            if i['fn'][1] == 'picotm_tabresize':
                for d in F.val(c, i['args'][0]):
                    if d[0] == 'ld':
                        out.add(('&', d[1], d[2]) if d[2] else d[1])
            elif g is not None and depth < 4:
                args = [F.val(c, o) for o in i['args']]
                for a in grown(prog, F, g, depth + 1):
                    out |= set(F.subst(a, args))
    _ck[key] = out
    return out


def indexed(prog, F, h):
    """table fields that handler h indexes with its cookie"""
    k = len(h.args) - 2
    out, strange = set(), []
    for fn, i, args, chain, env in walk(F, h, 4):
        g = i.get('gep')
        if not isinstance(g, list) or not g[1]:
            continue
        ix = {stripop(y) for y in orig(F, fn, g[1][0][1], env)} if g[1][0][0] == 'x' else set()
        for d in orig(F, fn, g[0], env):
            if d[0] == 'ld' and d[2] and d[2][-1][0] == 'f':
                if ix == {('p', k)}:
                    out.add(d[2][-1][1:])
                elif g[1][0][0] == 'f' or len(g[1][0]) > 3 and str(g[1][0][3]).startswith('struct.'):
                    strange.append((d[2][-1][1:], fn.loc(i)))
    return out, strange
