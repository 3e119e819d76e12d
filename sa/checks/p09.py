"""P09: effects that cannot be undone happen only at commit or irrevocably."""
from multiprocessing import Pool
from .. import ops
from ..ops import OpsPlugin, Rules
from ..build import AnalysisBroken
from ..engine import Engine, I0, I1, UNDEF, root_of, mentions, trace_list
from ..flow import flow
from .p13 import exported, targets
from .p25 import handlers
from .errflow import ErrPlugin

EXPLANATION = (
    "Path-sensitive effect analysis of every transactional interface function of the libc module, from the wrapper through the operation tables of all file types down to the system calls. Rules: gate - a system call or library call whose effect cannot be reversed "
    "(writing to and reading from streams, network traffic, closing, changes of the file system without a recorded compensation, freeing memory that existed before, ending the process) is reached only on paths on which the transaction is known to be irrevocable, on which the open file "
    "was switched to write-through mode, or after the transaction has been committed; a descriptor or file that was created on the same path may be removed again. wrmode - write-through mode is entered only by irrevocable transactions, and every structure that holds the mode starts each "
    "transaction in write-back mode. phase - the callbacks that begin, validate, undo, finish or release a transaction reach no irreversible effect; in particular undoing closes and unlinks only through the handlers of operations that create descriptors or files. "
    "nofree - the operations of the allocator release or resize a caller's block only at commit.")

STREAM = set('write pwrite writev send sendto sendmsg read readv recv recvfrom recvmsg accept bind connect listen shutdown'.split())
FS = set('chmod link mkdir mkfifo mknod rename rmdir symlink mkdtemp ftruncate truncate lchown chown fchown utimes utime remove'.split())
KILL = set('_exit _Exit exit quick_exit abort kill raise'.split())
HANDLE = set('close unlink dup2'.split())
IRREV = STREAM | FS | KILL | HANDLE
CREATES = set('open openat mkstemp mkostemp socket pipe pipe2 accept dup fcntl'.split())
MEM = set('free realloc freelocale'.split())
COMMIT = '__picotm_commit'
E = {}


def enum(n):
    if not E:
        E.update(ops.enums())
    if n not in E:
        raise AnalysisBroken('enumerator %s not found' % n)
    return E[n]


O_CREAT, O_EXCL, O_TRUNC = 0o100, 0o200, 0o1000


def strip(v):
    while v[0] == 'O' and v[1] in ('zext', 'trunc', 'sext') or v[0] == 'O' and v[1] == 'and' and v[3] in (('i', 1), ('i', 255)):
        v = v[2]
    return v


def flagval(v, flag, x, m=O_CREAT | O_EXCL):
    """value of the expression v when the flags (term `flag`) restricted to m are x; None if it cannot be told"""
    if v[0] == 'i':
        return v[1]
    if v == flag:
        return ('flags', x, None)
    if v[0] == 'cmp':
        a, b = flagval(v[2], flag, x, m), flagval(v[3], flag, x, m)
        if isinstance(a, int) and isinstance(b, int):
            return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'ult': a < b, 'sgt': a > b, 'slt': a < b, 'uge': a >= b, 'ule': a <= b, 'sge': a >= b, 'sle': a <= b}.get(v[1], 0))
        return None
    if v[0] == 'O':
        if v[1] in ('zext', 'sext', 'trunc'):
            return flagval(v[2], flag, x, m)
        if len(v) < 4:
            return None
        a, b = flagval(v[2], flag, x, m), flagval(v[3], flag, x, m)
        for p, q in ((a, b), (b, a)):
            if isinstance(p, tuple) and isinstance(q, int) and v[1] == 'and' and q & ~m == 0:
                return p[1] & q
            if isinstance(p, tuple) and isinstance(q, int) and v[1] in ('lshr', 'ashr'):
                return None
        if isinstance(a, int) and isinstance(b, int):
            f = {'and': a & b, 'or': a | b, 'xor': a ^ b, 'lshr': a >> b if 0 <= b < 64 else None, 'ashr': a >> b if 0 <= b < 64 else None, 'add': a + b, 'sub': a - b}
            return f.get(v[1])
    return None


def possible(st, flag, x, m=O_CREAT | O_EXCL):
    """can the flags have the value x on this path"""
    for k, r in st.facts.items():
        if flag in mentions(k):
            v = flagval(k, flag, x, m)
            if isinstance(v, int) and not (r[0] <= v <= r[1] and v not in r[2]):
                return False
    return True


def wrfield(prog, addr):
    return addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and prog.fieldname(addr[2][-1][1], addr[2][-1][2]) == 'wrmode'


class Gate(Rules):
    effects = IRREV | CREATES | MEM
    flagbits = O_CREAT | O_EXCL | O_TRUNC

    def __init__(self, prog, trusted):
        self.prog, self.trusted = prog, trusted
        self.out, self.n, self.wt, self.loose = [], {}, set(), set()

    def ob(self, rule, ok, key, site, msg, st=None):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.out.append((rule, bool(ok), key, site.where, msg, None if ok or st is None else trace_list(st)))

    def through(self, st):
        """a structure on this path is known to be in write-through mode"""
        for x in st.ps:
            if x[0] == 'K' and x[1][0] == 'L' and x[1][1][2][-1][1] in self.trusted:
                f = st.facts.get(x[1])
                if f and f[0] == f[1] == enum('PICOTM_LIBC_WRITE_THROUGH'):
                    return True
            if x[0] == 'WT':
                return True
        return False

    def special(self, pl, eng, name, callee, args, st, site, R):
        if name == 'picotm_irrevocable':
            if pl.hasflag(st, 'IRR') == I0:
                return []
            return [(UNDEF, st.with_(ps=st.ps | {('IRR', I1)}))]
        if name == COMMIT:
            return [(UNDEF, st.with_(ps=st.ps | {('DONE',)}))]
        return None

    def effect(self, pl, eng, name, args, R, st, site):
        p = set()
        key = '%s:%s' % (site.fn.name, name)
        may = pl.hasflag(st, 'IRR') == I1 or ('DONE',) in st.ps or self.through(st)
        if name in CREATES and not (name == 'fcntl' and args[1][0] == 'i' and args[1][1] not in (0, 1030)):
            p.add(('N', R))
            for a in args:
                if root_of(a)[0] in ('R', 'A', 'Arg'):
                    p.add(('N', a))
        if name == 'fcntl' and args[0][0] == 'Arg':
            c = args[1]
            v = st.facts.get(c)
            c = c[1] if c[0] == 'i' else v[0] if v and v[0] == v[1] else None
            # inquiries, duplication; the flags of the descriptor have a compensation
            if c not in (0, 1, 3, 5, 9, 1030, 2) and not (c is None and args[1][0] == 'L' and args[1][1][0] == 'P' and root_of(args[1])[0] == 'G'):
                self.ob('gate', may, key, site, 'fcntl (command %s) takes effect in a transaction that can still be rolled back' % ('other' if c is None else c), st)
        if name == 'open':
            fl = args[1]
            trunc = fl[1] & O_TRUNC if fl[0] == 'i' else possible(st, fl, O_TRUNC, O_TRUNC)
            self.ob('gate', may or not trunc, key + ':trunc', site, 'open() with O_TRUNC takes effect in a transaction that can still be rolled back', st)
        if name in IRREV:
            if name == 'unlink' or name == 'close':
                a = args[0]
                own = any(x[0] == 'N' and (x[1] == a or x[1] in mentions(a) or name == 'close' and root_of(a) == root_of(x[1]) and a[0] == 'L') for x in st.ps)
                may = may or own
            self.ob('gate', may, key, site, '%s takes effect in a transaction that can still be rolled back' % name, st)
        if name in MEM:
            own = args[0]
            r = root_of(own)
            foreign = own[0] in ('Arg', 'L') and r[0] == 'Arg' and r in pl.rootargs
            if foreign:
                self.ob('nofree', may, key, site, '%s of a block of the caller in a transaction that can still be rolled back' % name, st)
        return st.with_(ps=st.ps | p) if p else st

    def store(self, pl, eng, addr, val, st, site):
        if wrfield(self.prog, addr):
            s = addr[2][-1][1]
            self.wt.add(site.fn.key)
            if val == ('i', enum('PICOTM_LIBC_WRITE_BACK')) or val[0] == 'i' and val[1] == enum('PICOTM_LIBC_WRITE_BACK'):
                return st
            irr = pl.hasflag(st, 'IRR') == I1
            self.n['wrmode'] = self.n.get('wrmode', 0) + 1
            if not irr:
                self.loose.add(s)
            else:
                st = st.with_(ps=st.ps | {('WT',)})
        return st


class Plug(OpsPlugin):
    def init(self, eng, root):
        self.rootargs = [('Arg', t, k, root.argn[k] if k < len(root.argn) else '') for k, t in enumerate(root.dty[1:])]
        return OpsPlugin.init(self, eng, root)


def wrstores(prog):
    """[(function, instruction, struct, constant or None)]"""
    out = []
    for f in prog.fns.values():
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] == 'store' and i['args'][1][0] == 'v':
                g = f.defs[i['args'][1][1]].get('gep')
                if isinstance(g, list) and g[1] and g[1][-1][0] == 'f' and prog.fieldname(g[1][-1][1], g[1][-1][2]) == 'wrmode':
                    v = i['args'][0]
                    out.append((f, i, g[1][-1][1], v[1] if v[0] == 'i' else None))
    return out


class Fresh(ErrPlugin):
    """does a function that ties a transaction's structure to shared state also reset its write mode"""
    max_depth = 3

    def init(self, eng, root):
        self.root = root
        self.res = []
        return frozenset()

    def keep(self, ps):
        return []

    def overwrite(self, *a):
        pass

    def store(self, eng, addr, val, st, site):
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and addr[2][-1][1] == self.struct:
            n = self.prog.fieldname(self.struct, addr[2][-1][2])
            if n == 'wrmode':
                return st.with_(ps=frozenset(x for x in st.ps if x[0] != 'mode') | {('mode', val[1] if val[0] == 'i' else None)})
            if n == self.field:
                return st.with_(ps=st.ps | {('tied', site.where) if val not in (('n',), I0) else ('freed', site.where)})
        return st

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx and not any(st.err.values()):
            self.res.append((st.ps, st, site))
        return st


def reach(prog, F, fn, stop):
    """functions reachable in one phase: {key: caller chain}"""
    seen = {fn.key: None}
    work = [fn]
    while work:
        f = work.pop()
        for i in f.instrs():
            if i['op'] != 'call':
                continue
            cs = [c for _, c in targets(prog, F, f, i)] + [prog.resolve(f, o[1]) for o in i['args'] if o[0] == 'F']
            for c in cs:
                if c is not None and c.key not in seen and c.lib == fn.lib and c.key not in stop:
                    seen[c.key] = f
                    work.append(c)
    return seen


def chain(prog, seen, k):
    out = []
    while k is not None:
        f = prog.fns[k]
        out.append(f.name)
        k = seen[k].key if seen[k] is not None else None
    return out[::-1]


class At(ErrPlugin):
    max_depth = 3
    within = None

    def model(self, eng, name, callee, args, st, site):
        if self.within is not None and callee is not None and callee.internal and callee.unit == self.within.unit and len(site.ctx) < 3:
            return 'inline'
        return ErrPlugin.model(self, eng, name, callee, args, st, site)

    def init(self, eng, root):
        self.hits = []
        return frozenset()

    def keep(self, ps):
        return [x[1] for x in ps]

    def overwrite(self, *a):
        pass

    def load(self, eng, addr, st, site):
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f':
            return st.with_(ps=st.ps | {('f', ('L', addr))})
        return st

    def default(self, eng, name, callee, args, st, site):
        if callee is None and name == self.what:
            self.hits.append({(x[1][1][2][-1][1], x[1][1][2][-1][2], st.facts[x[1]][0]) for x in st.ps if x[1] in st.facts and st.facts[x[1]][0] == st.facts[x[1]][1]})
        return ErrPlugin.default(self, eng, name, callee, args, st, site)


def deferred(prog, f, i, applied, up=0):
    """the effect depends on a field whose value is set during commit only"""
    if deferred1(prog, f, i, applied, f):
        return True
    if not f.internal:
        return False
    # or it does wherever the helper is called
    cs = {g.key: g for g in prog.fns.values() if g.lib == f.lib for j in g.instrs() if j['op'] == 'call' and j['fn'][0] == 'F' and prog.resolve(g, j['fn'][1]) is f}
    return bool(cs) and not escapes(prog, f) and all(deferred1(prog, f, i, applied, g) for g in cs.values())


def escapes(prog, f):
    return any(o == ['F', f.name] for g in prog.fns.values() if g.unit == f.unit for j in g.instrs() for o in j.get('args', ())) or \
        any(g['unit'] == f.unit and str(['F', f.name]) in str(g['init']) for g in prog.globals.values() if g['init'])


def deferred1(prog, f, i, applied, root):
    pl = At(prog)
    pl.what = i['fn'][1]
    pl.within = f if root is not f else None
    Engine(prog, pl).run_root(root)
    if not pl.hits:
        return False
    for s, n, v in set.intersection(*pl.hits):
        ok = found = False
        for g in prog.fns.values():
            for j in g.instrs():
                if j['op'] == 'store' and j['args'][1][0] == 'v':
                    x = g.defs[j['args'][1][1]].get('gep')
                    if isinstance(x, list) and x[1] and list(x[1][-1][:3]) == ['f', s, n]:
                        w = j['args'][0]
                        if w[0] == 'i' and w[1] != v:
                            continue
                        found = True
                        if not (w[0] == 'i' and g.key in applied and onlyfrom(prog, g, applied)):
                            break
            else:
                continue
            break
        else:
            ok = found
        if ok:
            return True
    return False


def onlyfrom(prog, g, allowed):
    """every caller of g belongs to the commit"""
    up = {}
    F = flow(prog)
    for f in prog.fns.values():
        if f.lib != g.lib:
            continue
        for i in f.instrs():
            if i['op'] == 'call':
                for c in [c for _, c in targets(prog, F, f, i)] + [prog.resolve(f, o[1]) for o in i['args'] if o[0] == 'F']:
                    if c is not None:
                        up.setdefault(c.key, set()).add(f.key)
    seen, work = set(), [g.key]
    while work:
        for k in up.get(work.pop(), ()):
            if k in allowed or k in seen:
                continue
            if exported(prog.fns[k]):
                return False
            seen.add(k)
            work.append(k)
    return True


def phases(prog, rep):
    F = flow(prog)
    n = 0
    # handlers of operations that create something
    words = ('open', 'pipe', 'socket', 'mkstemp', 'accept', 'dup')
    tok = {v: k[10:].lower() for k, v in E.items() if k.startswith('FILDES_OP_')}
    creators = set()
    for (a, nm), g in prog.globals.items():
        i = g['init']
        if i and i[0] == 'A' and isinstance(a, int) and len(i[1]) == len(tok) and any(x[0] == 'F' for x in i[1]):
            if not all(x[0] in ('F', 'n', 'z') for x in i[1]):
                continue
            for k, x in enumerate(i[1]):
                if x[0] == 'F' and tok.get(k) in words:
                    c = prog.local.get((g['unit'], x[1]))
                    if c is not None:
                        creators.add(c.key)
    applied = set()
    for m, h in handlers(prog, 'apply_event') + handlers(prog, 'apply'):
        applied |= set(reach(prog, F, h, ()))
    if len(creators) < 6:
        raise AnalysisBroken('handlers of operations that create descriptors not found')
    for phase in ('begin', 'prepare_commit', 'undo', 'undo_event', 'finish', 'release'):
        hs = handlers(prog, phase)
        for m, h in hs:
            seen = reach(prog, F, h, creators if phase == 'undo_event' else ())
            n += 1
            for k in seen:
                f = prog.fns[k]
                for i in f.instrs():
                    if i['op'] == 'call' and i['fn'][0] == 'F' and prog.resolve(f, i['fn'][1]) is None and i['fn'][1] in IRREV and i['fn'][1] not in ('abort',):
                        if phase == 'finish' and i['fn'][1] == 'close' and deferred(prog, f, i, applied):
                            rep.ob('phase', True, '%s:%s:deferred' % (h.name, f.name), f.loc(i), 'the descriptor is closed because a commit has asked for it')
                            continue
                        rep.ob('phase', False, '%s:%s:%s' % (h.name, f.name, i['fn'][1]), f.loc(i), '%s (%s of module) performs %s: %s' % (h.name, phase, i['fn'][1], ' > '.join(chain(prog, seen, k))))
            rep.ob('phase', True, '%s:%s' % (phase, h.name), h.loc(), '%s reaches no irreversible effect' % h.name)
    # the compensations themselves only close and unlink
    for k in creators:
        h = prog.fns[k]
        seen = reach(prog, F, h, ())
        for kk in seen:
            f = prog.fns[kk]
            for i in f.instrs():
                if i['op'] == 'call' and i['fn'][0] == 'F' and prog.resolve(f, i['fn'][1]) is None and i['fn'][1] in IRREV:
                    rep.ob('phase', i['fn'][1] in ('close', 'unlink'), '%s:%s:%s' % (h.name, f.name, i['fn'][1]), f.loc(i), '%s undoes or applies the creation of a descriptor with %s' % (h.name, i['fn'][1]))
    rep.floor('phase callbacks', n, 20)


PROG = None


def setup(prog):
    libc = {f.key: f for f in prog.fns.values() if f.lib == 'libc'}
    EX = {k for k, f in libc.items() if exported(f)}
    seeds = {k for k in ops.seedfns(prog, IRREV - {'abort'}) if k in libc}
    seeds |= {k for k in ops.seedfns(prog, CREATES - {'fcntl'}) if k in libc}
    seeds |= {f.key for f in libc.values() if any(i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] == 'fcntl' for i in f.instrs())}
    seeds |= {f.key for f in libc.values() if any(i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in MEM and i['args'][0][0] == 'a' for i in f.instrs())}
    ws = wrstores(prog)
    rel = ops.relevant(prog, seeds, EX)
    roots = [k for k in sorted(EX) if k in rel and libc[k].name.endswith(('_tx', '_tm'))]
    roots += [k for k in sorted(EX) if libc[k].name == 'abort_tx' and k not in roots]
    trusted = set()
    for s in {s for _, _, s, _ in ws}:
        trusted.add(s)
    return roots, rel, EX, ws, trusted


def go(k):
    roots, rel, EX, ws, trusted = SET
    r = Gate(PROG, trusted)
    pl = Plug(PROG, r, rel, EX)
    e = Engine(PROG, pl, budget=400000)
    try:
        e.run_root(PROG.fns[k])
    except Exception as x:
        return PROG.fns[k].name, r.out, r.n, r.wt, "%s %s" % (type(x).__name__, x), r.loose
    return PROG.fns[k].name, r.out, r.n, r.wt, None, r.loose


def run(prog, rep):
    global PROG, SET
    PROG = prog
    enum('FILDES_OP_OPEN')
    SET = setup(prog)
    roots, rel, EX, ws, trusted = SET
    WB = enum('PICOTM_LIBC_WRITE_BACK')
    inexec = set()
    results = []
    rounds = 0
    while True:
        rounds += 1
        results = []
        with Pool(8) as p:
            results = list(p.imap_unordered(go, roots))
        inexec = set().union(*[r[3] for r in results])
        # a structure whose write-through mode is entered otherwise does not count as a gate
        bad = {s for f, i, s, v in ws if v != WB and f.key not in inexec} | set().union(*[r[5] for r in results])
        if not (bad & trusted):
            break
        trusted -= bad
    tot = {}
    for name, out, n, wt, broken, _ in results:
        if broken:
            raise AnalysisBroken('%s: %s' % (name, broken))
        for o in out:
            rep.ob(o[0], o[1], '%s:%s' % (name, o[2]), o[3], '%s: %s' % (name, o[4]), o[5])
        for k, v in n.items():
            tot[k] = tot.get(k, 0) + v
    fresh(prog, rep, ws, trusted, WB)
    phases(prog, rep)
    rep.floor('operations', len(roots), 25)
    for k, least in (('gate', 40), ('wrmode', 4)):
        rep.floor('instances of ' + k, tot.get(k, 0), least)


def fresh(prog, rep, ws, trusted, WB):
    n = 0
    for s in sorted(trusted):
        if not any(v != WB for _, _, t, v in ws if t == s):
            continue
        # the link to the shared object: a pointer to the structure of the same name without the suffix
        link = s[:-3]
        name = None
        for f in prog.fns.values():
            for i in f.instrs():
                if i['op'] == 'store' and i['args'][1][0] == 'v':
                    g = f.defs[i['args'][1][1]].get('gep')
                    if isinstance(g, list) and g[1] and g[1][-1][0] == 'f' and g[1][-1][1] == s and i['args'][0][0] == 'a' and f.dty[1 + i['args'][0][1]] == link.replace('.', ' ') + '*':
                        name = prog.fieldname(s, g[1][-1][2])
        if name is None:
            rep.ob('wrmode', False, '%s:link' % s, '', 'the structure %s is never tied to the shared state' % s)
            continue
        tied = freed = 0
        bt, bf = [], []
        for f in sorted(prog.fns.values(), key=lambda f: f.key):
            if f.lib != 'libc' or not any(i['op'] == 'store' and i['args'][1][0] == 'v' and isinstance(f.defs[i['args'][1][1]].get('gep'), list) and f.defs[i['args'][1][1]]['gep'][1]
                                          and f.defs[i['args'][1][1]]['gep'][1][-1][:2] == ['f', s] and prog.fieldname(s, f.defs[i['args'][1][1]]['gep'][1][-1][2]) == name for i in f.instrs()):
                continue
            pl = Fresh(prog)
            pl.struct, pl.field = s, name
            Engine(prog, pl).run_root(f)
            for ps, st, site in pl.res:
                m = ('mode', WB) in ps
                if any(x[0] == 'tied' for x in ps):
                    tied += 1
                    if not m:
                        bt.append((f, st, site))
                if any(x[0] == 'freed' for x in ps):
                    freed += 1
                    if not m:
                        bf.append((f, st, site))
        n += 1
        ok = tied and not bt or freed and not bf
        x = (bt or bf or [None])[0]
        rep.ob('wrmode', bool(ok), '%s:reset' % s, x[2].where if x else '', 'a transaction may start with %s in the write mode that an earlier transaction has left' % s[7:], trace_list(x[1]) if x else None)
    rep.floor('structures with a write mode', n, 3)
