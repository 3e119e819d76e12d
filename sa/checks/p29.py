"""P29: buffered file writes and reads reach exactly the intended bytes."""
from fractions import Fraction
from ..build import AnalysisBroken
from ..engine import Engine, I0, I1, UNDEF, INF, NEG, base_of, root_of, mentions, trace_list, ERR_SET, ERR_QUERY, ERR_CLEAR
from ..affine import Frame, add, sym, const, natural_loop, show
from .errflow import ErrPlugin, errparams

EXPLANATION = """
Writes of a revocable transaction are kept in a table of struct ioop and a byte buffer, applied at commit and overlaid on later reads.  Decided on every
path of every handler in the file types' operation tables:
 * transfer: in every loop around read, write, pread, pwrite, recv or send, buffer - file offset and buffer + remaining length stay what they were at the start,
   and the buffer advances by the call's result; what is returned is the distance advanced or a failure;
 * record: a buffered write copies exactly the caller's bytes to the end of the buffer, which was grown for them, records offset, length and place of
   these bytes in a new last table entry, and returns the entry's index and the length;
 * position: read, write and lseek leave the position at the value computed from what was transferred;
 * apply: the apply handler writes the bytes of exactly its entry at the entry's offset, notices a short write, and seeks behind them;
 * overlay: a read asks the system first and then lays every entry of the write set over the result in order, each exactly on the intersection of entry
   and request, and reports the larger of both ends."""

IO = {'read': (1, 2, None), 'write': (1, 2, None), 'recv': (1, 2, None), 'send': (1, 2, None), 'pread': (1, 2, 3), 'pwrite': (1, 2, 3)}
READS, WRITES = {'read', 'recv', 'pread'}, {'write', 'send', 'pwrite'}
COPY = ('llvm.memcpy', 'memcpy', 'llvm.memmove', 'memmove')
OPS = 'struct.file_tx_ops'
BUFS = ('struct.seekbuf_tx', 'struct.pipebuf_tx', 'struct.sockbuf_tx')
FIELDS = {'wrmode', 'wrbuf', 'wrbuflen', 'wrtab', 'wrtablen', 'rdtab', 'rdtablen'}
TOUCH = {('struct.regfile_tx', 'offset'), ('struct.regfile_tx', 'seektab'), ('struct.regfile_tx', 'seektablen')} | {(s, f) for s in BUFS for f in FIELDS} | \
    {('struct.ioop', f) for f in ('off', 'nbyte', 'bufoff')} | {('struct.seekop', f) for f in ('from', 'offset', 'whence')}
WRITE_BACK = 0
SEEK_SET, SEEK_CUR, SEEK_END = 0, 1, 2


# ------------------------------------------------------------------------------------------------- linear arithmetic
def lin(v):
    """linear form of an engine value: {atom: coefficient}, atom None is the constant"""
    k = v[0]
    if k == 'i':
        return {None: v[1]} if v[1] else {}
    if k == 'O' and v[1] in ('add', 'sub'):
        return lsum(lin(v[2]), lin(v[3]), 1 if v[1] == 'add' else -1)
    if k == 'O' and v[1] in ('mul', 'shl') and v[3][0] == 'i':
        c = v[3][1] if v[1] == 'mul' else 1 << v[3][1]
        return {a: c * x for a, x in lin(v[2]).items()}
    if k == 'P' and all(s[0] == 'x' for s in v[2]):
        r = lin(v[1])
        for s in v[2]:
            r = lsum(r, {a: s[2] * x for a, x in lin(s[1]).items()})
        return r
    return {v: 1}


def lsum(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        r[x] = r.get(x, 0) + k * c
        if not r[x]:
            del r[x]
    return r


def linsub(l, vals):
    r = {}
    for a, c in l.items():
        r = lsum(r, {x: c * y for x, y in lin(vals[a]).items()} if a in vals else {a: c})
    return r


def feasible(cs):
    """whether linear constraints (form >= 0) have a rational solution (Fourier-Motzkin elimination)"""
    cs = [dict(c) for c in cs]
    while True:
        out = []
        for c in cs:
            if all(a is None for a in c):
                if c.get(None, 0) < 0:
                    return False
            else:
                out.append(c)
        cs = out
        if not cs:
            return True
        atoms = {}
        for c in cs:
            for a, x in c.items():
                if a is not None:
                    p = atoms.setdefault(a, [0, 0])
                    p[x < 0] += 1
        a = min(atoms, key=lambda a: (atoms[a][0] * atoms[a][1], repr(a)))
        pos = [c for c in cs if c.get(a, 0) > 0]
        neg = [c for c in cs if c.get(a, 0) < 0]
        rest = [c for c in cs if not c.get(a)]
        for p in pos:
            for n in neg:
                rest.append(lsum({x: Fraction(v) / p[a] for x, v in p.items()}, {x: Fraction(v) / -n[a] for x, v in n.items()}))
        uniq = {}
        for c in rest:
            uniq[frozenset(c.items())] = c
        cs = list(uniq.values())
        if len(cs) > 1500:
            return True


def cmpform(pred, a, b):
    """constraints (conjunction of forms >= 0) of a comparison, None if it is not convex"""
    d = lsum(lin(b), lin(a), -1)          # b - a
    p = pred[1:] if pred[0] in 'su' and len(pred) == 3 else pred
    if p == 'le':
        return [d]
    if p == 'lt':
        return [lsum(d, {None: 1}, -1)]
    n = {x: -c for x, c in d.items()}
    if p == 'ge':
        return [n]
    if p == 'gt':
        return [lsum(n, {None: 1}, -1)]
    if p == 'eq':
        return [d, n]
    return None


def constraints(st, nonneg):
    out = []
    for k, r in st.facts.items():
        if k[0] == 'cmp':
            truth = True if r[0] == 1 or 0 in r[2] else False if r[1] == 0 else None
            if truth is None:
                continue
            p = k[1] if truth else NEG[k[1]]
            f = cmpform(p, k[2], k[3])
            if f:
                out += f
            elif p == 'ne':
                out.append(('ne', lsum(lin(k[2]), lin(k[3]), -1)))
        else:
            l = lin(k)
            lo, hi, ex = r
            if nonneg(k) and lo < 0:
                lo = 0
            while lo in ex:
                lo += 1
            if lo != -INF:
                out.append(lsum(l, {None: lo} if lo else {}, -1))
            if hi != INF:
                out.append(lsum({None: hi} if hi else {}, l, -1))
    atoms = set()
    for c in out:
        atoms |= {a for a in (c[1] if isinstance(c, tuple) else c) if a is not None}
    return out, atoms


def possible(cs):
    """feasibility of constraints and inequalities"""
    ne = [c[1] for c in cs if isinstance(c, tuple)]
    cs = [c for c in cs if not isinstance(c, tuple)]
    if not feasible(cs):
        return False
    todo = []
    for d in ne:
        lo, hi = lsum({x: -c for x, c in d.items()}, {None: 1}, -1), lsum(d, {None: 1}, -1)
        a, b = feasible(cs + [lo]), feasible(cs + [hi])
        if not a and not b:
            return False
        if not a or not b:
            cs.append(lo if a else hi)
        else:
            todo.append((lo, hi))
    for lo, hi in todo[:4]:
        if not feasible(cs + [lo]) and not feasible(cs + [hi]):
            return False
    return True


def entails(st, nonneg, form, extra=()):
    """whether form >= 0 follows from the facts of the path"""
    cs, atoms = constraints(st, nonneg)
    cs += list(extra)
    atoms |= {a for c in extra for a in c if a is not None} | {a for a in form if a is not None}
    cs += [{a: 1} for a in atoms if nonneg(a)]
    return not possible(cs + [lsum({None: -1}, form, -1)])


def equal(st, nonneg, a, b, extra=()):
    d = lsum(a, b, -1)
    return not d or entails(st, nonneg, d, extra) and entails(st, nonneg, {x: -c for x, c in d.items()}, extra)


# ------------------------------------------------------------------------------------------------- transfer loops
class Transfer:
    """function that moves [buf, buf + nbyte) through a system call in a loop: numbers of its parameters"""

    def __init__(self, fn, name, fd, buf, n, off, full):
        self.fn, self.name, self.fd, self.buf, self.n, self.off, self.full = fn, name, fd, buf, n, off, full


def loops_of(fn, b):
    out = []
    for h in sorted(fn.headers):
        body = natural_loop(fn, h)
        if b in body:
            out.append((h, body))
    return out


def subst(p, m):
    r = {}
    for mono, c in p.items():
        t = {(): c}
        for s in mono:
            f = m.get(s)
            if f is None:
                f = {(s,): 1}
            t2 = {}
            for m1, c1 in t.items():
                for m2, c2 in f.items():
                    k = tuple(sorted(m1 + m2, key=repr))
                    t2[k] = t2.get(k, 0) + c1 * c2
            t = t2
        for k, c1 in t.items():
            r[k] = r.get(k, 0) + c1
            if not r[k]:
                del r[k]
    return r


def norm(p):
    r = {}
    for m, c in p.items():
        k = tuple(sorted(m, key=repr))
        r[k] = r.get(k, 0) + c
        if not r[k]:
            del r[k]
    return r


def transfers(prog, rep):
    out = {}
    n = 0
    for fn in prog.fns.values():
        if fn.lib != 'libc':
            continue
        for call in fn.instrs():
            if call['op'] != 'call' or call['fn'][0] != 'F' or call['fn'][1] not in IO:
                continue
            name = call['fn'][1]
            if prog.resolve(fn, name) is not None:
                continue
            b = fn.block_of(call['i'])
            key = '%s:%s' % (name, fn.file.split("/")[-1])
            fr = Frame(prog, fn, [sym(('arg', k, fn.argn[k] if k < len(fn.argn) else '')) for k in range(len(fn.args))])
            bi, ni, oi = IO[name]
            P, N = fr.ev(call['args'][bi]), fr.ev(call['args'][ni])
            O = fr.ev(call['args'][oi]) if oi is not None else None
            R = fr.evi(call)
            S = add(P, N)
            D = add(P, O, -1) if O is not None else None
            ls = loops_of(fn, b)
            phis = []
            for h, body in ls:
                for i in fn.blocks[h]:
                    if i['op'] == 'phi':
                        phis.append((i, h, body))
            init, moving = {}, set()
            for i, h, body in phis:
                vs = [fr.ev(o) for pb, o in i['in'] if pb not in body]
                if len(vs) == 1 or all(v == vs[0] for v in vs):
                    init[('phi', fn.key, i['i'], fr.ctx)] = vs[0]
            for _ in range(len(phis) + 1):
                init = {k: subst(v, {a: b2 for a, b2 in init.items() if a != k}) for k, v in init.items()}
            S0 = norm(subst(S, init))
            P0 = norm(subst(P, init))
            N0 = norm(subst(N, init))
            O0 = norm(subst(O, init)) if O is not None else None
            steps = 0
            if not ls:
                continue
            n += 1
            for h, body in ls:
                hp = [i for i, h2, _ in phis if h2 == h]
                if not hp:
                    continue        # repetition of an interrupted call
                for pb in sorted({pb for i in hp for pb, _ in i['in'] if pb in body}):
                    m = {}
                    for i in hp:
                        for b2, o in i['in']:
                            if b2 == pb:
                                m[('phi', fn.key, i['i'], fr.ctx)] = fr.ev(o)
                    S1, P1 = norm(subst(S, m)), norm(subst(P, m))
                    D1 = norm(subst(D, m)) if D is not None else None
                    adv = add(P1, norm(P), -1)
                    steps += 1
                    rep.ob('transfer', S1 == norm(S), key + ':end', fn.loc(call), 'the end of the range that %s() works through moves by %s from round to round' % (name, show(add(S1, norm(S), -1))))
                    rep.ob('transfer', D is None or D1 == norm(D), key + ':off', fn.loc(call), 'buffer and file offset of %s() advance by different amounts' % name)
                    rep.ob('transfer', adv == norm(R) or adv == {}, key + ':step', fn.loc(call), 'the buffer of %s() advances by %s instead of by its result' % (name, show(adv)))
            if not steps:
                continue
            # what is returned
            full = name in WRITES
            rets = []
            for i in fn.instrs():
                if i['op'] == 'ret' and i.get('args'):
                    rets.append((fr, i['args'][0], fn.block_of(i['i'])))
            hdr = {h for h, _ in ls}
            for v, pb in flatten(fn, rets):
                if v[0] == 'i':
                    ok = v[1] < 0
                    rep.ob('transfer', ok, key + ':ret', fn.loc(call), 'the result does not say how much %s() transferred' % name)
                    continue
                x = norm(fr.ev(v))
                # P is the place of the last call (or of the next, when the loop ends), P + R the place behind it
                now, then = norm(add(P, P0, -1)), norm(add(add(P, P0, -1), R))
                # (or: of all bytes, what is left is no part of it)
                now2 = norm(add(N0, N, -1))
                ok = x == norm(R) or x in (now, then, now2, norm(add(add(N0, N, -1), R)))
                rep.ob('transfer', ok, key + ':ret', fn.loc(call), 'the result is %s: not what %s() transferred' % (show(x), name))
            rep.count('transfer')

            def par(p):
                return next(iter(p))[0][1] if len(p) == 1 and list(p.values()) == [1] and len(next(iter(p))) == 1 and next(iter(p))[0][0] == 'arg' else None
            t = Transfer(fn, name, par(norm(fr.ev(call['args'][0]))), par(P0), par(N0), par(O0) if O0 is not None else None, full)
            if t.fd is not None and t.buf is not None and t.n is not None and (O0 is None or t.off is not None) and S0 == norm(add(P0, N0)):
                out[fn.key] = t
    rep.floor('loops around system calls', n, 6)
    return out


def flatten(fn, rets):
    out, seen = [], set()
    work = [(v, b) for _, v, b in rets]
    while work:
        v, b = work.pop()
        if v[0] == 'v' and fn.defs[v[1]]['op'] == 'phi' and fn.block_of(v[1]) not in fn.headers:
            if v[1] in seen:
                continue
            seen.add(v[1])
            for pb, o in fn.defs[v[1]]['in']:
                work.append((o, pb))
        else:
            out.append((v, b))
    return out


# ------------------------------------------------------------------------------------------------- handlers
class Buf(ErrPlugin):
    """ps: ordered events of the path"""
    track_heap = True
    exact_heap = True
    keep_facts = True
    max_block_states = 400
    max_depth = 24
    max_gep = 24

    def __init__(self, prog, touch, trans):
        ErrPlugin.__init__(self, prog)
        self.touch, self.trans = touch, trans
        self.bad = []
        self.walks, self.rounds, self.steps, self.firsts = [], [], [], []

    def init(self, eng, root):
        self.root = root
        return ()

    def keep(self, ps):
        out = []
        for e in ps:
            for x in e[1:]:
                if isinstance(x, tuple):
                    out.append(x)
        return out

    def failedres(self, v, st):
        return None

    def on_recover(self, eng, name, e, st, site):
        return []

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def overwrite(self, eng, st, site, e, old, kind):
        pass

    def small(self, site, callee):
        return False

    def nonneg(self, a):
        """lengths"""
        if a[0] == 'Arg':
            return a[1].replace('const ', '') in ('size_t', 'unsigned long')
        if a[0] == 'L':
            f = self.fld(a[1])
            return f in (('struct.ioop', 'nbyte'), ('struct.ioop', 'bufoff')) or f is not None and f[1] in ('wrbuflen', 'wrtablen', 'rdtablen', 'seektablen')
        return False

    def fld(self, a):
        if a[0] == 'P' and a[2][-1][0] == 'f':
            return a[2][-1][1], self.prog.fieldname(a[2][-1][1], a[2][-1][2])
        return None

    def ev_(self, st, *e):
        ps = st.ps
        if e[0] == 'round':
            old = [k for k, x in enumerate(ps) if x[0] == 'round' and x[1] == e[1]]
            if old:
                # the round before the last is over and done with
                now = {(x[0], x[-1]) for x in ps[old[-1]:] if x[0] in ('io', 'cpy', 'ent')}
                ps = tuple(x for k, x in enumerate(ps) if k > old[-1] or not (k in old or x[0] in ('io', 'cpy', 'ent') and (x[0], x[-1]) in now))
        elif e[0] in ('io', 'cpy', 'seek', 'grow') and ps and ps[-1][0] == e[0] and ps[-1][-1] == e[-1]:
            ps = ps[:-1]            # an interrupted call is repeated
        return st.with_(ps=ps + (e,))

    def model(self, eng, name, callee, args, st, site):
        if name.startswith(COPY):
            return self.copy(eng, args, st, site)
        return ErrPlugin.model(self, eng, name, callee, args, st, site)

    def copy(self, eng, args, st, site):
        d, s, n = args[0], args[1], args[2]
        return [(d, self.ev_(st, 'cpy', d, s, n, site.where))]

    def load(self, eng, addr, st, site):
        f = self.fld(addr)
        if f is not None and f[0] == 'struct.ioop':
            E = ('P', addr[1], addr[2][:-1]) if len(addr[2]) > 1 else addr[1]
            if not any(e[0] == 'ent' for e in st.ps) or [e for e in st.ps if e[0] == 'ent'][-1][1] != E:
                prev = [(k, e) for k, e in enumerate(st.ps) if e[0] == 'ent']
                if prev:
                    vals = {e[1]: e[2] for e in st.ps[prev[-1][0]:] if e[0] == 'round' and e[2] != UNDEF}
                    self.walks.append((site.where, st, linsub(lin(E), vals), lsum(lin(prev[-1][1][1]), {None: self.prog.structs['struct.ioop']['size']})))
                else:
                    self.firsts.append((site.where, E, st))
                st = self.ev_(st, 'ent', E, site.where)
        return st

    def branch(self, eng, cond, truth, st, site):
        if any(e[0] == 'ent' for e in st.ps):
            cs, atoms = constraints(st, self.nonneg)
            if not possible(cs + [{a: 1} for a in atoms if self.nonneg(a)]):
                return None
        return st

    def choose(self, eng, cond, truth, st, site):
        return self.branch(eng, cond, truth, st, site)

    def rebind(self, s, st):
        v = self.rv
        ent = [(k, e) for k, e in enumerate(st.ps) if e[0] == 'ent']
        if ent:
            k, e = ent[-1]
            if not any(x[0] == 'round' for x in st.ps[k:]):
                self.rounds.append((e[-1], e[1], self.pre))
            cp = [x for x in st.ps[k:] if x[0] == 'cpy']
            if cp:
                self.top = (lsum(lin(cp[-1][1]), lin(cp[-1][3])), self.pre)
            new = cp or any(x[0] == 'cpyd' for x in st.ps[k:])
            ps = tuple(('cpyd', x[-1]) if x[0] == 'cpy' else x for x in st.ps)
            pure = ptr(v) or index(v, s)
            old = any(x[0] == 'round' and x[1] == s for x in ps)
            if not pure:
                if old:
                    self.steps.append((e[-1], s, v, self.pre))
                if new:
                    buf = lin(self.buf)
                    if entails(self.top[1], self.nonneg, lsum(lsum(lin(v), buf), self.top[0], -1)):
                        ps += (('cov', s),)
            # what is known of single entries is of no interest any more
            f = {a: r for a, r in st.facts.items() if not any(x[0] == 'L' and (self.fld(x[1]) or ('',))[0] == 'struct.ioop' for x in mentions(a))}
            st = st.with_(ps=dedup(ps), facts=f)
            if not pure:
                v = UNDEF
        return self.ev_(st, 'round', s, v)

    def ret2(self, R, st, variants):
        out = []
        st = st.kill(R)
        for rng, note in variants:
            f = dict(st.facts)
            f[R] = rng
            out.append((R, st.with_(facts=f, trace=(st.trace, note[0], note[1]))))
        return out

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        R = ('R', name, site.id, site.ctx)
        if callee is not None and callee.key in self.trans and callee.key != self.root.key:
            t = self.trans[callee.key]
            st = st.kill(R)
            ok = self.ev_(st, 'io', t.name, args[t.fd], args[t.buf], args[t.n], args[t.off] if t.off is not None else None, R, site.where)
            outs = self.ret2(R, ok, [((0, INF, frozenset()), (site.where, t.name))])
            # nothing was transferred, without an error
            outs += self.ret2(R, ok, [((-1, -1, frozenset()), (site.where, '%s would block' % t.name))])
            e = self.errarg(callee, args)
            if e is not None:
                outs += [(R, s.seterr(e, (frozenset({'errno'}), name, site.where, False))) for R, s in self.ret2(R, st, [((-INF, -1, frozenset()), (site.where, '%s fails' % t.name))])]
            return outs
        if callee is None and name in IO:
            b, n, o = IO[name]
            R = ('X', R, (0,))      # the results of two rounds differ
            st = self.ev_(st.kill(R), 'io', name, args[0], args[b], args[n], args[o] if o is not None else None, R, site.where)
            return self.ret2(R, st, [((0, INF, frozenset()), (site.where, name)), ((-1, -1, frozenset()), (site.where, name + ' fails'))])
        if callee is None and name == 'lseek':
            st = self.ev_(st.kill(R), 'seek', args[0], args[1], args[2], R, site.where)
            return self.ret2(R, st, [((0, INF, frozenset()), (site.where, name)), ((-1, -1, frozenset()), (site.where, name + ' fails'))])
        if name == 'picotm_tabresize':
            st = st.kill(R)
            ok = self.ev_(st, 'grow', args[0], args[1], args[2], args[3], R, site.where)
            f = dict(ok.facts)
            f[R] = (1, INF, frozenset())
            return [(R, ok.with_(facts=f)), (R, st.seterr(args[4], (frozenset({'errno'}), name, site.where, False)))]
        if callee is not None and callee.key in self.touch:
            return 'inline'
        if callee is not None and name not in ERR_SET and name not in ERR_QUERY and name not in ERR_CLEAR:
            # does not concern the buffered data
            st = st.kill(R)
            if self.simple(callee):
                return 'inline'
            out = [(R, st)]
            e = self.errarg(callee, args)
            if e is not None:
                out.append((R, st.seterr(e, (frozenset({'conflicting'}), name, site.where, False)).note(site.where, name + ' fails')))
            return out
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def simple(self, c, depth=3):
        """a helper of the module that only computes"""
        if c.lib != 'libc' or errparams(c) and (not c.internal or c.headers) or sum(map(len, c.blocks)) > 250 or depth < 0:
            return False
        for i in c.instrs():
            if i['op'] in ('atomicrmw', 'cmpxchg', 'fence') or 'ord' in i:
                return False
            if i['op'] == 'call':
                if i['fn'][0] != 'F':
                    return False
                if i['fn'][1].startswith('llvm.') or i['fn'][1] in ('__assert_fail', '__errno_location') or errparams(c) and (i['fn'][1] in ERR_SET or i['fn'][1] in ERR_QUERY):
                    continue
                d = self.prog.resolve(c, i['fn'][1])
                if d is None or not self.simple(d, depth - 1):
                    return False
        return True

    def errarg(self, fn, args):
        for k in errparams(fn):
            if k < len(args):
                return args[k]
        return None


def ptr(v):
    return v[0] == 'P'


def index(v, s):
    return v[0] == 'i' or set(lin(v)) <= {s, None} and lin(v).get(s, 0) == 1 and lin(v).get(None)


def dedup(ps):
    out = []
    for e in ps:
        if e[0] in ('cpyd', 'cov') and e in out:
            out.remove(e)
        out.append(e)
    return tuple(out)


def touching(prog):
    """functions of the module that deal with buffered data, directly or through what they call"""
    t = set()
    fns = [f for f in prog.fns.values() if f.lib == 'libc']
    for f in fns:
        for i in f.instrs():
            g = i.get('gep')
            if isinstance(g, list):
                for s in g[1]:
                    if s[0] == 'f' and (s[1], prog.fieldname(s[1], s[2])) in TOUCH:
                        t.add(f.key)
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in ('lseek',) + tuple(IO):
                t.add(f.key)
            for o in i.get('args', ()):
                if isinstance(o, list) and o and o[0] == 'gep':
                    for s in o[1][1]:
                        if s[0] == 'f' and (s[1], prog.fieldname(s[1], s[2])) in TOUCH:
                            t.add(f.key)
    ch = True
    while ch:
        ch = False
        for f in fns:
            if f.key not in t:
                for _, _, c in prog.callees(f):
                    if c is not None and c.key in t:
                        t.add(f.key)
                        ch = True
                        break
    return t


def tables(prog):
    """[(file type, {field: Fn})]"""
    out = []
    idx = {prog.fieldname(OPS, k): k for k in range(len(prog.structs[OPS]['el']))}
    for (a, n), g in sorted(prog.globals.items(), key=lambda x: str(x[0])):
        if g['init'] and g['init'][0] == 'S' and g['init'][1] == OPS and isinstance(a, int):
            e = g['init'][2]
            m = {}
            for name, k in idx.items():
                if e[k][0] == 'F':
                    c = prog.local.get((g['unit'], e[k][1])) or next((x for x in prog.by_name.get(e[k][1], ()) if not x.internal), None)
                    if c is not None:
                        m[name] = c
            out.append((e[idx['type']][1] if e[idx['type']][0] == 'i' else 0, n, m))
    return out


def run_transfers(prog, rep, trans, touch):
    """result and completeness of the transfer functions, path by path"""
    for t in trans.values():
        pl = Buf(prog, touch, {})
        eng = Engine(prog, pl)
        args = eng.default_args(t.fn)
        exits = [x for x in eng.run_root(t.fn) if x.kind == 'ret']
        buf, n = lin(args[t.buf]), lin(args[t.n])
        e = pl.errarg(t.fn, args)
        key = '%s:%s' % (t.name, t.fn.file.split("/")[-1])
        seen = 0
        for x in exits:
            st, ps = x.st, x.st.ps
            io = [k for k, v in enumerate(ps) if v[0] == 'io']
            failed = bool(e is not None and st.err.get(e))
            r = lin(x.ret)
            if not io:
                rep.ob('result', failed or equal(st, pl.nonneg, r, {}) or entails(st, pl.nonneg, lsum({None: -1}, r, -1)), key + ':none', t.fn.loc(), '%s() is not called, but something else than 0 is returned' % t.name, trace_list(st))
                continue
            seen += 1
            ev = ps[io[-1]]
            P, R, where = lin(ev[3]), ev[6], ev[7]
            moved = {s: v for k, s, v in (q for q in ps[io[-1]:] if q[0] == 'round')}
            lo, hi, ex = st.facts.get(R, (-INF, INF, frozenset()))
            then = lsum(lsum(P, buf, -1), {R: 1})
            now = lsum(P, buf, -1)
            # the bytes that are left are counted down together with the buffer (see 'transfer')
            left = lsum(n, lin(ev[4]), -1)
            lthen = lsum(left, {R: 1})
            # a loop variable that was advanced since the call is worth what it was advanced to
            rr = r
            for s, v in moved.items():
                if s in rr and s not in mentions(ev[3]):
                    pass
            cand = [rr]
            for s, v in moved.items():
                if s in rr:
                    c = rr[s]
                    q = dict(rr)
                    del q[s]
                    cand.append(lsum(q, {a: c * y for a, y in lin(v).items()}))
            neg = entails(st, pl.nonneg, lsum({None: -1}, r, -1))
            if failed or neg:
                # nothing may have been transferred before
                ok = (equal(st, pl.nonneg, P, buf) or equal(st, pl.nonneg, lin(ev[4]), n)) and hi < 0
                rep.ob('result', ok, key + ':fail', where, '%s() reports a failure although bytes were transferred' % t.name, trace_list(st))
                continue
            ok = any(equal(st, pl.nonneg, c, q) for c in cand for q in (then, lthen)) or hi <= 0 and any(equal(st, pl.nonneg, c, q) for c in cand for q in (now, left))
            rep.ob('result', ok, key + ':count', where, 'the bytes of the last %s() are not counted in the result' % t.name, trace_list(st))
            if t.full and hi > 0:
                end = lsum(buf, n)
                done = any(entails(st, pl.nonneg, lsum(lin(s), end, -1)) for s in moved) or entails(st, pl.nonneg, lsum(lsum(P, {R: 1}), end, -1)) or \
                    any(entails(st, pl.nonneg, lsum(c, n, -1)) for c in cand) or any(entails(st, pl.nonneg, {a: -v for a, v in lin(s).items()}) for s in moved)
                rep.ob('result', done, key + ':rest', where, 'the rest is not written although %s() made progress' % t.name, trace_list(st))
        if not seen:
            raise AnalysisBroken('no path of %s reaches %s()' % (t.fn.key, t.name))
        rep.count('result')



class Case:
    """one handler of one operation table, analysed"""

    def __init__(self, prog, touch, trans, fn, role):
        self.prog, self.fn = prog, fn
        self.pl = Buf(prog, touch, trans)
        self.eng = Engine(prog, self.pl)
        self.pl.buf = None
        self.args = tuple(('Arg', a[1], k, 'a%d' % k) for k, a in enumerate(self.eng.default_args(fn)))
        self.pl.buf = self.args[2]
        self.exits = [x for x in self.eng.run_root(fn, args=self.args) if x.kind == 'ret' and not x.st.err.get(self.args[-1])]
        self.nn = self.pl.nonneg

    def mem(self, st, struct, field):
        """[(address, base, value)] of what the path stored to a field"""
        out = []
        for a, v in st.mem.items():
            if a[0] == 'P' and self.pl.fld(a) == (struct, field):
                out.append((a, ('P', a[1], a[2][:-1]) if len(a[2]) > 1 else a[1], v))
        return out

    def field(self, base, struct, field):
        s = ('f', struct, self.prog.fieldidx(struct, field))
        return ('P', base[1], base[2] + (s,)) if base[0] == 'P' else ('P', base, (s,))

    def now(self, st, base, struct, field):
        a = self.field(base, struct, field)
        return st.mem.get(a, ('L', a))

    def was(self, base, struct, field):
        return ('L', self.field(base, struct, field))

    def eq(self, st, a, b):
        return equal(st, self.nn, a if isinstance(a, dict) else lin(a), b if isinstance(b, dict) else lin(b))

    def entry(self, st, table, struct, index):
        return lsum(lin(table), {a: self.prog.structs[struct]['size'] * c for a, c in lin(index).items()})

    def buffer(self, st):
        """(address, struct) of the buffer the handler works with"""
        c = set()

        def see(v):
            for x in mentions(v):
                if x[0] == 'P':
                    f = self.pl.fld(x)
                    if f is not None and f[0] in BUFS:
                        c.add((x[1] if len(x[2]) == 1 else ('P', x[1], x[2][:-1]), f[0]))
        for a, v in st.mem.items():
            see(a)
            see(v)
        for e in st.ps:
            for x in e[1:]:
                if isinstance(x, tuple):
                    see(x)
        for k in st.facts:
            see(k)
        return next(iter(c)) if len(c) == 1 else None


def rng(st, v):
    return st.facts.get(v, (-INF, INF, frozenset())) if v[0] != 'i' else (v[1], v[1], frozenset())


def position(c, st):
    """(current file position of the descriptor, why it is not known)"""
    q = [v for k, v in st.facts.items() if k[0] == 'R' and k[1] == 'picotm_rwstate_get_status']
    key = [k for k in st.facts if k[0] == 'R' and k[1] == 'picotm_rwstate_get_status']
    first = any(v[1] == 0 for v in q)
    known = any(v[0] > 0 or 0 in v[2] for v in q)
    seek = [e for e in st.ps if e[0] == 'seek' and lin(e[2]) == {} and e[3] == ('i', SEEK_CUR)]
    return (lin(seek[0][4]) if seek else None), first, known


def run_exec(prog, rep, c, op, name, seekable):
    st0 = None
    args = c.args
    fd, buf, n = args[1], args[2], args[3]
    cookie = args[-2]
    key = '%s:%s' % (op, name)
    done = 0
    bufs = set()
    for x in c.exits:
        st, ps = x.st, x.st.ps
        where = c.fn.loc()
        tr = trace_list(st)

        def ob(rule, ok, what, msg):
            rep.ob(rule, ok, key + ':' + what, where, '%s: %s' % (op, msg), tr)
        ios = [e for e in ps if e[0] == 'io']
        if any(rng(st, e[6])[1] < 0 for e in ios):
            continue        # would block; nothing was transferred
        done += 1
        pos = None
        if seekable and op in ('read', 'write'):
            s, first, known = position(c, st)
            stored = c.mem(st, 'struct.regfile_tx', 'offset')
            ob('position', len(stored) == 1, 'set', 'the file position is not updated')
            if len(stored) != 1:
                continue
            pos = s if s is not None else lin(('L', stored[0][0]))
            ob('position', known if s is None else first, 'base', 'the position kept by the transaction is used although it was never read' if s is None else
               'the position kept by the transaction is replaced by the one of the system')
            if s is not None:
                e = next(e for e in ps if e[0] == 'seek')
                ob('position', e[1] == fd, 'fd', 'the position of another descriptor is used')
            ob('position', c.eq(st, stored[0][2], lsum(pos, lin(x.ret))), 'advance', 'the file position does not advance by the number of bytes reported')
        elif op in ('pread', 'pwrite'):
            pos = lin(args[4])
            ob('position', not c.mem(st, 'struct.regfile_tx', 'offset'), 'keep', 'the file position changes')
        if ios:
            e = ios[-1]
            kinds = READS if op in READS else WRITES
            ob('request', len(ios) == 1, 'once', 'the system is asked for the data more than once')
            ob('request', e[1] in kinds and e[2] == fd and c.eq(st, e[3], buf) and c.eq(st, e[4], n), 'args', 'descriptor, buffer or length of %s() are not the caller\'s' % e[1])
            ob('request', pos is None or e[5] is not None and c.eq(st, e[5], pos), 'off', '%s() works at another offset than requested' % e[1])
        if op in READS:
            ob('request', bool(ios), 'io', 'the system is not asked for the data')
            if not ios:
                continue
            R = lin(ios[-1][6])
            irr = rng(st, args[-3])
            if irr[0] > 0 or irr[1] < 0 or 0 in irr[2]:
                ob('request', c.eq(st, x.ret, R), 'ret', 'the number of bytes that %s() returned is not reported' % ios[-1][1])
                continue
            # what the transaction wrote itself
            b = c.buffer(st)
            ents = [k for k, e in enumerate(ps) if e[0] == 'ent']
            ob('overlay', b is not None, 'buf', 'the write set is not looked at')
            if b is None:
                continue
            bufs.add(b)
            B, S = b
            tab, ln = lin(c.was(B, S, 'wrtab')), lin(c.was(B, S, 'wrtablen'))
            size = prog.structs['struct.ioop']['size']
            end = lsum(tab, {a: size * v for a, v in ln.items()})
            rounds = {e[1]: e[2] for e in ps if e[0] == 'round'}
            if not ents:
                ob('overlay', entails(st, c.nn, {a: -v for a, v in ln.items()}) or entails(st, c.nn, {a: -size * v for a, v in ln.items()}), 'none', 'the write set is not applied to the data that were read')
            else:
                ob('overlay', ps.index(ios[-1]) < ents[0], 'order', 'data of the system are laid over the transaction\'s own')
                ok = any(entails(st, c.nn, lsum(lin(s), ln, -1)) or entails(st, c.nn, lsum(lin(s), end, -1)) for s in rounds) or \
                    entails(st, c.nn, lsum(lsum(lin(ps[ents[-1]][1]), {None: size}), end, -1))
                ob('overlay', ok, 'last', 'entries at the end of the write set are not applied')
            eqs = []
            for s, v in rounds.items():
                if v != UNDEF and s not in mentions(v):
                    d = lsum(lin(s), lin(v), -1)
                    eqs += [d, {a: -y for a, y in d.items()}]
            r = lin(x.ret)
            ob('overlay', entails(st, c.nn, lsum(r, R, -1)), 'min', 'less is reported than was read')
            opts = [R] + [lin(s) for s in rounds]
            if any(e[0] == 'cpyd' for e in ps):
                ob('overlay', any(entails(st, c.nn, lsum(r, lin(e[1]), -1)) for e in ps if e[0] == 'cov'), 'most', 'less is reported than the write set supplies')
            for e in ps:
                if e[0] == 'cpy':
                    top = lsum(lsum(lin(e[1]), lin(buf), -1), lin(e[3]))
                    opts.append(top)
                    ob('overlay', entails(st, c.nn, lsum(r, top, -1), eqs), 'max', 'less is reported than the write set supplies')
            ob('overlay', any(equal(st, c.nn, r, o, eqs) for o in opts), 'exact', 'the result is neither what was read nor where the write set ends')
            if seekable and op == 'read':
                record(c, ob, st, B, S, 'rdtab', 'rdtablen', cookie, {'off': pos, 'nbyte': r})
            continue
        if ios:
            ob('request', c.eq(st, x.ret, ios[-1][6]), 'ret', 'the number of bytes that %s() wrote is not reported' % ios[-1][1])
            continue
        # buffered
        nz = rng(st, n)
        bz = rng(st, buf)
        ob('record', c.eq(st, x.ret, n), 'ret', 'another number of bytes is reported than was buffered')
        b = c.buffer(st)
        if b is None:
            ob('record', False, 'buf', 'the data are neither written nor buffered')
            continue
        bufs.add(b)
        B, S = b
        old = lin(c.was(B, S, 'wrbuflen'))
        need = {'nbyte': lin(n), 'bufoff': old}
        if pos is not None:
            need['off'] = pos
        record(c, ob, st, B, S, 'wrtab', 'wrtablen', cookie, need)
        if nz[1] == 0 or bz == (0, 0, frozenset()) or bz[1] == 0 and bz[0] == 0:
            ob('record', c.eq(st, c.now(st, B, S, 'wrbuflen'), old), 'empty', 'the buffer grows without data')
            continue
        cp = [e for e in ps if e[0] == 'cpy']
        gr = [e for e in ps if e[0] == 'grow' and c.eq(st, e[1], c.was(B, S, 'wrbuf'))]
        data = lin(c.now(st, B, S, 'wrbuf'))
        ob('record', len(cp) == 1 and c.eq(st, cp[0][1], lsum(data, old)) and c.eq(st, cp[0][2], buf) and c.eq(st, cp[0][3], n), 'copy', 'the caller\'s bytes are not copied to the end of the buffer')
        ob('record', len(gr) == 1 and c.eq(st, gr[0][2], old) and entails(st, c.nn, lsum(lin(gr[0][3]), lsum(old, lin(n)), -1)) and gr[0][4] == I1 and c.eq(st, gr[0][5], data), 'grow', 'the buffer is not grown for the new data')
        ob('record', c.eq(st, c.now(st, B, S, 'wrbuflen'), lsum(old, lin(n))), 'len', 'the length of the buffer does not grow by the length of the data')
    # the walk over the write set
    size = prog.structs['struct.ioop']['size']
    for where, st, got, want in c.pl.walks:
        rep.ob('walk', equal(st, c.nn, got, want), key + ':walk', where, '%s: the walk over the write set does not visit the entries one by one' % op, trace_list(st))
    base = lin(args[4]) if op == 'pread' else None
    for where, E, st in c.pl.firsts:
        e = [x for x in lin(E) if x is not None and x[0] == 'L']
        rep.ob('walk', lin(E) == ({e[0]: 1} if e else None) and c.pl.fld(e[0][1]) is not None and c.pl.fld(e[0][1])[1] == 'wrtab', key + ':first', where, '%s: the walk over the write set does not begin with the first entry' % op, trace_list(st))
    for where, E, st in c.pl.rounds:
        # offset of the request
        o = base
        if o is None:
            s, first, known = position(c, st)
            if s is None:
                io = [e for e in st.ps if e[0] == 'io']
                s = lin(io[-1][5]) if io and io[-1][5] is not None else None
            o = s
        if o is None:
            continue
        off, nb, bo = (lin(('L', c.field(E, 'struct.ioop', f))) for f in ('off', 'nbyte', 'bufoff'))
        k = max(k for k, e in enumerate(st.ps) if e[0] == 'ent')
        cp = [e for e in st.ps[k:] if e[0] == 'cpy']
        rep.count('overlay')
        m = lin(n)
        oend, eend = lsum(o, m), lsum(off, nb)
        if not cp:
            cs, atoms = constraints(st, c.nn)
            cs += [lsum(lsum(oend, off, -1), {None: 1}, -1), lsum(lsum(eend, o, -1), {None: 1}, -1), lsum(nb, {None: 1}, -1), lsum(m, {None: 1}, -1)]
            rep.ob('intersect', not possible(cs), key + ':skip', where, '%s: an entry of the write set that overlaps the request may be skipped' % op, trace_list(st))
            continue
        e = cp[-1]
        D = lsum(lin(e[1]), lin(buf), -1)
        b = c.buffer(st)
        src = lsum(lin(e[2]), lin(c.was(b[0], b[1], 'wrbuf')), -1) if b else {}
        lo = lsum(o, D)                         # file offset of the first byte that is supplied
        hi = lsum(lo, lin(e[3]))
        ok = equal(st, c.nn, lsum(lo, off, -1), lsum(src, bo, -1))
        rep.ob('intersect', ok, key + ':place', e[-1], '%s: bytes of the write set are supplied for another place of the file' % op, trace_list(st))
        ge = entails(st, c.nn, lsum(lo, o, -1)) and entails(st, c.nn, lsum(lo, off, -1)) and entails(st, c.nn, lsum(oend, hi, -1)) and entails(st, c.nn, lsum(eend, hi, -1))
        rep.ob('intersect', ge, key + ':beyond', e[-1], '%s: bytes outside of the request or of the entry are copied' % op, trace_list(st))
        le = (equal(st, c.nn, lo, o) or equal(st, c.nn, lo, off)) and (equal(st, c.nn, hi, oend) or equal(st, c.nn, hi, eend))
        rep.ob('intersect', le, key + ':short', e[-1], '%s: bytes that the entry supplies for the request are left out' % op, trace_list(st))
    for where, s, v, st in c.pl.steps:
        rep.ob('overlay', entails(st, c.nn, lsum(lin(v), lin(s), -1)), key + ':shrink', where, '%s: the end of the data supplied so far may be lost' % op, trace_list(st))
    return done, bufs


def record(c, ob, st, B, S, tab, ln, cookie, need):
    """one new last entry in a table, with the given content; its index goes to the cookie"""
    kind = 'write' if tab == 'wrtab' else 'read'
    idx = c.was(B, S, ln)
    T = c.now(st, B, S, tab)
    E = c.entry(st, T, 'struct.ioop', idx)
    ob('record', c.eq(st, c.now(st, B, S, ln), lsum(lin(idx), {None: 1})), kind + ':count', 'the %s set does not grow by one entry' % kind)
    for f, v in sorted(need.items()):
        got = [val for a, base, val in c.mem(st, 'struct.ioop', f) if lin(base) == E or c.eq(st, base, E)]
        ob('record', len(got) == 1 and c.eq(st, got[0], v), kind + ':' + f, 'field %s of the new entry of the %s set is wrong' % (f, kind))
    ck = st.mem.get(cookie)
    ob('record', ck is not None and c.eq(st, ck, idx), kind + ':cookie', 'the index of the new entry of the %s set is not handed out' % kind)


def run_lseek(prog, rep, c, name):
    fd, off, whence, cookie = c.args[1], c.args[2], c.args[3], c.args[-2]
    key = 'lseek:%s' % name
    n = 0
    for x in c.exits:
        st = x.st
        tr, where = trace_list(st), c.fn.loc()

        def ob(rule, ok, what, msg):
            rep.ob(rule, ok, key + ':' + what, where, 'lseek: ' + msg, tr)
        n += 1
        s, first, known = position(c, st)
        addr = ('P', c.args[0], (('f', 'struct.regfile_tx', prog.fieldidx('struct.regfile_tx', 'offset')),))
        stored = c.mem(st, 'struct.regfile_tx', 'offset')
        pos = s if s is not None else lin(('L', stored[0][0])) if stored else None
        if pos is None:
            cand = [a for a in lin(x.ret) if a is not None and a[0] == 'L' and c.pl.fld(a[1]) == ('struct.regfile_tx', 'offset')]
            pos = {cand[0]: 1} if cand else None
        w = rng(st, whence)
        r = lin(x.ret)
        if w[0] != w[1] or w[0] not in (SEEK_SET, SEEK_CUR, SEEK_END):
            ob('seek', False, 'whence', 'succeeds although the argument is invalid')
            continue
        if w[0] == SEEK_SET:
            ob('seek', c.eq(st, r, off), 'set', 'SEEK_SET leads elsewhere than to the offset')
        elif w[0] == SEEK_CUR:
            ob('seek', pos is not None and c.eq(st, r, lsum(pos, lin(off))), 'cur', 'SEEK_CUR leads elsewhere than to the position plus the offset')
        else:
            d = lsum(r, lin(off), -1)
            ob('seek', len(d) == 1 and list(d.values()) == [1] and (pos is None or d != pos), 'end', 'SEEK_END leads elsewhere than to the file size plus the offset')
        extra = [{a: 1} for a in r if a is not None and a != off]
        ob('seek', entails(st, c.nn, r, extra), 'negative', 'a negative position is accepted')
        seeks = [e for e in st.ps if e[0] == 'seek' and not (lin(e[2]) == {} and e[3] == ('i', SEEK_CUR))]
        cur = lin(stored[0][2]) if stored else pos
        ob('seek', cur is not None and c.eq(st, cur, r), 'keep', 'the position that is returned is not kept')
        if s is not None or known or first:
            ob('position', (s is None or first), 'base', 'the position kept by the transaction is replaced by the one of the system')
        if s is None and w[0] == SEEK_CUR:
            ob('position', known, 'known', 'the position kept by the transaction is used although it was never read')
        if w[0] == SEEK_CUR and c.eq(st, off, {}):
            continue        # only asks
        ck = rng(st, cookie)
        if ck[1] == 0 and ck[0] == 0:
            continue
        base = None
        for a, b, v in c.mem(st, 'struct.regfile_tx', 'seektablen'):
            base = b
        if base is None:
            ob('seek', False, 'record', 'the operation is not recorded')
            continue
        idx = c.was(base, 'struct.regfile_tx', 'seektablen')
        E = c.entry(st, c.now(st, base, 'struct.regfile_tx', 'seektab'), 'struct.seekop', idx)
        ob('seek', c.eq(st, c.now(st, base, 'struct.regfile_tx', 'seektablen'), lsum(lin(idx), {None: 1})), 'count', 'the table of operations does not grow by one')
        for f, v in (('offset', lin(off)), ('whence', lin(whence))):
            got = [val for a, b, val in c.mem(st, 'struct.seekop', f) if c.eq(st, b, E)]
            ob('seek', len(got) == 1 and c.eq(st, got[0], v), f, 'field %s of the recorded operation is wrong' % f)
        v = st.mem.get(cookie)
        ob('seek', v is not None and c.eq(st, v, idx), 'cookie', 'the index of the recorded operation is not handed out')
    return n


def run_apply(prog, rep, c, op, name, seekable):
    fd, cookie = c.args[1], c.args[2]
    key = '%s-apply:%s' % (op, name)
    n = 0
    bufs = set()
    for x in c.exits:
        st, ps = x.st, x.st.ps
        tr, where = trace_list(st), c.fn.loc()

        def ob(rule, ok, what, msg):
            rep.ob(rule, ok, key + ':' + what, where, 'applying %s: %s' % (op, msg), tr)
        modes = [r for k, r in st.facts.items() if k[0] == 'L' and c.pl.fld(k[1]) is not None and c.pl.fld(k[1])[1] == 'wrmode']
        if any(r[0] > 0 or r[1] < 0 or 0 in r[2] for r in modes):
            continue        # written directly
        n += 1
        seeks = [e for e in ps if e[0] == 'seek']
        if op == 'lseek':
            base = ('P', c.args[0], (('f', 'struct.regfile_tx', 0),))
            ok = False
            for e in seeks:
                a, w = e[2], e[3]
                if a[0] == 'L' and w[0] == 'L' and c.pl.fld(a[1]) == ('struct.seekop', 'offset') and c.pl.fld(w[1]) == ('struct.seekop', 'whence') and e[1] == fd:
                    E1, E2 = (('P', q[1][1], q[1][2][:-1]) if len(q[1][2]) > 1 else q[1][1] for q in (a, w))
                    tabs = [t for t in lin(E1) if t is not None and t[0] == 'L' and c.pl.fld(t[1]) == ('struct.regfile_tx', 'seektab')]
                    ok = lin(E1) == lin(E2) and len(tabs) == 1 and lin(E1) == c.entry(st, tabs[0], 'struct.seekop', cookie)
            ob('apply', ok and len(seeks) == 1, 'seek', 'the recorded operation is not performed')
            continue
        b = c.buffer(st)
        if b is None:
            ob('apply', False, 'buf', 'the recorded operation is not looked at')
            continue
        bufs.add(b)
        B, S = b
        tab = 'rdtab' if op == 'read' else 'wrtab'
        E = c.entry(st, c.was(B, S, tab), 'struct.ioop', cookie)

        def ent(v):
            """fields of the entry that the linear value is made of"""
            r = []
            for a, k in v.items():
                f = c.pl.fld(a[1]) if a is not None and a[0] == 'L' else None
                if f is not None and f[0] == 'struct.ioop' and k == 1:
                    base = ('P', a[1][1], a[1][2][:-1]) if len(a[1][2]) > 1 else a[1][1]
                    r.append(f[1] if lin(base) == E else 'other:' + f[1])
                else:
                    r.append(a)
            return r

        def isfield(v, *f):
            return sorted(map(repr, ent(v))) == sorted(map(repr, f)) and set(v.values()) <= {1}
        if op == 'read':
            ok = len(seeks) == 1 and seeks[0][1] == fd and seeks[0][3] == ('i', SEEK_SET) and isfield(lin(seeks[0][2]), 'off', 'nbyte')
            ob('apply', ok, 'seek', 'the position is not left behind the bytes that were read')
            continue
        ios = [e for e in ps if e[0] == 'io']
        sz = [k for k, r in st.facts.items() if r[0] == r[1] == 0 and k[0] == 'L' and isfield({k: 1}, 'nbyte')]
        if not ios and sz:
            continue
        ob('apply', len(ios) == 1 and ios[0][1] in WRITES, 'io', 'the buffered data are not written once')
        if len(ios) != 1:
            continue
        e = ios[0]
        where = e[-1]
        ob('apply', e[2] == fd, 'fd', 'the data are written to another descriptor')
        ob('apply', isfield(lsum(lin(e[3]), lin(c.was(B, S, 'wrbuf')), -1), 'bufoff'), 'data', 'other bytes are written than those of the operation')
        ob('apply', isfield(lin(e[4]), 'nbyte'), 'length', 'another number of bytes is written than was recorded')
        if seekable:
            ob('apply', e[5] is not None and isfield(lin(e[5]), 'off'), 'offset', 'the data are written at another offset than was recorded')
        ob('apply', entails(st, c.nn, lsum(lin(e[6]), lin(e[4]), -1)), 'short', 'it goes unnoticed if not all bytes were written')
        if seekable and op == 'write':
            ok = len(seeks) == 1 and ps.index(seeks[0]) > ps.index(e) and seeks[0][1] == fd and seeks[0][3] == ('i', SEEK_SET) and \
                (c.eq(st, seeks[0][2], lsum(lin(e[5]), lin(e[6]))) or c.eq(st, seeks[0][2], lsum(lin(e[5]), lin(e[4]))))
            ob('apply', ok, 'seek', 'the position is not left behind the bytes that were written')
    return n, bufs


def run(prog, rep):
    trans = transfers(prog, rep)
    touch = touching(prog)
    run_transfers(prog, rep, trans, touch)
    nx = na = nl = 0
    for typ, name, m in tables(prog):
        ls = m.get('lseek_exec')
        seekable = ls is not None and ls.key in touch
        if seekable:
            c = Case(prog, touch, trans, ls, 'exec')
            nl += run_lseek(prog, rep, c, name)
            c = Case(prog, touch, trans, m['lseek_apply'], 'apply')
            na += run_apply(prog, rep, c, 'lseek', name, True)[0]
        for op in ('pread', 'pwrite', 'read', 'recv', 'send', 'write'):
            fn = m.get(op + '_exec')
            if fn is None or fn.key not in touch:
                continue
            c = Case(prog, touch, trans, fn, 'exec')
            n, bx = run_exec(prog, rep, c, op, name, seekable)
            nx += n
            if op in WRITES or op == 'read' and seekable:
                ap = m.get(op + '_apply')
                rep.ob('apply', ap is not None and ap.key in touch, '%s-apply:%s:some' % (op, name), fn.loc(), '%s is buffered but never applied' % op)
                if ap is None or ap.key not in touch:
                    continue
                c = Case(prog, touch, trans, ap, 'apply')
                n, ba = run_apply(prog, rep, c, op, name, seekable)
                na += n
                rep.ob('apply', bx == ba and len(bx) == 1, '%s-apply:%s:same' % (op, name), ap.loc(), '%s is buffered in one place and applied from another' % op)
    rep.floor('paths through operations', nx, 20)
    rep.floor('paths through lseek', nl, 5)
    rep.floor('paths through apply handlers', na, 6)
