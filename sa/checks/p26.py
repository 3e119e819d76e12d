"""P26: memory arguments are brought under transactional control before use."""
import re
from ..flow import flow, UNK
from ..ir import REPO

EXPLANATION = (
    "Must-availability dataflow over every exported NAME_tx function and everything it calls (composed interprocedurally by substitution): a fact 'parameter p is privatized, for this size or up to this character, with these flags' is generated "
    "by calls of the transactional-memory module's privatize entry points, joined by intersection, and available on branches where the parameter is NULL or a size is zero. (1) before: at every instruction or C library call that reads or writes memory "
    "through a pointer parameter, a privatization of that parameter is available. (2) flags: with STORE if the access writes (C library calls: if the parameter's pointee is not const), with LOAD or STORE if it reads. (3) extent: its size is at least "
    "the size that the operation may access: the parameter that bounds it, the product of element count and size, the size of the pointee, or up to the terminating character. Sizes the analysis cannot resolve are counted as undecided.")

LIBS = ('libc', 'libm', 'libpthread')
PRIV, PRIVC = '__picotm_tm_privatize', '__picotm_tm_privatize_c'
ACCESS = {PRIV, PRIVC, '__picotm_tm_load', '__picotm_tm_store', '__picotm_tm_loadstore'}
ADDRONLY = {'malloc_usable_size', '__picotm_libc_malloc_usable_size', 'free'}
RO = {'strlen', 'memchr', 'memrchr', 'rawmemchr', 'memcmp', 'strchr', 'strcmp', 'strrchr', 'strnlen', 'strspn', 'strcspn', 'strpbrk', 'strstr', 'strncmp', 'strcoll_l'}
LOAD, STORE = 1, 2

# size in bytes that NAME may access through pointer parameter i, where it is not the size of the pointee or a string:
# products of parameters, ('*', j): what parameter j points to, ('n', c): a constant
SIZE = {'memchr': {0: (2,)}, 'memrchr': {0: (2,)}, 'memcmp': {0: (2,), 1: (2,)}, 'memcpy': {0: (2,), 1: (2,)}, 'bind': {1: (2,)}, 'connect': {1: (2,)}, 'getcwd': {0: (1,)},
        'pread': {1: (2,)}, 'pwrite': {1: (2,)}, 'read': {1: (2,)}, 'write': {1: (2,)}, 'recv': {1: (2,)}, 'send': {1: (2,)}, 'qsort': {0: (1, 2)}, 'strftime': {0: (1,)},
        'strftime_l': {0: (1,)}, '__strerror_r_gnu': {1: (2,)}, '__strerror_r_posix': {1: (2,)}, 'vsnprintf': {0: (1,)}, 'snprintf': {0: (1,)}, 'accept': {1: ('*', 2)}, 'pipe': {0: ('n', 8)}}
TERM = {'rawmemchr': {0: 1}, 'strchr': {0: 1}}     # terminator given by a parameter
NULLOK_TERM = {'strchr'}
ANYSIZE = {'realloc', 'free'}
NULLDEP = {'accept': {2: 1}}       # not accessed if that other parameter is NULL
BASIC = {'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long double': 16, 'long': 8, 'char': 1, 'void*': 8, 'socklen_t': 4, 'short': 2, 'size_t': 8}


class Sum:
    __slots__ = ('unmet', 'out')


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.F = flow(prog)
        self.memo = {}
        self.edges = {}

    def base(self, d):
        """parameter whose memory d points into"""
        while d[0] == '&':
            d = d[1]
        return d[1] if d[0] == 'p' else None

    def whole(self, fn, o):
        """parameters that o is equal to whenever they are not NULL"""
        v = self.F.val(fn, o)
        if len(v) == 1:
            return {d[1] for d in v if d[0] == 'p'}
        while o[0] == 'v' and fn.defs[o[1]]['op'] in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze'):
            o = fn.defs[o[1]]['args'][0]
        if o[0] != 'v' or fn.defs[o[1]]['op'] != 'phi':
            return set()
        i = fn.defs[o[1]]
        b = fn.block_of(i['i'])
        out = set()
        for p in {d[1] for d in v if d[0] == 'p'}:
            if all(self.F.val(fn, x) == frozenset([('p', p)]) or ('null', p) in self.edges.get((fn.key, pb, b), ()) for pb, x in i['in']):
                out.add(p)
        return out

    def params(self, fn, o):
        return {k for k in (self.base(d) for d in self.F.val(fn, o)) if k is not None}

    def summary(self, fn):
        s = self.memo.get(fn.key)
        if s is not None:
            return s
        s = self.memo[fn.key] = Sum()
        s.unmet, s.out = set(), frozenset()
        if not any(a == 'ptr' or a == 'i64' for a in fn.args):
            return s
        top = None
        inn = {0: frozenset()}
        unmet = {}
        work = [0]
        outs = {}
        n = 0
        while work:
            b = work.pop(0)
            n += 1
            if n > 2000:
                break
            st = set(inn[b])
            for i in fn.blocks[b]:
                self.step(fn, i, st, unmet, b)
            t = fn.blocks[b][-1]
            if t['op'] == 'ret':
                outs[b] = frozenset(st)
            for x in fn.succ[b]:
                e = self.edge(fn, t, x, st)
                self.edges[(fn.key, b, x)] = e
                if x not in inn:
                    inn[x] = e
                    work.append(x)
                else:
                    j = join(inn[x], e)
                    if j != inn[x]:
                        inn[x] = j
                        if x not in work:
                            work.append(x)
        for v in unmet.values():
            s.unmet |= v
        o = None
        for v in outs.values():
            o = v if o is None else join(o, v)
        s.out = frozenset(f for f in (o or ()) if f[0] == 'priv')
        return s

    def edge(self, fn, t, x, st):
        if t['op'] != 'br' or 'cond' not in t or t['succ'][0] == t['succ'][1]:
            return frozenset(st)
        c, truth = t['cond'], t['succ'][0] == x
        if c[0] != 'v':
            return frozenset(st)
        i = fn.defs[c[1]]
        while i['op'] in ('zext', 'xor', 'freeze', 'trunc') and i['args'][0][0] == 'v':
            if i['op'] == 'xor':
                truth = not truth
            i = fn.defs[i['args'][0][1]]
        if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne') and (i['args'][1][0] in ('n', 'z') or i['args'][1] == ['i', 0] or tuple(i['args'][1][:2]) == ('i', 0)):
            if (i['pred'] == 'eq') == truth:
                r = set(st)
                for d in self.F.val(fn, i['args'][0]):
                    if d[0] == 'p':
                        r.add(('null', d[1]))
                        dep = NULLDEP.get(fn.name[:-3], {}) if fn.name.endswith('_tx') else {}
                        r.update(('null', k) for k in dep if dep[k] == d[1])
                    elif d[0] == 'r' and d[1] in ADDRONLY and d[2] == fn.key:
                        for q in self.params(fn, fn.defs[d[3]]['args'][0]):
                            r.add(('null', q))
                return frozenset(r)
        return frozenset(st)

    def step(self, fn, i, st, unmet, b):
        op = i['op']
        me = (fn.key, i['i'])
        if op == 'load':
            for p in self.params(fn, i['args'][0]):
                self.use(fn, i, p, LOAD, st, unmet)
        elif op == 'store':
            for p in self.params(fn, i['args'][1]):
                self.use(fn, i, p, STORE, st, unmet)
        elif op in ('atomicrmw', 'cmpxchg'):
            for p in self.params(fn, i['args'][0]):
                self.use(fn, i, p, STORE, st, unmet)
        elif op == 'call':
            tg = self.F.targets(fn, i)
            gen = None
            for nm, c in tg:
                g = set()
                if nm in ACCESS:
                    if nm in (PRIV, PRIVC):
                        a = [self.F.val(fn, o) for o in i['args'][:3]]
                        g |= {('weak', p) for p in self.params(fn, i['args'][0])}
                        for p in self.whole(fn, i['args'][0]):
                            g.add(('priv', p, 'c' if nm == PRIVC else 'n', a[1], a[2]))
                elif c is None:
                    if nm in ADDRONLY or nm.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.va_')):
                        continue
                    w = None
                    if nm.startswith(('llvm.memcpy', 'llvm.memmove')) or nm in ('memcpy', 'memmove'):
                        w = {0: STORE, 1: LOAD}
                    elif nm.startswith('llvm.memset'):
                        w = {0: STORE}
                    for k, o in enumerate(i['args']):
                        for p in self.params(fn, o):
                            if p < len(fn.args) and fn.args[p] == 'ptr' and (w is None or k in w):
                                self.use(fn, i, p, w[k] if w else LOAD if nm in RO or nm == 'strtok_r' and k == 1 else 'decl', st, unmet)
                else:
                    s = self.summary(c)
                    if s.unmet or s.out:
                        args = [self.F.val(fn, o) for o in i['args']]
                        for p, need, site in s.unmet:
                            if p < len(args):
                                for q in {self.base(d) for d in args[p]} - {None}:
                                    self.use(fn, i, q, need, st, unmet, site)
                        for f in s.out:
                            if f[1] < len(args):
                                g |= {('weak', p) for p in self.params(fn, i['args'][f[1]])}
                                for p in self.whole(fn, i['args'][f[1]]):
                                    g.add(('priv', p, f[2], self.F.substset(f[3], args), self.F.substset(f[4], args)))
                gen = g if gen is None else gen & g
            st |= gen or set()

    def use(self, fn, i, p, need, st, unmet, site=None):
        site = site or (fn.key, i['i'])
        u = unmet.setdefault((fn.key, i['i']), set())
        u.difference_update({x for x in u if x[0] == p and x[1] == need and x[2] == site})
        d = None
        if need == 'decl' and fn.name.endswith('_tx') and not fn.internal and p + 1 < len(fn.dty):
            d = LOAD if fn.dty[p + 1].startswith('const ') else STORE
        if not met(p, d or need, st):
            u.add((p, need, site))


def met(p, need, st):
    for f in st:
        if f[0] == 'null' and f[1] == p:
            return True
        if f[0] == 'priv' and f[1] == p and covers(f[4], need, None):
            return True
    return False


def covers(flags, need, decl):
    if need == 'decl':
        return False        # decided by the exported function, which knows the type
    v = [d[1] if d[0] == 'i' else 3 for d in flags]
    if not v:
        return True
    return all(x & STORE for x in v) if need == STORE else all(x & 3 for x in v)


def join(a, b):
    """facts available on both sides; 'null' counts as available for that parameter"""
    na = {f[1] for f in a if f[0] == 'null'}
    nb = {f[1] for f in b if f[0] == 'null'}
    r = set(a & b)
    for f in a - b:
        if f[0] == 'priv' and (f[1] in nb or any(g[0] == 'priv' and g[1] == f[1] and bounded(f, nb) for g in ()) or bounded(f, nb)):
            r.add(f)
    for f in b - a:
        if f[0] == 'priv' and (f[1] in na or bounded(f, na)):
            r.add(f)
    return frozenset(r)


def bounded(f, zero):
    """the size of privatization f is a parameter that is zero on the other branch"""
    return any(d[0] == 'p' and d[1] in zero for d in f[3])


def poly(F, d):
    """polynomial of a size descriptor, None if not resolved"""
    k = d[0]
    if k == 'i':
        return {(): d[1]} if d[1] else {}
    if k == 'p':
        return {(('p', d[1]),): 1}
    if k == 'ld' and d[1][0] == 'p' and not d[2]:
        return {(('*', d[1][1]),): 1}
    if k == 'op' and d[1] in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'lshr', 'and') and len(d[2]) == 2 and all(len(s) == 1 for s in d[2]):
        a, b = poly(F, d[2][0][0]), poly(F, d[2][1][0])
        if a is None or b is None:
            return None
        if d[1] in ('add', 'sub'):
            r = dict(a)
            for m, c in b.items():
                r[m] = r.get(m, 0) + (c if d[1] == 'add' else -c)
            return {m: c for m, c in r.items() if c}
        if d[1] == 'mul':
            r = {}
            for m, c in a.items():
                for n, e in b.items():
                    x = tuple(sorted(m + n))
                    r[x] = r.get(x, 0) + c * e
            return r
        if d[1] == 'shl' and list(b) in ([], [()]):
            return {m: c << b.get((), 0) for m, c in a.items()}
        if set(b) <= {()} and b.get((), 0) > (0 if d[1] != 'udiv' and d[1] != 'sdiv' else 1):
            return {m: c * 0.5 for m, c in a.items()}    # certainly smaller
        return None
    return None


def run(prog, rep):
    A = Analysis(prog)
    F = A.F
    nfn = npar = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.internal or f.lib not in LIBS:
            continue
        m = re.match(r'(.+)_tx$', f.name)
        if not m or not f.dty:
            continue
        b = m.group(1)
        ptrs = {}
        for k, a in enumerate(f.args):
            t = f.dty[k + 1] if k + 1 < len(f.dty) else ''
            if a == 'ptr' and t.endswith('*') and 'fn*' not in t and '__va_list' not in t:
                ptrs[k] = t
        if not ptrs:
            continue
        nfn += 1
        # rerun the top function with its declared types deciding 'decl' needs
        facts = uses(A, f)
        for k, t in sorted(ptrs.items()):
            npar += 1
            us = [u for u in facts if u[0] == k]
            if not us:
                rep.ob('before', True, '%s:%d:unused' % (f.name, k), f.loc(), '')
            const = t.startswith('const ')
            seen = set()
            for p, need, site, st, i in us:
                if need == 'decl':
                    need = LOAD if const else STORE
                sf = prog.fns[site[0]]
                si = sf.defs[site[1]]
                what = si['fn'][1] if si['op'] == 'call' and si['fn'][0] == 'F' else si['op']
                null = any(x[0] == 'null' and x[1] == p for x in st)
                priv = [x for x in st if x[0] == 'priv' and x[1] == p]
                if not null and not priv and ('weak', p) in st:
                    rep.count('undecided')      # the address comes from several places
                    continue
                key = '%s:%s:%s' % (f.name, f.argn[p] if p < len(f.argn) else p, what)
                rep.ob('before', null or bool(priv), key, sf.loc(si), '%s lets %s access the memory at its parameter %s before that has been privatized' % (f.name, what, f.argn[p]), [f.loc(i)])
                if null or not priv:
                    continue
                ok = [x for x in priv if covers(x[4], need, None)]
                rep.ob('flags', bool(ok), key, f.loc(i), '%s %s the memory at its parameter %s, which it has privatized %s' % (f.name, 'writes' if need == STORE else 'reads', f.argn[p], 'as discarded' if all(d == ('i', 0) for x in priv for d in x[4]) else 'for loading only'))
                if (p,) in seen or not ok:
                    continue
                seen.add((p,))
                extent(prog, F, rep, f, b, p, t, ok, i)
    rep.floor('exported functions with memory parameters', nfn, 50)
    rep.floor('memory parameters', npar, 70)


def uses(A, f):
    """every access through a parameter in or below exported function f with the facts available there"""
    out = []
    saved = A.use

    def use(fn, i, p, need, st, unmet, site=None):
        saved(fn, i, p, need, st, unmet, site)
        if fn is f:
            last[(p, need, site or (fn.key, i['i']), i['i'])] = (p, need, site or (fn.key, i['i']), frozenset(st), i)
    last = {}
    A.use = use
    A.memo.pop(f.key, None)
    A.summary(f)
    A.use = saved
    return list(last.values())


def extent(prog, F, rep, f, b, p, t, privs, i):
    key = '%s:%s' % (f.name, f.argn[p])
    if b in ANYSIZE:
        return
    el = t[:-1].strip()
    if el.startswith('const '):
        el = el[6:]
    want = SIZE.get(b, {}).get(p)
    string = want is None and el == 'char'
    bad = None
    good = False
    for x in privs:
        if string or b in TERM and p in TERM[b]:
            if x[2] == 'c':
                term = TERM.get(b, {}).get(p)
                ok = [d == ('i', 0) and (term is None or b in NULLOK_TERM) or term is not None and d == ('p', term) or
                      term is not None and d[0] == 'op' and any(e == ('p', term) for s in d[2] for e in s) for d in x[3]]
                if ok and all(ok):
                    good = True
                elif all(d[0] in ('i', 'p') for d in x[3]):
                    bad = 'up to %s instead of its terminating character' % ', '.join('parameter %d' % (d[1] + 1) if d[0] == 'p' else 'character %d' % d[1] for d in x[3])
            else:
                if all(d[0] in ('i',) for d in x[3]):
                    bad = 'for a constant number of bytes only, not up to the end of the string'
        else:
            if want is None:
                need = BASIC.get(el) or sizeof(prog, el)
                w = {(): need} if need else None
            elif want[0] == '*':
                w = {(('*', want[1]),): 1}
            elif want[0] == 'n':
                w = {(): want[1]}
            else:
                w = {tuple(sorted(('p', q) for q in want)): 1}
            if w is None:
                rep.count('undecided')
                return
            if x[2] == 'c':
                bad = 'only up to a certain character'
                continue
            ps = [poly(F, d) for d in x[3]]
            if any(q is None for q in ps):
                rep.count('undecided')
                good = True
                continue
            k = [all(q.get(m, 0) >= c for m, c in w.items()) and all(c >= 0 for c in q.values()) for q in ps]
            if k and all(k):
                good = True
            else:
                bad = 'for another number of bytes than it may access'
    if good or bad is None:
        bad = None
    rep.ob('extent', bad is None, key, f.loc(i), '%s privatizes the memory at its parameter %s %s' % (f.name, f.argn[p], bad))


def sizeof(prog, el):
    n = el.replace('struct ', 'struct.')
    s = prog.structs.get(n)
    return s['size'] if s else None
