"""P23: math functions detect their own floating-point errors, and only those."""
import re
from ..must import Must, isz
from ..saveonce import SaveOnce, State, fieldof, bind, bittest
from ..flow import flow
from .p25 import Errno, handlers, reach

EXPLANATION = (
    "Must-dataflow over LLVM IR, composed interprocedurally, over every exported function of the math library. (1) clear: on every path, when the namesake of the function is called, errno is zero and the floating-point exceptions that it may raise according to "
    "the C standard have been cleared, after errno and the exception flags had been saved for rollback. (2) test: on every path from there to the return, errno has been tested to be zero and every such exception tested to be clear, by a test that covers it, with "
    "nothing cleared in between; or recovery has been entered. (3) only: recovery is entered only where one of those tests succeeded. (4) namesake: the function called is the namesake, with the function's own arguments in order, and its result is returned. "
    "(5) rollback: exception flags and environment are saved once per transaction, under a flag, restored by the undo operation of the module on exactly the paths where the flag is set, the flags after the environment, and the flag is cleared by finish.")

INV, DIV, OVF, UNF = 1, 4, 8, 16
SPEC = {
    INV: 'acos acosh cos ilogb llrint llround lrint lround remainder remquo sqrt', INV | UNF: 'asin fmod sin', UNF: 'asinh atan atan2 erf erfc j0 j1 jn tanh', INV | DIV | UNF: 'atanh log1p',
    OVF: 'cosh', OVF | UNF: 'exp exp2 expm1 fdim hypot ldexp nextafter nexttoward scalbln scalbn sinh', INV | OVF | UNF: 'fma tan', DIV | OVF: 'lgamma', INV | DIV: 'log log10 log2',
    DIV: 'logb', INV | DIV | OVF | UNF: 'pow tgamma y0 y1 yn'}
MASK = {}
for _m, _l in SPEC.items():
    for _n in _l.split():
        for _s in ('', 'f', 'l'):
            MASK[_n + _s] = _m
ALIAS = {'remainderf': ('remainderl',)}       # computes in higher precision
FEALL = INV | DIV | OVF | UNF
REPORT = ('picotm_recover_from_errno', 'picotm_recover_from_error_code')


class Fe(State):
    def __init__(self, F, name, save, restore, masked):
        self.F, self.name, self.savefn, self.restorefn, self.masked = F, name, save, restore, masked
        self.field = None

    def sites(self, prog):
        out = []
        for fn in prog.fns.values():
            if fn.lib == 'libm':
                for i in fn.instrs():
                    if i['op'] == 'call' and i['fn'] == ['F', self.savefn]:
                        p = fieldof(self.F, fn, i['args'][0])
                        if p:
                            out.append((fn, i, p))
        return out

    def full(self, fn, i):
        if not self.masked:
            return True
        v = self.F.val(fn, i['args'][1])
        return bool(v) and all(d[0] == 'i' and d[1] & FEALL == FEALL for d in v)

    def call(self, R, M, fn, i, nm, c, st):
        if nm == self.savefn and c is None:
            if fieldof(self.F, fn, i['args'][0]) == self.field:
                M.need(('clear', self.name, self.field[0]))
                return ([('stored', self.name)] + [('saved', self.name)] * (('marked', self.name) in st) if self.full(fn, i) else [], ())
        if nm == self.restorefn and c is None:
            if fieldof(self.F, fn, i['args'][0]) == self.field and self.full(fn, i):
                M.need(('isset', self.name))
                return [('restored', self.name)], ()
        return None

    def ins(self, R, M, fn, i, st):
        return None


class Math(SaveOnce):
    def call(self, M, fn, i, nm, c, st):
        F = M.F
        if c is None and fn.lib == 'libm':
            if nm in MASK:
                M.need(('zeroed',))
                M.need(('cleared', nm))
                M.need(('saved', 'fe'))
                M.need(('saved', 'errno'))
                return [('fresh-fe',), ('fresh-errno',)], ('errnook', 'feok', 'reported', 'zeroed', 'cleared')
            if nm == 'feclearexcept':
                M.need(('saved', 'fe'))
                return [('cleared', F.val(fn, i['args'][0]))], ('fresh-fe', 'feok')
            if nm == 'fetestexcept':
                M.need(('fresh-fe',))
                return [], ()
        if nm in REPORT and fn.lib == 'libm':
            M.need(('raised', nm))
            return [('reported',)], ()
        return SaveOnce.call(self, M, fn, i, nm, c, st)

    def ins(self, M, fn, i, st):
        if i['op'] == 'load' and fn.lib == 'libm' and self.E.isload(fn, ['v', i['i']]):
            M.need(('fresh-errno',))
        if i['op'] == 'store' and fn.lib == 'libm' and self.E.iserrno(fn, i['args'][1]):
            M.need(('saved', 'errno'))
            return ([('zeroed',)] if isz(i['args'][0]) else []), ('fresh-errno', 'errnook', 'zeroed')
        return SaveOnce.ins(self, M, fn, i, st)

    def edge(self, M, fn, i, truth, st):
        r = SaveOnce.edge(self, M, fn, i, truth, st)
        if fn.lib != 'libm':
            return r
        if i['op'] == 'icmp' and i['pred'] in ('eq', 'ne') and isz(i['args'][1]):
            zero = (i['pred'] == 'eq') == truth
            o = i['args'][0]
        else:
            zero = not truth
            o = ['v', i['i']]
        if self.E.isload(fn, o):
            r.add(('errnook',) if zero else ('raised',))
        x = fetest(M.F, fn, o)
        if x:
            bits, mask = x
            if zero:
                for b in (INV, DIV, OVF, UNF):
                    if bits & b:
                        r.add(('feok', b, mask))
            else:
                r.add(('raised',))
        return r

    def met(self, M, req, st):
        if req[0] == 'cleared':
            return any(f[0] == 'cleared' and has(f[1], MASK[req[1]]) for f in st)
        if req[0] == 'raised':
            return ('raised',) in st
        return SaveOnce.met(self, M, req, st)

    def join(self, a, b):
        ra, rb = ('reported',) in a, ('reported',) in b
        r = SaveOnce.join(self, a, b)
        if ra != rb:
            r = set(r) | {f for f in (b if ra else a) if f[0] in ('feok', 'errnook')}
        return frozenset(r)


def fetest(F, fn, o, depth=0):
    """(tested bits, mask origins) if o is (part of) a fetestexcept result"""
    if o[0] != 'v' or depth > 5:
        return None
    i = fn.defs[o[1]]
    if i['op'] in ('zext', 'trunc', 'freeze', 'sext'):
        return fetest(F, fn, i['args'][0], depth + 1)
    if i['op'] == 'and':
        for a, b in (i['args'], i['args'][::-1]):
            if b[0] == 'i':
                x = fetest(F, fn, a, depth + 1)
                return x and (x[0] & b[1], x[1])
        return None
    if i['op'] == 'call' and i['fn'] == ['F', 'fetestexcept']:
        return (FEALL, F.val(fn, i['args'][0]))
    if i['op'] == 'call' and i['fn'][0] == 'F':
        c = F.prog.resolve(fn, i['fn'][1])
        rs = [j for j in c.instrs() if j['op'] == 'ret' and j.get('args')] if c else []
        if len(rs) == 1:
            x = fetest(F, c, rs[0]['args'][0], depth + 1)
            return x and (x[0], F.substset(x[1], [F.val(fn, a) for a in i['args']]))
    return None


def has(mask, bits):
    return bool(mask) and all(d[0] == 'i' and d[1] & bits == bits for d in mask)


def run(prog, rep):
    F = flow(prog)
    E = Errno(F)
    S = {'fe': Fe(F, 'fe', 'fegetexceptflag', 'fesetexceptflag', True), 'fenv': Fe(F, 'fenv', 'fegetenv', 'fesetenv', False)}
    undos, fins = handlers(prog, 'undo'), handlers(prog, 'finish')
    R = Math(dict(S))
    R.E = E
    stores = {}
    for n, s in S.items():
        sites = s.sites(prog)
        rep.ob('rollback', bool(sites), n + ':saved', '-', 'the floating-point state is not saved anywhere (%s)' % s.savefn)
        if not sites:
            continue
        s.field = sites[0][2]
        s.saves = sites
        stores[n] = [(f, i, p[0]) for f, i, p in sites if p == s.field]
    # errno: found the same way as for P25
    es = []
    for fn in prog.fns.values():
        if fn.lib == 'libc':
            for i in fn.instrs():
                if i['op'] == 'store' and E.isload(fn, i['args'][0]):
                    p = fieldof(F, fn, i['args'][1])
                    if p:
                        es.append((fn, i, p))
    E.field = sorted(p for _, _, p in es)[0] if es else ('?', 0)
    R.states['errno'] = E
    stores['errno'] = [(f, i, p[0]) for f, i, p in es]
    bind(prog, F, R, stores)
    M = Must(prog, R)
    nfn = nnames = 0
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        m = re.match(r'(.+)_t[xm]$', fn.name)
        if fn.internal or fn.lib != 'libm' or not m:
            continue
        base = m.group(1)
        nnames += 1
        namesake(prog, F, rep, fn, base)
        s = M.summary(fn)
        bad = {}
        for req, site in s.unmet:
            sf = prog.fns[site[0]]
            si = next(j for j in sf.instrs() if j['i'] == site[1])
            k = req[0]
            if k == 'clear' or k == 'isset':
                continue        # (5)
            rule, msg = {'zeroed': ('clear', '%s computes its result on a path on which errno has not been set to zero before, so that an earlier error is reported as its own'),
                         'cleared': ('clear', '%s computes its result on a path on which floating-point exceptions that it tests afterwards have not been cleared'),
                         'saved': ('clear', '%s changes errno or floating-point exceptions on a path on which they have not been saved for rollback'),
                         'fresh-fe': ('test', '%s tests floating-point exceptions that do not stem from its own computation'),
                         'fresh-errno': ('test', '%s tests errno, which does not stem from its own computation'),
                         'raised': ('only', '%s enters recovery on a path on which its computation has reported no error')}[k]
            bad[(rule, k)] = (sf.loc(si), msg % fn.name)
        for (rule, k), (loc, msg) in sorted(bad.items()):
            rep.ob(rule, False, '%s:%s' % (fn.name, k), loc, msg, [fn.loc()])
        if base not in MASK:
            continue
        nfn += 1
        if not any(r == 'clear' for r, k in bad):
            rep.ob('clear', True, fn.name, fn.loc(), '')
        if not any(r == 'only' for r, k in bad):
            rep.ob('only', True, fn.name, fn.loc(), '')
        rep.ob('test', ('errnook',) in s.out, fn.name + ':errno', fn.loc(), '%s returns without having tested whether its computation has set errno' % fn.name)
        for b, n in ((INV, 'FE_INVALID'), (DIV, 'FE_DIVBYZERO'), (OVF, 'FE_OVERFLOW'), (UNF, 'FE_UNDERFLOW')):
            if MASK[base] & b:
                rep.ob('test', any(f[0] == 'feok' and f[1] == b and has(f[2], b) for f in s.out), '%s:%s' % (fn.name, n), fn.loc(), '%s returns without having tested whether its computation has raised %s' % (fn.name, n))
    for n, s in S.items():
        if s.field:
            rollback(prog, F, rep, M, R, n, s, undos, fins)
    rep.floor('math functions with errors', nfn, 90)
    rep.floor('math functions', nnames, 180)


def namesake(prog, F, rep, fn, base):
    want = {base} | set(ALIAS.get(base, ()))
    names = {x.name[:-3] for x in prog.fns.values() if x.lib == 'libm' and re.search('_t[xm]$', x.name)} | set(MASK)
    calls = F.calls(fn, MathNames(names))
    rep.ob('namesake', bool(calls) and all(c[0] in want for c in calls), fn.name, fn.loc(), '%s computes %s' % (fn.name, ', '.join(sorted({c[0] for c in calls} - want)) or 'nothing'))
    for nm, args, site, chain in calls:
        if nm not in want:
            continue
        ok = True
        for k, a in enumerate(args):
            if k < len(fn.args) and all(d[0] in ('p', 'i', 'fp') for d in a) and a != frozenset([('p', k)]):
                ok = False
        rep.ob('namesake', ok, fn.name + ':arguments', prog.fns[site[0]].loc(prog.fns[site[0]].defs.get(site[1])), '%s calls %s with arguments other than its own' % (fn.name, nm))
    r = F.rets(fn)
    if fn.ret != 'void' and all(d[0] in ('r', 'p', 'fp', 'i') for d in r):
        rep.ob('namesake', all(d[0] == 'r' and d[1] in want for d in r), fn.name + ':result', fn.loc(), '%s returns something other than the result of its namesake' % fn.name)


class MathNames:
    memo = {}

    def __new__(cls, names):
        k = frozenset(names)
        if k not in cls.memo:
            cls.memo[k] = super().__new__(cls)
            cls.memo[k].names = k
        return cls.memo[k]

    def __call__(self, n):
        return n in self.names


def rollback(prog, F, rep, M, R, n, s, undos, fins):
    f0, i0, _ = s.saves[0]
    rep.ob('rollback', n in R.flags, n + ':flag', f0.loc(i0), 'whether the state has been saved before is not tested where it is saved')
    # saving functions
    for f in {f.key: f for f, i, p in s.saves}.values():
        sm = M.summary(f)
        # the initialiser marks the state as not saved
        if ('saved', n) not in sm.out and any(x[0] == 'released' and x[1] == n for x in sm.out):
            rep.ob('rollback', True, '%s:init' % f.name, f.loc(), '')
            continue
        rep.ob('rollback', ('saved', n) in sm.out, '%s:%s:flag' % (f.name, n), f.loc(), 'after %s has saved the state, the flag that tells so is not set on every path, or not all exceptions are saved' % f.name)
        tops = []
        for e in prog.fns.values():
            if not e.internal and e.lib == 'libm' and (e.name.startswith('picotm_') or e.name.endswith('_tx')) and f in reach(prog, e):
                tops.append(e)
        bad = [e for e in tops if any(r[0] == 'clear' and r[1] == n for r, _ in M.summary(e).unmet)]
        rep.ob('rollback', not bad, '%s:%s:once' % (f.name, n), f.loc(), 'the saved state is overwritten by state of the running transaction: %s does not know that none has been saved' % ', '.join(sorted(e.name for e in bad)[:3]))
    own = []
    for m, u in undos:
        if any(i['op'] == 'call' and i['fn'] == ['F', s.restorefn] for g in reach(prog, u) for i in g.instrs()):
            own.append((m, u))
    rep.ob('rollback', bool(own), n + ':undo', f0.loc(), 'no undo operation of a module restores the state')
    for m, u in own:
        sm = M.summary(u)
        rep.ob('rollback', ('restored', n) in sm.out and not any(r[0] == 'isset' and r[1] == n for r, _ in sm.unmet), '%s:undo' % n, u.loc(), 'undo does not restore the saved state (%s) on every path on which it has been saved, and only there' % s.restorefn)
        fin = [f for k, f in fins if k == m]
        rep.ob('rollback', bool(fin) and all(('released', n) in M.summary(f).out for f in fin), '%s:finish' % n, u.loc(), 'the finish operation does not mark the state as not saved on every path')
        for g in reach(prog, u):
            later = after(g, 'fesetexceptflag', 'fesetenv')
            rep.ob('rollback', later is None, '%s:order' % g.name, g.loc(later) if later else g.loc(), 'the environment is restored after the exception flags, which changes them again')


def after(fn, a, b):
    """a call of b that can follow a call of a"""
    seen = set()
    work = []
    for bi, blk in enumerate(fn.blocks):
        hit = False
        for i in blk:
            if i['op'] == 'call' and i['fn'] == ['F', a]:
                hit = True
            elif hit and i['op'] == 'call' and i['fn'] == ['F', b]:
                return i
        if hit:
            work += fn.succ[bi]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in fn.blocks[x]:
            if i['op'] == 'call' and i['fn'] == ['F', b]:
                return i
        work += fn.succ[x]
    return None
