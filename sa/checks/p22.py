"""P22: integer arithmetic is exact or reports an error."""
import re
from ..build import AnalysisBroken, header_units
from ..ir import Program
from ..must import Must
from ..flow import flow
from ..intdom import Eval, Region, width, unit

EXPLANATION = (
    "Disjunctive abstract interpretation (octagons over the two operands plus bounds of their product; quotients are related to the product when compared) of every transactional add, sub, mul and div function on integer types, as instantiated from the headers of the current tree, "
    "including one application-defined signed and one unsigned range. Rules: result - on every path that returns, the returned value equals the mathematical result for every pair of operands in the region that reaches it; error - on every path that reports an error, the mathematical result is not representable for any pair of operands that reaches it; "
    "kind - division by zero reports EDOM, everything else ERANGE; defined - no intermediate computation on any pair of operands overflows a signed type, divides by zero or shifts the problem to undefined behaviour; report - the error functions hand exactly that error to recovery on every path. Floating-point types are not covered.")

ERANGE, EDOM = 34, 33
INT = {'_Bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'short': (16, 1), 'int': (32, 1), 'long': (64, 1), 'long long': (64, 1),
       'unsigned char': (8, 0), 'unsigned short': (16, 0), 'unsigned int': (32, 0), 'unsigned long': (64, 0), 'unsigned long long': (64, 0), 'unsigned': (32, 0)}
INT.update({'long int': (64, 1), 'long long int': (64, 1), 'short int': (16, 1), 'long unsigned int': (64, 0), 'long long unsigned int': (64, 0), 'short unsigned int': (16, 0)})
CUSTOM = {'vrange': (-1000, 999), 'vurange': (0, 999)}


def rng(t):
    w, s = INT[t]
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)


class Reporting:
    """must-analysis: which errno a function hands to recovery on every path"""

    def __init__(self, F):
        self.F = F

    def call(self, M, fn, i, nm, c, st):
        if nm == 'picotm_error_set_errno':
            return [('code', self.F.val(fn, i['args'][0]), self.F.val(fn, i['args'][1]))], ('code',)
        if nm == 'picotm_recover_from_error':
            a = self.F.val(fn, i['args'][0])
            return [('rec', f[2]) for f in st if f[0] == 'code' and f[1] == a] or [('rec', frozenset([('?',)]))], ()
        if nm == 'picotm_recover_from_errno':
            return [('rec', self.F.val(fn, i['args'][0]))], ()
        return None

    def ins(self, M, fn, i, st):
        return None

    def edge(self, *a):
        return set()

    def met(self, M, req, st):
        return True


def reporters(prog, rep, lib):
    """name -> errno, for the error functions of a library"""
    F = flow(prog)
    M = Must(prog, Reporting(F))
    out = {}
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if fn.lib != lib or fn.internal or not re.search(r'error', fn.name):
            continue
        codes = [f[1] for f in M.summary(fn).out if f[0] == 'rec']
        k = None
        if codes and all(len(c) == 1 and next(iter(c))[0] == 'i' for c in codes) and len(set(codes)) == 1:
            k = next(iter(codes[0]))[1]
        rep.ob('report', k is not None, fn.name, fn.loc(), '%s does not hand one particular error to recovery on every path' % fn.name)
        out[fn.name] = k
    return out


_inst = []


def inst():
    if not _inst:
        _inst.append(Program(units=header_units()))
    return _inst[0]


def evaluate(prog, codes, fn, regions, nargs):
    E = Eval(prog, lambda f, nm: (codes[nm] or 0) if nm in codes else None)
    res = []
    for R in regions:
        a = [('A', width(fn.args[0]), (1, 0, 0))]
        if nargs == 2:
            a.append(('A', width(fn.args[1]), (0, 1, 0)))
        res += E.run(fn, a, R)
    return E, res


def run(prog, rep):
    codes = reporters(prog, rep, 'arithmetic')
    ip = inst()
    n = 0
    for fn in sorted(ip.fns.values(), key=lambda f: f.key):
        m = re.match(r'(add|sub|mul|div)_(\w+)_tx$', fn.name)
        if not m or fn.lib != 'inst_arith' or len(fn.args) != 2 or len(set(fn.dty)) != 1 or fn.dty[0] not in INT:
            continue
        n += 1
        op, ty = m.group(1), fn.dty[0]
        lo, hi = CUSTOM.get(m.group(2)) or rng(ty)
        R = Region((lo, hi), (lo, hi)).close()
        E, res = evaluate(ip, codes, fn, [R], 2)
        issues = E.issues
        rep.ob('defined', not issues, fn.name, issues[0][0].loc(issues[0][1]) if issues else fn.loc(), '%s: %s for operands %s' % (fn.name, issues[0][2] if issues else '', issues[0][3].show() if issues else ''))
        for R, o in res:
            if o[0] == 'err':
                bad = representable(R, op, lo, hi)
                rep.ob('error', not bad, '%s:%s' % (fn.name, R.show() if bad else 'error'), o[2], '%s reports an error for operands %s although the result may be representable' % (fn.name, R.show()))
                zero = op == 'div' and R.r == (0, 0)
                rep.ob('kind', o[1] == (EDOM if zero else ERANGE), '%s:kind' % fn.name, o[2], '%s reports %s for operands %s' % (fn.name, {EDOM: 'EDOM', ERANGE: 'ERANGE'}.get(o[1], o[1]), R.show()))
            else:
                bad = wrong(E, R, op, o[1], rng(ty), (lo, hi))
                rep.ob('result', bad is None, '%s:%s' % (fn.name, bad.show() if bad else 'result'), o[2] if len(o) > 2 else fn.loc(), '%s does not return the exact result for operands %s' % (fn.name, bad.show() if bad else ''))
    rep.floor('functions', n, 44)


def representable(R, op, lo, hi):
    if op in ('add', 'sub'):
        a, b = R.bounds((1, 1 if op == 'add' else -1, 0))
        return not (b < lo or a > hi)
    if op == 'mul':
        a, b = R.prod()
        return not (b < lo or a > hi)
    if R.r == (0, 0):
        return False
    return not (R.l == (lo, lo) and R.r == (-1, -1) and lo < 0)


def wrong(E, R, op, v, mach, range_):
    """sub-region for which v is not the exact result (None if it is exact everywhere)"""
    lo, hi = range_
    signed = mach[0] < 0
    if v[0] not in ('A', 'P', 'Q', 'D'):
        return R
    for R1, f in E.math(R, v, signed):
        if f is None:
            return R1
        if op in ('add', 'sub', 'mul'):
            if representable(R1, op, lo, hi):
                a, b = R1.bounds((1, 1 if op == 'add' else -1, 0)) if op != 'mul' else R1.prod()
                if a < lo or b > hi:
                    return R1
            else:
                return R1
        if op in ('add', 'sub'):
            if f[0] != 'A':
                return R1
            w = (1, 1 if op == 'add' else -1, 0)
            if R1.bounds(tuple(x - y for x, y in zip(f[1], w))) != (0, 0):
                return R1
        elif op == 'mul':
            if f == ('P', 1):
                continue
            if f[0] != 'A':
                return R1
            w = None
            if R1.r[0] == R1.r[1]:
                w = (R1.r[0], 0, 0)
            elif R1.l[0] == R1.l[1]:
                w = (0, R1.l[0], 0)
            if w is None or R1.bounds(tuple(x - y for x, y in zip(f[1], w))) != (0, 0):
                return R1
        else:
            if f == ('D',):
                if R1.r[0] <= 0 <= R1.r[1]:
                    return R1
                a, b = E.dbounds(R1)
                if a < lo or b > hi:
                    return R1
                continue
            w = None
            if R1.r[0] == R1.r[1] and abs(R1.r[0]) == 1:
                w = (R1.r[0], 0, 0)
            elif R1.l == (0, 0):
                w = (0, 0, 0)
            if f[0] == 'Q' and R1.l[0] == R1.l[1] and f[1:] == (R1.l[0], 1, 'r'):
                continue
            if f[0] == 'A' and R1.l[0] == R1.l[1] and R1.r[0] == R1.r[1] and R1.r[0]:
                from ..intdom import tdiv
                w = (0, 0, tdiv(R1.l[0], R1.r[0]))
            if w is None or f[0] != 'A' or R1.bounds(tuple(x - y for x, y in zip(f[1], w))) != (0, 0):
                return R1
    return None
