"""P21: casts return the same value or report a range error."""
import re
from .p22 import INT, rng, reporters, inst, evaluate, ERANGE
from ..intdom import Region

EXPLANATION = (
    "Disjunctive interval analysis of every cast function between native integer types and from integer to floating-point types, as instantiated from the headers of the current tree, and of casts to application-defined ranges of signed and unsigned types. "
    "Rules: result - on every path that returns, the returned value equals the argument for every argument that reaches it, and lies in the destination's range; error - on every path that reports an error, no argument that reaches it is in the destination's range; kind - the error is ERANGE; "
    "report - the error functions hand exactly that error to recovery on every path. The value of an integer converted to floating point is taken to be rounded by the conversion.")
FLOAT = ('float', 'double', 'long double')
CUSTOM = {'vsmall': (-100, 100), 'vpos': (10, 200), 'vupos': (10, 200), 'vneg': (-200, -10)}


def run(prog, rep):
    codes = reporters(prog, rep, 'cast')
    ip = inst()
    n = 0
    for fn in sorted(ip.fns.values(), key=lambda f: f.key):
        m = re.match(r'cast_(\w+)_to_(\w+)_tx$', fn.name)
        if not m or fn.lib != 'inst_cast' or len(fn.args) != 1 or fn.dty[1] not in INT or fn.dty[0] not in INT and fn.dty[0] not in FLOAT:
            continue
        n += 1
        src, dst = fn.dty[1], fn.dty[0]
        flt = dst in FLOAT
        lo, hi = CUSTOM.get(m.group(2)) or (rng(dst) if not flt else (None, None))
        E, res = evaluate(ip, codes, fn, [Region(rng(src), (0, 0)).close()], 1)
        rep.ob('defined', not E.issues, fn.name, fn.loc(), '%s computes something undefined' % fn.name)
        for R, o in res:
            inside = flt or not (R.l[1] < lo or R.l[0] > hi)
            if o[0] == 'err':
                rep.ob('error', not inside, '%s:error' % fn.name, o[2], '%s reports an error for %s, although the type %s can represent it' % (fn.name, R.show(True), dst))
                rep.ob('kind', o[1] == ERANGE, '%s:kind' % fn.name, o[2], '%s does not report ERANGE for %s' % (fn.name, R.show(True)))
                continue
            v = o[1]
            if flt:
                ok = v[0] == 'F' and R.bounds(tuple(x - y for x, y in zip(v[1], (1, 0, 0)))) == (0, 0)
                bad = R
            else:
                ok, bad = True, R
                if R.l[0] < lo or R.l[1] > hi or v[0] != 'A':
                    ok = False
                else:
                    for R1, f in E.math(R, v, rng(dst)[0] < 0):
                        if f is None or f[0] != 'A' or R1.bounds(tuple(x - y for x, y in zip(f[1], (1, 0, 0)))) != (0, 0):
                            ok, bad = False, R1
            rep.ob('result', ok, '%s:result' % fn.name, o[2] if len(o) > 2 else fn.loc(), '%s does not return the same value for %s' % (fn.name, bad.show(True)))
    rep.floor('cast functions', n, 150)
