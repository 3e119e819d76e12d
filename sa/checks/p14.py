"""P14: balance of the internal locks."""
from ..locks import analysis, lockclass, callers, EXCL
from ..engine import trace_list

EXPLANATION = (
    "Lock-set analysis over LLVM IR of every function that reaches a lock primitive (pthread mutex/rwlock/spin, picotm_spinlock and the wrappers around them; condition waits keep their mutex). "
    "Every path is followed, failing lock calls included; a lock's identity is its symbolic address, so a release has to name the lock that was taken. Functions that return holding or releasing a lock are analysed "
    "inside each of their callers. (1) neutral: every function other than a lock wrapper - a static helper that consistently takes or gives back locks for its callers, or a primitive wrapper around its argument - ends every path with exactly the locks it started with, "
    "and releases none that is not held. (2) failure: a function that reports failure has given back everything it took. (3) twice: none is taken while the same function already holds it. "
    "(4) jump: none is held when control leaves through recovery or a long jump. Excepted: the exclusivity lock, which transactions hold by design (property P06 decides it).")

def text(prog, held):
    return ', '.join('%s (%s)' % (lockclass(prog, a), {'rd': 'for reading', 'wr': 'for writing', 'unheld': 'released without being held', 'needs': 'needed'}.get(k, 'locked')) for k, a in held) or 'nothing'


def run(prog, rep):
    L = analysis(prog)
    nf = 0
    for f in L.analysed:
        s = L.sum[f.key]
        nf += 1
        for x in s.exits:
            held = [(k, a) for k, a in x.st.ps if k != 'some']
            where = f.loc(x.ins) if x.ins is not None else f.loc()
            if not s.wrapper:
                rep.ob('neutral', not held, '%s:%s' % (f.name, names(prog, held)), where, '%s returns with: %s' % (f.name, text(prog, held)), trace_list(x.st))
            failed = any(v for k, v in x.st.err.items() if k[0] == 'Arg')
            if failed:
                left = [(k, a) for k, a in held if k not in ('unheld', 'needs')]
                rep.ob('failure', not left, '%s:%s' % (f.name, names(prog, left)), where, '%s reports failure while still holding: %s' % (f.name, text(prog, left)), trace_list(x.st))
    for rule, key, where, msg, tr, fn in L.viol:
        if rule in ('twice', 'jump', 'leak'):
            rep.bad(rule, key, where, msg, tr)
    rep.count('sites', L.sites)
    rep.floor('lock and unlock sites', L.sites, 55)
    rep.floor('functions analysed', nf, 32)
    rep.assumptions.append('balance of hand-over-hand locking of %s is not decided' % ', '.join(sorted(L.coupled)))
    rep.assumptions.append('an unlock that fails leaves the lock released')


def base(a):
    return a[0] == 'Arg'


def names(prog, held):
    return '+'.join(sorted({'%s %s' % (k, lockclass(prog, a)) for k, a in held}))

