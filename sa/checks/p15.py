"""P15: order of the internal locks, and no unbounded or lock-holding waits."""
from ..locks import analysis, lockclass, EXCL
from ..build import AnalysisBroken

EXPLANATION = (
    "From the lock-set analysis of P14: (1) order: the graph 'class A is held while class B is taken' over all functions (callbacks included, those passed to functions that call them under a lock too) has no cycle; "
    "classes are the structure field or global a lock lives in. (2) twice: no lock is taken while the same path holds that very lock (self edges of a class, except the hand-over-hand wait queue, count too). "
    "(3) wait: no condition wait and no transactional lock wait is reached while an internal lock other than the one the wait gives up is held. "
    "(4) bounded: every wait on a condition has a time limit. (5) spin: no transactional lock is waited for and no recovery is entered under a spinlock. (6) signal: no signal handler is installed while a lock is held that such a handler takes; exclusivity is never waited for while an internal lock is held.")


def cycles(edges):
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)
    out = []
    for (a, b) in sorted(edges):
        # path from b back to a
        todo, seen = [(b, (b,))], {b}
        while todo:
            n, p = todo.pop(0)
            if n == a:
                out.append((a,) + p)
                break
            for m in sorted(g.get(n, ())):
                if m not in seen:
                    seen.add(m)
                    todo.append((m, p + (m,)))
    return out


def run(prog, rep):
    L = analysis(prog)
    edges = {}
    for (a, b), w in L.edges.items():
        if EXCL in (a, b) and a == b:
            continue
        if a == '?' or b == '?':
            continue
        edges[(a, b)] = w
    self_ok = L.coupled | {EXCL}
    for (a, b), w in sorted(edges.items()):
        rep.count('edges')
    seen = set()
    for c in cycles([e for e in edges if e[0] != e[1]]):
        k = frozenset(c)
        if k in seen:
            continue
        seen.add(k)
        steps = [edges[(c[i], c[i + 1])][0] for i in range(len(c) - 1)]
        names = sorted(k)
        rep.bad('order', '<->'.join(names), steps[0][0], 'internal locks are nested in a cycle: ' + ' -> '.join(c), ['%s: %s' % (s[0], s[1]) for s in steps])
    for (a, b), w in sorted(edges.items()):
        if a == b and a not in self_ok:
            # a shared reader lock of the same instance may still block behind a writer
            rep.bad('twice', a, w[0][0], '%s is taken while a lock of the same class is held' % a, ['%s: %s' % (x[0], x[1]) for x in w[:4]])
    for rule, key, where, msg, tr, fn in L.viol:
        if rule in ('twice', 'wait'):
            rep.bad(rule, key, where, msg, tr)
        if rule == 'jump' and ('spin' in msg or 'lock' in msg):
            rep.bad('spin', key, where, msg, tr)
    handlers = [f for f in prog.fns.values() if f.args == ['i32', 'ptr', 'ptr'] and f.ret == 'void' and any('siginfo' in str(d) for d in f.dty)]
    hl = {}
    for h in handlers:
        for c in L.summary(h).acquires:
            hl.setdefault(c, h)
    for c, where, name in L.sigs:
        rep.ob('signal', c not in hl, '%s:%s' % (name, c), where, '%s installs a signal handler while holding %s, which %s takes' % (name, c, hl[c].name if c in hl else ''))
    rep.count('signal')
    for (a, b), w in sorted(edges.items()):
        if b == EXCL:
            rep.bad('exclusive', a, w[0][0], 'exclusivity, under which everything else is taken, is waited for while holding ' + a, ['%s: %s' % (x[0], x[1]) for x in w[:4]])
    nw = 0
    for f in prog.fns.values():
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in ('pthread_cond_wait', 'pthread_cond_timedwait'):
                nw += 1
                if i['fn'][1] == 'pthread_cond_wait':
                    # a wrapper nobody calls is no wait
                    rep.ob('bounded', not reached(prog, f), f.name, f.loc(i), '%s waits without a time limit' % f.name)
                else:
                    rep.count('bounded')
    rep.floor('nesting edges', len(edges), 5)
    rep.floor('condition waits', nw, 1)
    rep.floor('lock and unlock sites', L.sites, 55)
    rep.assumptions.append('locks of one class are compared by class, except within one path')


def reached(prog, f):
    for g in prog.fns.values():
        for i in g.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and prog.resolve(g, i['fn'][1]) is f:
                return True
    return False
