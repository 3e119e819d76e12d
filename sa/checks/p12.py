"""P12: container operations are isolated, and their roll back is exact."""
from ..build import AnalysisBroken
from ..engine import Engine, I0, I1, UNDEF, base_of, root_of, mentions, trace_list
from ..events import dispatches
from ..flow import flow
from ..locks import JUMP
from .errflow import ErrPlugin, ERRT
from .p13 import exported
from .p25 import handlers

EXPLANATION = (
    "Path-sensitive analysis of every exported operation of the list, the multiset, the queue and the stack, over a symbolic heap in which every load names the content of a link at the start of the operation. Rule lock: a shared entry or the head of the shared container is read only after the transaction "
    "has obtained the reader lock of this very container, and linked or unlinked only under its writer lock. Rule recorded: an operation that changes a container records an event, and changes nothing otherwise. Rule exact: the heap that results from the operation followed by the handler for the recorded event, "
    "with the recorded data, is the initial heap; decided for every path through both. Rule links: after each operation the links of all entries involved agree (next/prev, parent/child), and a removed entry is no longer linked. Rule combined: a transaction sees the shared entries of a queue in front of its own, and its own entries of a stack on top of the shared ones, in every query and removal. Rule publish: the commit handler of a push moves the entry from the "
    "front of the local queue (the bottom of the local stack) to the end of the shared one, exactly if the entry is there. Rule prepare: before a commit is applied, the writer locks of all queues and stacks with local entries are taken.")

KINDS = ('list', 'multiset', 'queue', 'stack')
INV = {('list', 'next'): ('prev',), ('list', 'prev'): ('next',), ('queue', 'next'): ('prev',), ('queue', 'prev'): ('next',), ('multiset', 'lt'): ('parent',), ('multiset', 'ge'): ('parent',), ('multiset', 'parent'): ('lt', 'ge')}
NIL = (('n',), I0)
PROG = None
OFF = {}


def offsets(prog):
    for f in prog.fns.values():
        for i in f.instrs():
            g = i.get('gep')
            if isinstance(g, list):
                for s in g[1]:
                    if s[0] == 'f':
                        OFF[s[1], s[2]] = s[3]


def kind_of(s):
    """'queue' for 'struct.txqueue_entry' and its parts"""
    for k in KINDS:
        if s == 'struct.tx%s_entry' % k or s.startswith('struct.tx%s_entry/' % k):
            return k
    return None


ORDER = {'list': ('next', 'prev'), 'queue': ('next', 'prev'), 'stack': ('prev',), 'multiset': ('lt', 'ge', 'parent')}


def linkname(s, i):
    n = PROG.fieldname(s, i)
    k = kind_of(s)
    if n.isdigit() and k and len(PROG.structs[s]['el']) == len(ORDER[k]):
        # a member of an unnamed structure
        return ORDER[k][i]
    return n


def link(a):
    """(kind, field, entry) if a is the address of a link"""
    if a[0] != 'P' or a[2][-1][0] != 'f':
        return None
    s, i = a[2][-1][1:3]
    k = kind_of(s)
    if k is None or s not in PROG.structs:
        return None
    n = linkname(s, i)
    j = len(a[2]) - 1
    while j > 0 and a[2][j - 1][0] == 'f' and kind_of(a[2][j - 1][1]) == k:
        j -= 1
    return k, n, a[2][j:], a[0:2] + (a[2][:j],) if j else a[1]


def neighbour(a, field):
    """address of another link of the same entry"""
    k, n, steps, e = link(a)
    s = steps[-1]
    idx = FIELDS[k][field]
    st = steps[:-1] + (('f', s[1], idx) + s[3:],)
    return ('P', e[1], e[2] + st) if e[0] == 'P' else ('P', e, st)


FIELDS = {}


def of_entry(e, k, field):
    base = STEPS[k]
    st = base[:-1] + (('f', base[-1][1], FIELDS[k][field]),)
    return ('P', e[1], e[2] + st) if e[0] == 'P' else ('P', e, st)


STEPS = {}


def learn(prog):
    """how links are addressed"""
    global PROG
    PROG = prog
    offsets(prog)
    for k in KINDS:
        s, steps = 'struct.tx%s_entry' % k, []
        while s in prog.structs and len(prog.structs[s]['el']) == 1 and isinstance(prog.structs[s]['el'][0][1], str) and prog.structs[s]['el'][0][1].startswith('struct.'):
            steps.append(('f', s, 0))
            s = prog.structs[s]['el'][0][1]
        if s not in prog.structs:
            raise AnalysisBroken('the entries of the %s were not found' % k)
        FIELDS[k] = {linkname(s, i): i for i in range(len(prog.structs[s]['el']))}
        STEPS[k] = tuple(steps) + (('f', s, 0),)
        need = {'list': {'next', 'prev'}, 'queue': {'next', 'prev'}, 'stack': {'prev'}, 'multiset': {'lt', 'ge', 'parent'}}[k]
        if set(FIELDS[k]) != need:
            raise AnalysisBroken('the links of the %s are %s' % (k, sorted(FIELDS[k])))


def off(steps):
    return sum(OFF.get((s[1], s[2]), 0) if s[0] == 'f' else s[1][1] * s[2] for s in steps)


class Heap(ErrPlugin):
    track_heap = True
    exact_heap = True
    keep_facts = True
    max_depth = 12
    max_block_states = 400

    def init(self, eng, root):
        self.root = root
        return frozenset()

    def keep(self, ps):
        return []

    def failedres(self, v, st):
        return None

    def overwrite(self, *a):
        pass

    def small(self, site, callee):
        return False

    def addr(self, a):
        if a[0] == 'P':
            for j in range(len(a[2]) - 1, -1, -1):
                s = a[2][j]
                if s[0] == 'f' and s[1] == 'struct.txlib_event' and all(x[0] == 'f' or x[1][0] == 'i' for x in a[2][j:]):
                    return ('P', a[1], a[2][:j] + (('f', 'struct.txlib_event', -1 - off(a[2][j:])),))
        return a

    def initial(self, a, st):
        l = link(a)
        if l is None:
            return None
        k, n, _, e = l
        if e[0] == 'L':
            m = link(e[1])
            if m is not None and m[0] == k and n in INV.get((k, m[1]), ()) and (k != 'multiset' or n == 'parent'):
                # x->next->prev == x
                return m[3]
        return None

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def branch(self, eng, cond, truth, st, site):
        if cond[0] == 'cmp' and cond[1] in ('eq', 'ne') and (cond[1] == 'eq') == truth and cond[2][0] == cond[3][0] == 'L':
            a, b = link(cond[2][1]), link(cond[3][1])
            if a and b and a[0] == b[0] == 'multiset' and a[3] == b[3] and {a[1], b[1]} == {'lt', 'ge'} and not (self.maynil(st, cond[2]) and self.maynil(st, cond[3])):
                return None     # an entry is not both children of its parent
        return st

    def maynil(self, st, v):
        r = st.facts.get(v)
        return r is None or r[0] <= 0 <= r[1] and 0 not in r[2]

    def on_recover(self, eng, name, e, st, site):
        if name in JUMP:
            self.leave(eng, st, site)
            return []
        return ErrPlugin.on_recover(self, eng, name, e, st, site)

    def leave(self, eng, st, site):
        pass

    def default(self, eng, name, callee, args, st, site):
        R = ('R', name, site.id, site.ctx)
        if name in JUMP:
            self.leave(eng, st, site)
            return []
        if callee is not None and name in ('picotm_rwstate_try_rdlock', 'picotm_rwstate_try_wrlock'):
            return self.locking(eng, name, args, st, site)
        if name == 'picotm_append_event':
            return self.append(eng, args, st, site)
        if callee is not None and callee.lib == 'txlib' and callee.key in MPRIM:
            # the tree is analysed on its own
            e = args[0]
            a = ('P', e, (('f', 'struct.txmultiset_entry/', 0),)) if e[0] != 'P' else ('P', e[1], e[2] + (('f', 'struct.txmultiset_entry/', 0),))
            s2 = self.touch(eng, a, 'w', st, site)
            ins = MPRIM[callee.key] == 'insert'
            m = dict(s2.mem)
            ps = s2.ps
            if a not in m:
                ps |= {('M0', a, I0 if ins else I1)}
            m[a] = ('i', 2) if m.get(a) == (I1 if ins else I0) else I1 if ins else I0
            return [(R, s2.with_(mem=m, ps=ps))]
        if callee is not None and callee.lib == 'txlib' and callee.key in LOOPY:
            s2 = st
            for a, t in zip(args, callee.dty[1:]):
                k = next((k for k in KINDS if t in ('struct tx%s_entry*' % k, 'const struct tx%s_entry*' % k)), None)
                if k is not None:
                    s2 = self.touch(eng, of_entry(a, k, ORDER[k][0]), 'r', s2, site)
            if len(args) == 2 and callee.dty[1:2] == callee.dty[2:3] and callee.dty[1].endswith('_entry*'):
                return [(('O', 'dist', args[0], args[1]), s2)]
            return [(R, s2)]
        if callee is not None and callee.lib == 'txlib':
            return 'inline'
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def locking(self, eng, name, args, st, site):
        bad = st.seterr(args[2], (frozenset({'conflicting'}), name, site.where, False)).note(site.where, 'lock attempt fails')
        b = shared(args[1])
        ok = st
        if b is not None:
            ok = st.with_(ps=st.ps | {('L', 'w' if 'wr' in name else 'r', b, args[0])}).note(site.where, 'locks the container (%s)' % ('writer' if 'wr' in name else 'reader'))
        return [(UNDEF, ok), (UNDEF, bad)]

    def append(self, eng, args, st, site):
        return [(UNDEF, st)]

    def touch(self, eng, a, mode, st, site):
        return st


def shared(a):
    """the container (struct txX_state) that address a lies in"""
    if a[0] != 'P':
        return None
    for j in range(len(a[2])):
        s = a[2][j]
        if s[0] == 'f' and any(s[1] == 'struct.tx%s_state' % k for k in KINDS):
            return ('P', a[1], a[2][:j]) if j else a[1]
    return None


def heads(a):
    """containers whose shared head is mentioned in the address a, and kinds of local heads"""
    sh, lo = set(), set()
    for v in mentions(a) | {a}:
        if v[0] != 'P':
            continue
        b = shared(v)
        if b is not None and any(s[0] == 'f' and kind_of(s[1]) for s in v[2]) or b is not None and ishead(v):
            sh.add(b)
        for j, s in enumerate(v[2]):
            if s[0] == 'f' and s[1].endswith('_tx') and s[1].startswith('struct.tx') and PROG.structs.get(s[1]) and kind_of(str(PROG.structs[s[1]]['el'][s[2]][1])):
                lo.add(v)
    return sh, lo


def ishead(v):
    t = v[2][-1]
    if t[0] != 'f' or t[1] not in PROG.structs:
        return False
    return kind_of(str(PROG.structs[t[1]]['el'][t[2]][1])) is not None


def at(eng, st, a):
    """content of a in the current heap"""
    if a in st.mem:
        return st.mem[a]
    return eng.plugin.initial(a, st) or ('L', a)


def isnil(st, v):
    if v in NIL:
        return True
    r = st.facts.get(v)
    return r is not None and r[0] == r[1] == 0


def canon(st, v):
    """another name of an entry"""
    for c, r in st.facts.items():
        if c[0] == 'cmp' and c[1] == 'eq' and r[0] == r[1] == 1 and v in (c[2], c[3]):
            o = c[3] if v == c[2] else c[2]
            if len(str(o)) < len(str(v)):
                return o
    return v


def differs(eng, st, before):
    """links whose content is not what it was initially"""
    out = []
    for a, v in st.mem.items():
        l = link(a)
        if l is None and not (a[0] == 'P' and a[2][-1][1:2] == ('struct.txmultiset_entry/',)):
            continue
        if base_of(a)[0] == 'A':
            continue
        if l is None:
            # member of a multiset: initially, iff the operation has removed it
            if ('M0', a, v) not in st.ps:
                out.append((a, 'is %sa member of the multiset' % ('' if v == I1 else 'not ')))
            continue
        init = eng.plugin.initial(a, st) or ('L', a)
        if v == init:
            continue
        if v in NIL and a in before and before[a] not in NIL:
            continue        # was not linked before
        if eng.cmpval('eq', v, init, st) == I1 or eng.cmpval('eq', init, v, st) == I1:
            continue
        if isnil(st, init) and v in NIL:
            continue
        out.append((a, "the link '%s'" % l[1]))
    return out


def linkcheck(eng, st):
    """links written so far that do not agree with their counterpart"""
    out = []

    def same(x, y):
        return x == y or eng.cmpval('eq', x, y, st) == I1 or eng.cmpval('eq', y, x, st) == I1
    for a, v in st.mem.items():
        l = link(a)
        if l is None or base_of(a)[0] == 'A':
            continue
        k, n, _, e = l
        inv = INV.get((k, n))
        if not inv:
            continue
        if isnil(st, v):
            # unlinked: the old neighbour must not refer to it any more
            for f in FIELDS[k]:
                if k in ('list', 'queue') and not isnil(st, at(eng, st, of_entry(e, k, f))):
                    out.append((a, "an entry's '%s' is cleared, but not its '%s'" % (n, f)))
            old = eng.plugin.initial(a, st) or ('L', a)
            if old in NIL or isnil(st, old) or any(isnil(st, ('L', of_entry(e, k, f))) for f in FIELDS[k] if f not in ('lt', 'ge')):
                continue
            if k == 'multiset' and n != 'parent':
                # the child has been moved
                old = canon(st, old)
                if same(at(eng, st, of_entry(old, k, 'parent')), e):
                    out.append((a, "an entry's '%s' is cleared, but the child still refers to it as its parent" % n))
                continue
            good = False
            for f in inv:
                b = of_entry(old, k, f)
                if b in st.mem and not same(st.mem[b], e):
                    good = True
            if not good:
                out.append((a, "an entry's '%s' is cleared, but the entry there still refers to it" % n))
            continue
        if not any(same(at(eng, st, of_entry(v, k, f)), e) for f in inv):
            out.append((a, "the link '%s' is not matched by '%s' of the entry it leads to" % (n, "' or '".join(inv))))
        if k == 'multiset' and n == 'parent':
            old = eng.plugin.initial(a, st)
            if old is None:
                old = ('L', a)
                fs = [f for f in inv if eng.cmpval('eq', ('L', of_entry(old, k, f)), e, st) == I1 or eng.cmpval('eq', e, ('L', of_entry(old, k, f)), st) == I1]
            else:
                fs = [link(e[1])[1]]
            if not same(old, v):
                for f in fs:
                    if same(at(eng, st, of_entry(old, k, f)), e):
                        out.append((a, "the entry is still linked as '%s' of its old parent" % f))
    return out


MPRIM, LOOPY = {}, set()


def primitives(prog):
    """functions that insert into and remove from the tree of a multiset; functions that walk a container"""
    MPRIM.clear()
    LOOPY.clear()
    fs = [f for f in prog.fns.values() if f.lib == 'txlib']
    direct = {}
    for f in fs:
        for i in f.instrs():
            if i['op'] != 'store' or i['args'][1][0] != 'v':
                continue
            g = f.defs[i['args'][1][1]].get('gep')
            if not isinstance(g, list) or not g[1] or g[1][-1][0] != 'f' or kind_of(g[1][-1][1]) != 'multiset' or linkname(g[1][-1][1], g[1][-1][2]) != 'parent':
                continue
            b = g[0]
            while b[0] == 'v' and isinstance(f.defs[b[1]].get('gep'), list) and all(s[0] == 'f' or s[1][0] == 'i' for s in f.defs[b[1]]['gep'][1]):
                b = f.defs[b[1]]['gep'][0]
            if b == ['a', 0]:
                v = i['args'][0]
                if v == b:
                    continue      # the head
                direct.setdefault(f.key, set()).add('erase' if v[0] == 'n' else 'insert')
    # only if other entries are linked, too
    ch = True
    prim = {k: set(v) for k, v in direct.items()}
    while ch:
        ch = False
        for f in fs:
            for i in f.instrs():
                if i['op'] == 'call' and i['fn'][0] == 'F' and i['args'] and i['args'][0] == ['a', 0] and f.dty[1:2] == ['struct txmultiset_entry*']:
                    c = prog.resolve(f, i['fn'][1])
                    if c is not None and c.key in prim and not prim[c.key] <= prim.get(f.key, set()):
                        prim.setdefault(f.key, set()).update(prim[c.key])
                        ch = True
    called = {}
    for f in fs:
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F':
                c = prog.resolve(f, i['fn'][1])
                if c is not None:
                    called.setdefault(c.key, set()).add(f.key)
    for k, v in prim.items():
        f = prog.fns[k]
        if len(v) == 1 and f.dty[1:2] == ['struct txmultiset_entry*'] and any(c not in prim for c in called.get(k, ())):
            MPRIM[k] = next(iter(v))
    for f in fs:
        if f.key in prim or errs(f) or any(f.dty[1:2] == ['struct tx%s*' % k] for k in KINDS):
            continue
        if cyclic(f) and not any(i['op'] == 'store' and i['args'][1][0] == 'v' and isinstance(f.defs[i['args'][1][1]].get('gep'), list) for i in f.instrs()):
            LOOPY.add(f.key)


def errs(f):
    return ERRT in f.dty[1:]


def cyclic(f):
    seen, act = set(), set()

    def go(b):
        if b in act:
            return True
        if b in seen:
            return False
        seen.add(b)
        act.add(b)
        t = f.blocks[b][-1]
        r = any(go(x) for x in t.get('succ', [])) or any(go(x) for _, x in t.get('cases', ())) or 'def' in t and go(t['def'])
        act.discard(b)
        return r
    return go(0)


class Op(Heap):
    """an operation of the interface"""

    def __init__(self, prog, undo, rep):
        Heap.__init__(self, prog)
        self.undo, self.rep = undo, rep
        self.out = {}
        self.records = self.touched = self.changed = 0
        self.ops = set()

    def ob(self, rule, ok, key, st, site, msg):
        k = (rule, key, ok)
        if ok:
            self.out.setdefault(k, [0, None])[0] += 1
        elif k not in self.out:
            self.out[k] = [1, (site.where, msg, trace_list(st))]

    def handle(self, st):
        return next((x for x in self.args if x[1].startswith('struct tx') and x[1].rstrip('*')[9:] in KINDS), None)

    def touch(self, eng, a, mode, st, site):
        if base_of(a)[0] == 'A' or 'undo' in site.ctx or site.ctx and ('undo',) in site.ctx:
            return st
        sh, lo = heads(a)
        l = link(a)
        held = {x[2]: set() for x in st.ps if x[0] == 'L'}
        for x in st.ps:
            if x[0] == 'L':
                held[x[2]].add(x[1])
        what = 'changed' if mode == 'w' else 'read'
        if sh:
            self.touched += 1
            for b in sh:
                h = held.get(b, set())
                ok = 'w' in h if mode == 'w' else bool(h)
                self.ob('lock', ok, '%s:%s' % (site.fn.name, mode), st, site, 'a shared entry is %s without the %s lock of its container' % (what, 'writer' if mode == 'w' else 'reader'))
        elif not lo and self.kind in ('list', 'multiset') and (l or a[0] == 'P' and root_of(a)[0] == 'Arg'):
            r = root_of(a)
            if not (r[0] in ('Arg', 'R', 'T') and (l or 'txmultiset_entry' in str(a[2][-1:]))):
                return st
            self.touched += 1
            ok = any('w' in h if mode == 'w' else h for h in held.values())
            self.ob('lock', ok, '%s:%s' % (site.fn.name, mode), st, site, 'an entry is %s without the %s lock of its container' % (what, 'writer' if mode == 'w' else 'reader'))
        return st

    def load(self, eng, addr, st, site):
        if link(addr):
            if ('REC',) in st.ps and 'undo' not in site.ctx:
                return None
            if link(addr)[1] == 'parent' and shared(link(addr)[3]) is not None:
                return st       # the head is its own parent, always
            return self.touch(eng, addr, 'r', st, site)
        return st

    def store(self, eng, addr, val, st, site):
        if ('REC',) in st.ps and 'undo' not in site.ctx and (link(addr) or addr[0] == 'P' and addr[2][-1][1:2] == ('struct.txlib_event',)):
            # the next of several events; starts from a container that is as well-formed as the initial one
            return None
        if addr[0] == 'P' and addr[2][-1][1:2] == ('struct.txlib_event',) and 'undo' not in site.ctx:
            st = st.with_(ps=frozenset(x for x in st.ps if x[0] != 'EV') | {('EV', ('P', addr[1], addr[2][:-1]) if len(addr[2]) > 1 else addr[1])})
        if link(addr):
            return self.touch(eng, addr, 'w', st, site)
        return st

    def append(self, eng, args, st, site):
        ev = next((x[1] for x in st.ps if x[0] == 'EV'), None)
        first = ('REC',) not in st.ps
        if first:
            self.records += 1
            self.ob('exact', ev is not None, 'record', st, site, 'an event is recorded that has not been set up')
        if first and self.kind in ('queue', 'stack') and self.root.name.split('_')[1] == 'pop':
            gone = {link(a)[3] for a, v in st.mem.items() if link(a) and isnil(st, v) and not isnil(st, ('L', a))}
            m = taken(self.kind, 'front' if self.kind == 'queue' else 'top', next(iter(gone)), st) if len(gone) == 1 else '%d entries are removed' % len(gone)
            self.ob('combined', m is None, m or '', st, site, m or '')
        if ev is not None and first:
            self.ops |= {v[1] for a, v in st.mem.items() if a[0] == 'P' and v[0] == 'i' and a[2][-1] == ('f', 'struct.txlib_event', -1 - OFF['struct.txlib_event', self.prog.fieldidx('struct.txlib_event', 'op')])}
            before = dict(st.mem)
            for a, m in linkcheck(eng, st):
                self.ob('links', False, m, st, site, 'after the operation, ' + m)
            self.ob('links', True, '', st, site, '')
            if any(link(a) or a[0] == 'P' and a[2][-1][1:2] == ('struct.txmultiset_entry/',) for a in before):
                self.changed += 1
            err = ('Arg', ERRT, 99, 'undo')
            undone = False
            for x in eng.run(self.undo, (ev, err), st, ('undo',) + site.ctx):
                if x.st.err.get(err):
                    continue
                undone = True
                d = differs(eng, x.st, before)
                for a, m in d:
                    self.ob('exact', False, m, x.st, site, 'after rolling the operation back, %s of an entry differs from its initial value' % m if 'link' in m else 'after rolling the operation back, the entry ' + m)
                if not d:
                    self.ob('exact', True, '', x.st, site, '')
            self.ob('exact', undone, 'never', st, site, 'rolling the operation back fails always')
        ok = st.with_(ps=st.ps | {('REC',)}).note(site.where, 'records the event')
        bad = st.seterr(args[-1], (frozenset({'code', 'errno'}), 'picotm_append_event', site.where, False)).note(site.where, 'the event cannot be recorded')
        return [(UNDEF, ok), (UNDEF, bad)]

    def leave(self, eng, st, site):
        if ('REC',) in st.ps:
            return
        d = [a for a, v in st.mem.items() if (link(a) or a[0] == 'P' and a[2][-1][1:2] == ('struct.txmultiset_entry/',)) and base_of(a)[0] != 'A']
        if d:
            d = differs(eng, st, {a: UNDEF for a in d})
        self.ob('recorded', not d, '', st, site, 'the container has been changed, but nothing is recorded')

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx:
            self.leave(eng, st, site)
            q = fn.name.split('_')[1]
            if self.kind in ('queue', 'stack') and q in ('empty', 'size', 'front', 'back', 'top'):
                m = combined(self.kind, q, val, st)
                self.ob('combined', m is None, m or '', st, site, m or '')
        return st

    def init(self, eng, root):
        self.args = eng.default_args(root)
        self.kind = next(k for k in KINDS if root.dty[1] == 'struct tx%s*' % k)
        return Heap.init(self, eng, root)


def head_of(v):
    """('local' or 'shared', head, link) if v is the first or last entry of a container"""
    l = link(v[1]) if v[0] == 'L' else None
    if l is None:
        return None
    if isheadentry(l[3]):
        return 'shared', l[3], l[1]
    if islocal(l[3]):
        return 'local', l[3], l[1]
    return None


def is_empty(st, which):
    """what is known of the shared or the local entries"""
    for c, r in st.facts.items():
        if c[0] == 'cmp' and c[1] in ('eq', 'ne') and r[0] == r[1]:
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                h = head_of(x)
                if h is not None and h[0] == which and h[1] == y:
                    return (c[1] == 'eq') == (r[0] == 1)
    return None


def taken(kind, end, v, st):
    """what is wrong with taking entry v from an end of the queue or the stack"""
    h = head_of(v)
    if h is None:
        return 'the entry is not taken from an end of the %s' % kind
    if h[2] != ('next' if end == 'front' else 'prev'):
        return 'the entry is taken from the wrong end of the %s' % kind
    if end == 'front' and h[0] == 'local' and is_empty(st, 'shared') is not True:
        return "the transaction's own entries are taken before the shared ones, which have been in the queue before"
    if end != 'front' and h[0] == 'shared' and is_empty(st, 'local') is not True:
        return "a shared entry is taken, although the transaction's own entries have been added after it"
    return None


def combined(kind, q, v, st):
    if q in ('front', 'back', 'top'):
        return taken(kind, q, v, st)
    if q == 'empty':
        if v[0] == 'O' and v[1] == 'xor' and v[3][0] == 'i':
            v = ('cmp', {'eq': 'ne', 'ne': 'eq'}.get(v[2][1]),) + v[2][2:] if v[2][0] == 'cmp' else v
        for truth in (True, False):
            if v[0] == 'i':
                if bool(v[1]) != truth:
                    continue
                f = st
            elif v[0] == 'cmp':
                g = dict(st.facts)
                g[v] = (int(truth), int(truth), frozenset())
                f = st.with_(facts=g)
            else:
                return 'the result does not tell whether there are entries'
            if truth and not (is_empty(f, 'local') and is_empty(f, 'shared')):
                return 'the %s is reported as empty, although there may be entries' % kind
            if not truth and is_empty(f, 'local') is not False and is_empty(f, 'shared') is not False:
                return 'the %s is reported as not empty, although there may be no entry' % kind
        return None
    got = []
    todo = [v]
    while todo:
        x = todo.pop()
        if x[0] == 'O' and x[1] == 'add':
            todo += x[2:4]
        elif x[0] == 'O' and x[1] == 'dist':
            h = head_of(x[2])
            got.append(h[0] if h is not None and h[1] == x[3] else '?')
        elif x != I0 or is_empty(st, 'local') is None and is_empty(st, 'shared') is None:
            got.append('?')
    for w in ('local', 'shared'):
        if w not in got and is_empty(st, w):
            got.append(w)
    if sorted(got) != ['local', 'shared']:
        return 'the size of the %s is not the number of shared entries and own entries' % kind
    return None


class Tree(Heap):
    """a primitive of the multiset"""

    def __init__(self, prog):
        Heap.__init__(self, prog)
        self.bad, self.n = [], 0

    def default(self, eng, name, callee, args, st, site):
        if callee is not None and callee.key in MPRIM and not site.ctx and callee.key != self.root.key:
            return 'inline'
        if callee is not None and callee.lib == 'txlib' and callee.key in LOOPY:
            return [(('R', name, site.id, site.ctx), st)]
        if callee is not None and callee.lib == 'txlib':
            return 'inline'
        return Heap.default(self, eng, name, callee, args, st, site)

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx:
            self.n += 1
            for a, m in linkcheck(eng, st):
                self.bad.append((m, st, site))
            e = eng.default_args(fn)[0]
            p = at(eng, st, of_entry(e, 'multiset', 'parent'))
            ins = MPRIM[fn.key] == 'insert'
            if isnil(st, p) == ins or p == ('L', of_entry(e, 'multiset', 'parent')):
                self.bad.append(('the entry is %s the tree' % ('not in' if ins else 'still in'), st, site))
        return st


class Publish(Heap):
    def __init__(self, prog):
        Heap.__init__(self, prog)
        self.exits = []

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx:
            self.exits.append((st, site))
        return st


class Prepare(Heap):
    """takes the locks for the commit"""

    def __init__(self, prog):
        Heap.__init__(self, prog)
        self.exits = []
        self.items = []
        self.more = []

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('picotm_slist_walk') or name.startswith('picotm_slist_cleanup'):
            cb = args[1]
            out = [] 
            head = args[0]
            f = next((c for n, c in eng.targets(site.fn, cb) if c is not None), None) if cb[0] == 'F' else None
            if f is None:
                return Heap.default(self, eng, name, callee, args, st, site)
            item = ('Arg', 'struct picotm_slist*', 90 + len(self.items), 'item')
            self.items.append(item)
            for x in eng.run(f, (item,) + tuple(args[2:]), st, (site.id,) + site.ctx):
                out.append((I0, x.st))
                self.item(eng, head, item, x.st, site)
                if not any(x.st.err.values()):
                    self.more.append((bool(rng_values(eng, x) - {1}), site))
            return out
        if callee is not None and callee.lib in ('core',) and 'rwstate_try' not in name:
            return ErrPlugin.default(self, eng, name, callee, args, st, site)
        return Heap.default(self, eng, name, callee, args, st, site)

    def item(self, eng, head, item, st, site):
        if any(k for k in st.err.values()):
            return
        f = next((s for s in reversed(head[2]) if s[0] == 'f' and s[1] == 'struct.txlib_tx'), None) if head[0] == 'P' else None
        if f is None:
            return
        locked = any(x[0] == 'L' and x[1] == 'w' and item in mentions(x[3]) for x in st.ps)
        empty = any(c[0] == 'cmp' and (c[1] == 'eq') == (r[0] == r[1] == 1) and r[0] == r[1] and c[1] in ('eq', 'ne') and item in mentions(c) and any(selfref(x, y) for x, y in ((c[2], c[3]), (c[3], c[2]))) for c, r in st.facts.items())
        self.exits.append((self.prog.fieldname(f[1], f[2]), locked, empty, st, site))


def rng_values(eng, x):
    if x.ret is None or x.ret[0] == 'i':
        return {x.ret[1] if x.ret is not None else 0}
    lo, hi, ex = eng.getfact(x.st, x.ret)
    return {0} if lo <= 0 <= hi and 0 not in ex else set()


def selfref(x, y):
    """x is the first entry of the list with head y"""
    l = link(x[1]) if x[0] == 'L' else None
    return l is not None and l[3] == y


def run(prog, rep):
    learn(prog)
    primitives(prog)
    F = flow(prog)
    undo = apply = None
    tables = {}
    for op in ('undo_event', 'apply_event'):
        for m, cb in handlers(prog, op):
            if cb.lib != 'txlib':
                continue
            for d in dispatches(prog, F, cb):
                fs = [f for f, _ in d.chain] + [d.fn]
                f = next((f for f in fs if f.dty[1:] == ['struct txlib_event*', ERRT]), None)
                if f is None:
                    raise AnalysisBroken('no function takes an event of a container for ' + op)
                tables[op] = (f, d.table)
    if len(tables) != 2:
        raise AnalysisBroken('the handlers of container events were not found')
    undo = tables['undo_event'][0]
    roots = sorted((f for f in prog.fns.values() if f.lib == 'txlib' and exported(f) and any(f.dty[1:2] == ['struct tx%s*' % k] for k in KINDS)), key=lambda f: f.name)
    n = t = ch = 0
    pushes = {}
    for f in roots:
        pl = Op(prog, undo, rep)
        e = Engine(prog, pl, budget=400000)
        e.run_root(f)
        for (rule, key, ok), v in sorted(pl.out.items(), key=str):
            if ok:
                rep.count(rule, v[0])
            else:
                rep.ob(rule, False, '%s:%s' % (f.name, key), v[1][0], '%s: %s' % (f.name, v[1][1]), v[1][2])
        n += pl.records
        t += pl.touched
        ch += pl.changed
        if f.name in ('txqueue_push_tx', 'txstack_push_tx'):
            pushes[f.name[2:7]] = pl.ops
    for k, w in sorted(MPRIM.items()):
        pl = Tree(prog)
        Engine(prog, pl, budget=400000).run_root(prog.fns[k])
        for m, st, site in pl.bad:
            rep.ob('links', False, '%s:%s' % (prog.fns[k].name, m), site.where, '%s: %s' % (prog.fns[k].name, m), trace_list(st))
        rep.count('links', pl.n)
    publish(prog, rep, pushes, *tables['apply_event'])
    prepare(prog, rep)
    rep.floor('operations', len(roots), 20)
    rep.floor('accesses to containers', t, 40)
    rep.floor('recorded operations', n, 10)
    rep.floor('recorded operations that change links', ch, 10)
    rep.floor('primitives of the multiset', len(MPRIM), 2)


def publish(prog, rep, pushes, fn, table):
    """moving local entries to the shared container"""
    n = 0
    for k in ('queue', 'stack'):
        if len(pushes.get(k, ())) != 1:
            raise AnalysisBroken('pushing to a %s records the events %s' % (k, sorted(pushes.get(k, ()))))
        op = next(iter(pushes[k]))
        if op >= len(table.el) or table.el[op] is None:
            rep.ob('publish', False, k, fn.loc(), 'entries that are pushed to a %s are not published' % k)
            continue
        h = table.el[op]
        if h.dty[1:] != ['struct txlib_event*', ERRT]:
            raise AnalysisBroken('%s does not take an event' % h.name)
        pl = Publish(prog)
        e = Engine(prog, pl)
        a = e.default_args(h)
        m = {}
        st0 = None
        oa = ('P', a[0], (('f', 'struct.txlib_event', -1 - OFF['struct.txlib_event', prog.fieldidx('struct.txlib_event', 'op')]),))
        e.plugin.init(e, h)
        from ..engine import State
        e.memo = {}
        e.run(h, tuple(a), State({}, {oa: ('i', op)}, {}, frozenset()), ())
        moved = 0
        for st, site in pl.exits:
            if any(x for x in st.err.values()):
                continue
            n += 1
            sto = {x: v for x, v in st.mem.items() if link(x)}
            ent = entry_of(sto, st, a[0])
            # the local head
            loc = localhead(sto, st, k)
            what = None
            if not sto:
                # nothing is moved: the entry must not be the next one
                fact = [c for c, r in st.facts.items() if c[0] == 'cmp' and (c[1] == 'ne') == (r[0] == 1) and c[1] in ('eq', 'ne')]
                if k == 'queue':
                    good = any(isfront(x, y) for c in fact for x, y in ((c[2], c[3]), (c[3], c[2])))
                else:
                    good = any(isbottom(x, y) for c in fact for x, y in ((c[2], c[3]), (c[3], c[2])))
                if not good:
                    what = 'is not published although it may be the next one'
            else:
                moved += 1
                fact = [c for c, r in st.facts.items() if c[0] == 'cmp' and (c[1] == 'eq') == (r[0] == 1) and c[1] in ('eq', 'ne')]
                test = isfront if k == 'queue' else isbottom
                good = any(test(x, y) for c in fact for x, y in ((c[2], c[3]), (c[3], c[2])))
                if not good:
                    what = 'is published without testing that it is the next one'
                for x, w in linkcheck(e, st):
                    if w.startswith('the link'):
                        what = what or w
                sh = [x for x in sto if heads(x)[0] and link(x)[1] == 'prev' and isheadentry(link(x)[3])]
                if not sh:
                    what = what or 'is not put at the end of the shared container'
                for x in sh:
                    en = sto[x]
                    pa = of_entry(en, k, 'prev')
                    if at(e, st, pa) != ('L', x):
                        what = what or 'is put in front of other entries'
                    if not any(v == en for v in [ev for ev in st_entry(st, a[0])]):
                        what = what or 'is not the recorded entry'
                    if k == 'stack':
                        if not any(v == ('L', pa) and y != pa for y, v in sto.items()):
                            what = what or 'is not removed from the local stack'
                    else:
                        nx, pv = ('L', of_entry(en, k, 'next')), ('L', pa)
                        if at(e, st, of_entry(nx, k, 'prev')) != pv or at(e, st, of_entry(pv, k, 'next')) != nx:
                            what = what or 'is not removed from the local queue'
            rep.ob('publish', what is None, '%s:%s' % (k, what), site.where, 'an entry that was pushed to a %s %s' % (k, what), trace_list(st))
        rep.ob('publish', moved > 0, k + ':never', h.loc(), 'entries that are pushed to a %s are not published' % k)
    rep.floor('ways through the publication of entries', n, 4)


def st_entry(st, ev):
    """values that were loaded from the event"""
    out = set()
    for x in list(st.mem) + list(st.mem.values()) + list(st.facts):
        for v in mentions(x):
            if v[0] == 'L' and v[1][0] == 'P' and v[1][1] == ev:
                out.add(v)
    return out


def entry_of(sto, st, ev):
    return None


def localhead(sto, st, k):
    return None


def isheadentry(e):
    return e[0] == 'P' and shared(e) is not None


def islocal(e):
    return e[0] == 'P' and shared(e) is None and any(s[0] == 'f' and s[1].startswith('struct.tx') and s[1].endswith('_tx') for s in e[2])


def isfront(x, y):
    """y is the first entry of the local queue"""
    l = link(y[1]) if y[0] == 'L' else None
    return l is not None and l[1] == 'next' and islocal(l[3])


def isbottom(x, y):
    """y is x's predecessor in the local stack: the head"""
    l = link(y[1]) if y[0] == 'L' else None
    return l is not None and l[1] == 'prev' and islocal(x)


def prepare(prog, rep):
    n = 0
    seen = {}
    for m, cb in handlers(prog, 'prepare_commit'):
        if cb.lib != 'txlib':
            continue
        pl = Prepare(prog)
        Engine(prog, pl).run_root(cb)
        for f, locked, empty, st, site in pl.exits:
            n += 1
            seen.setdefault(f, 0)
            if locked:
                seen[f] += 1
            rep.ob('prepare', locked or empty, '%s:%s' % (cb.name, f), site.where, 'a container with local entries is committed without its writer lock', trace_list(st))
        for stop, site in pl.more:
            rep.ob('prepare', not stop, '%s:walk' % cb.name, site.where, 'the locks of further containers are not obtained')
        for k in ('queue', 'stack'):
            rep.ob('prepare', any(k in f and c for f, c in seen.items()), '%s:%s' % (cb.name, k), cb.loc(), 'committing takes no writer lock of the %ss with local entries' % k)
    rep.floor('ways to prepare a container', n, 4)
