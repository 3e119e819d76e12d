"""P11: loads, stores, copies and privatization of transactional memory; commit and rollback of its pages"""
import multiprocessing
import os
from .. import build
from ..bytedom import Interp, State, Stop, L, sym, addl, byte, TOP, kbits, UNINIT
from .p25 import handlers

EXPLANATION = ("Every entry point of the transactional memory and the module's apply, undo and finish callbacks are interpreted abstractly, byte by byte, "
               "from every state that a transaction's page can be in (absent, unlocked, reader- or writer-locked, written through, discarded; the byte "
               "loaded or not) and for every offset and length within a block, block-crossing lengths, and unbounded lengths by one inductive step.  "
               "Three contents are compared before and after: what the transaction sees, what a commit leaves in memory, and what a rollback leaves.")

R = 5                     # the first block, within its table of frames
FAR = 40                  # distance of the second region (copies)
WT, DISC = 1, 2


class Layout:
    def __init__(self, prog):
        off = lambda s, f: prog.structs[s]['el'][prog.fieldidx(s, f)][0]
        P = 'struct.tm_page'
        self.flags, self.rw, self.buf, self.bits, self.list = [off(P, f) for f in ('flags', 'rwstate', 'buf', 'buf_bits', 'list')]
        self.block = prog.structs[P]['el'][prog.fieldidx(P, 'buf')][2]
        self.active, self.free, self.vmem = [off('struct.tm_vmem_tx', f) for f in ('active_pages', 'alloced_pages', 'vmem')]
        self.fsize = prog.structs['struct.tm_frame']['size']
        self.fflags = off('struct.tm_frame', 'flags')
        self.flock = off('struct.tm_frame', 'rwlock')
        self.wt = prog.enum('TM_PAGE_FLAG_WRITE_THROUGH', True) or WT
        self.disc = prog.enum('TM_PAGE_FLAG_DISCARDED', True) or DISC
        self.rws = [prog.enum('PICOTM_RWSTATE_' + n) for n in ('UNLOCKED', 'RDLOCKED', 'WRLOCKED')]


class Dom:
    """the transactional memory as seen by the interpreter"""

    def __init__(self, prog, lay, frames):
        self.prog, self.lay, self.frames = prog, lay, frames
        self.bad = []
        self.aborts = []
        self.unknowns = {}
        self.iters = []
        self.limit = None
        self.size = None

    def least(self, s):
        return 16 if s == 'S' else 2 if s == 'T' else 1 if s == 'c' else 1 << 20

    def isobject(self, s):
        return s not in ('T', 'K', 'S', 'c')

    # ---- memory map
    def page(self, a):
        """(page object, offset) if a is inside a page"""
        if len(a[2]) == 1 and a[2][0][1] == 1 and a[2][0][0][:1] in 'pM':
            return a[2][0][0], a[1]
        return None

    def ismem(self, a):
        return len(a[2]) == 1 and a[2][0] == ('T', 8192)

    def isuser(self, a):
        return len(a[2]) == 1 and a[2][0] == ('Q', 1)

    def bytewise(self, a):
        p = self.page(a)
        return self.ismem(a) or self.isuser(a) or (p is not None and self.lay.buf <= p[1] < self.lay.buf + self.lay.block)

    def control(self, a, sz):
        if self.bytewise(a):
            return False
        p = self.page(a)
        return not (p is not None and p[1] == self.lay.bits)

    def cell(self, I, a, sz, st, loc):
        if sz == 1:
            if self.ismem(a):
                return byte(('m', a[1]))
            if self.isuser(a):
                return byte(('q', a[1]))
            p = self.page(a)
            if p and self.lay.buf <= p[1] < self.lay.buf + self.lay.block:
                return byte(UNINIT)
        t = a[2][0][0] if len(a[2]) == 1 else ''
        if t.startswith('TBL') and a[1] % self.lay.fsize == self.lay.fflags and sz == 8:
            n = int(t[3:])
            v = self.frames.get(a[1] // self.lay.fsize)
            if v is None or v[0] != 'l':
                return TOP
            r = L(v[1])
            for s, c in v[2]:
                r = addl(r, ('l', c * n, (('T', c),)) if s == 'K' else sym(s, c))
            return r
        return TOP

    def access(self, I, kind, a, sz, st, loc):
        if not self.ismem(a):
            return
        b = block_of(a[1])
        pg = find(self, st, b)
        rw = rwof(self, st, pg)
        if kind == 'read' and rw not in (1, 2):
            self.bad.append(('locked', 'reads memory of a block without a lock on its frame', loc))
        elif kind == 'write' and rw != 2:
            self.bad.append(('locked', 'writes memory of a block without the writer lock on its frame', loc))

    def lost(self, I, st, loc):
        self.unknowns[('store', loc)] = 1

    def unknown(self, name, loc):
        self.unknowns[(name, loc)] = 1

    def decide(self, tok, st):
        """comparison of a byte with the unknown terminator"""
        if UNINIT in tok:
            self.bad.append(('data', 'compares a byte that has not been loaded with the terminator', '?'))
        if self.limit is not None:
            for t in tok:
                if isinstance(t, tuple) and t[1] >= self.limit:
                    return True
        return None

    def backedge(self, I, fn, b, t, env, st, depth):
        if self.size is None:
            return False
        if not self.bounded_by(I, fn, b, t, env):
            return False
        deltas = []
        for i in fn.blocks[t]:
            if i['op'] != 'phi':
                break
            new = [I.val(o, env, fn) for pb, o in i['in'] if pb == b]
            old = env.get(i['i'])
            if new and old and old[0] == 'l' and new[0][0] == 'l':
                d = addl(new[0], old, -1)
                deltas.append(d[1] if not d[2] else None)
        self.iters.append((st, deltas, fn.loc(fn.blocks[t][0])))
        return True

    def bounded_by(self, I, fn, b, t, env):
        """the loop's iterations depend on the unknown length"""
        loop, todo = {t}, [b]
        while todo:
            x = todo.pop()
            if x not in loop:
                loop.add(x)
                todo += fn.pred[x]
        for x in loop:
            for i in fn.blocks[x]:
                if i['op'] == 'icmp':
                    for o in i['args']:
                        v = I.val(o, env, fn)
                        if v[0] == 'l' and any(s == 'S' for s, _ in v[2]):
                            return True
        return False

    # ---- calls
    def call(self, I, name, callee, args, st, loc, depth, i):
        lay = self.lay
        if name.startswith('picotm_error_'):
            e = next((a[2] for a in args if a[0] == 'l' and a[2]), ())
            if name == 'picotm_error_is_set':
                return [(L(1 if e in st.err else 0), st)]
            if name.startswith('picotm_error_set_'):
                st.err |= frozenset([e])
            elif name == 'picotm_error_clear':
                st.err -= frozenset([e])
            return [(TOP, st)]
        if name.startswith('picotm_recover_from_'):
            self.aborts.append((st, loc))
            return []
        if name == 'picotm_shared_treemap_find_value':
            out = []
            k = args[1]
            if k[0] == 'l' and k[2] == (('T', 1),):
                out.append((sym('TBL%d' % k[1]), st))
            else:
                self.unknown(name, loc)
                out.append((TOP, st))
            # a table exists once a lock of one of its frames is held
            for pg, b in pages(self, st):
                if b is not None and k[0] == 'l' and (b + R) // 1024 == k[1] and rwof(self, st, pg):
                    return out
            return out + self.failing(st, args[-1], name, L(0))
        if name in ('picotm_rwstate_try_rdlock', 'picotm_rwstate_try_wrlock', 'picotm_rwstate_unlock'):
            key = (args[0][2], args[0][1], 1) if args[0][0] == 'l' else None
            cur = st.ctl.get(key)
            if cur is None or cur[0] != 'l':
                self.bad.append(('locked', '%s is called on a lock state that is not initialised' % name, loc))
                return [(TOP, st)]
            if not self.rightframe(st, args):
                self.bad.append(('locked', '%s is called with the frame of a different block' % name, loc))
            if name.endswith('unlock'):
                st.ctl[key] = L(lay.rws[0])
                return [(TOP, st)]
            want = 1 if name.endswith('rdlock') else 2
            if lay.rws.index(cur[1]) >= want:
                return [(TOP, st)]
            bad = self.failing(st, args[-1], name, TOP)
            st.ctl[key] = L(lay.rws[want])
            return [(TOP, st)] + bad
        if name == 'picotm_rwstate_get_status':
            v = st.ctl.get((args[0][2], args[0][1], 1)) if args[0][0] == 'l' else None
            if v is None:
                self.bad.append(('locked', 'the lock state of a page is read before it is initialised', loc))
                return [(TOP, st)]
            return [(v, st)]
        if name == 'picotm_rwstate_init':
            st.ctl[(args[0][2], args[0][1], 1)] = L(lay.rws[0])
            return [(TOP, st)]
        if name == 'picotm_rwstate_uninit':
            return [(TOP, st)]
        if name == 'malloc':
            s2 = st.copy()
            n = st.ctl.get(((), 0, 0), L(0))[1]
            st.ctl[((), 0, 0)] = L(n + 1)
            out = [(sym('M%d' % n), st)]
            if s2.fail is None:
                s2.fail = 'malloc'
                out.append((L(0), s2))
            return out
        if name in ('free', '__assert_fail', 'abort'):
            return [(TOP, st)] if name == 'free' else []
        if name == 'memchr':
            return self.memchr(I, args, st, loc)
        if name == 'memset' or name == 'llvm.memset.p0.i64':
            return [(args[0], st)]
        if callee is not None and callee.dty and callee.dty[0] and callee.dty[0].replace(' ', '') == 'structtm_module*':
            return [(sym('TM'), st)] + self.failing(st, args[-1], name, L(0))
        if callee is not None and callee.dty and callee.dty[0] and 'thread_state' in name:
            return [(sym('TS'), st)]
        return None

    def failing(self, st, e, name, val):
        if st.fail is not None or e[0] != 'l' or not e[2]:
            return []
        s2 = st.copy()
        s2.err |= frozenset([e[2]])
        s2.fail = name
        return [(val, s2)]

    def rightframe(self, st, args):
        lay = self.lay
        a = args[1]
        if a[0] != 'l' or len(a[2]) != 1 or not a[2][0][0].startswith('TBL'):
            return False
        n = int(a[2][0][0][3:])
        idx, o = divmod(a[1] - lay.flock, lay.fsize)
        pg = self.page(args[0])
        if o or pg is None or pg[1] != lay.rw:
            return False
        f = st.ctl.get((((pg[0], 1),), lay.flags, 8))
        return f is not None and f[0] == 'l' and f[2] == (('T', 8192),) and f[1] // 8 == 1024 * n + idx

    def memchr(self, I, args, st, loc):
        p, n = args[0], args[2]
        if p[0] != 'l' or n[0] != 'l' or n[2]:
            return [(TOP, st)]
        out = []
        for k in range(n[1]):
            v = I.load(addl(p, L(k)), 1, st, loc)
            tok = next(iter(v[1])) if v[0] == 'b' and len(v[1]) == 1 else None
            if tok is None or any(UNINIT in x for x in v[1]):
                self.bad.append(('data', 'searches bytes that have not been loaded', loc))
                return [(TOP, st)]
            d = next((t for x, t in st.facts if x == tok), None)
            if d is None:
                d = self.decide(tok, st)
            if d is not False:
                s2 = st.copy()
                s2.facts |= frozenset([(tok, True)])
                out.append((addl(p, L(k)), s2))
                if d:
                    return out
            st.facts |= frozenset([(tok, False)])
        out.append((L(0), st))
        return out


# ---------------------------------------------------------------- reading a state
def block_of(c):
    return (c - 8 * R) // 8


def pages(D, st):
    """[(page, block relative to R or None)] of the list of active pages"""
    lay = D.lay
    out = []
    k = st.ctl.get(((('TM', 1),), lay.active, 8))
    head = sym('TM', 1, lay.active)
    for _ in range(40):
        if k is None or k[0] != 'l' or not k[2]:
            return out + [(None, None)]
        if k == head:
            return out
        pg = k[2][0][0]
        f = st.ctl.get((((pg, 1),), lay.flags, 8))
        out.append((pg, (f[1] // 8 - R) if f is not None and f[0] == 'l' and f[2] == (('T', 8192),) else None))
        k = st.ctl.get((k[2], k[1], 8))
    return out + [(None, None)]


def find(D, st, b):
    for pg, n in pages(D, st):
        if n == b:
            return pg
    return None


def rwof(D, st, pg):
    if pg is None:
        return 0
    v = st.ctl.get((((pg, 1),), D.lay.rw, 1))
    return D.lay.rws.index(v[1]) if v is not None and v[0] == 'l' and v[1] in D.lay.rws else None


def flagsof(D, st, pg):
    if pg is None:
        return 0
    f = st.ctl.get((((pg, 1),), D.lay.flags, 8))
    return f[1] & 7 if f is not None and f[0] == 'l' else None


def bitof(D, st, pg, k):
    v = st.mem.get((((pg, 1),), D.lay.bits, 1))
    kb = kbits(v) if v is not None and v[0] in 'kl' else None
    if kb is None or not kb[1] >> k & 1:
        return None
    return kb[2] >> k & 1


def memcell(st, b, k):
    o = 8 * (R + b) + k
    return st.mem.get(((('T', 8192),), o, 1), byte(('m', o)))[1]


def index(D, st):
    return {b: (pg, flagsof(D, st, pg), rwof(D, st, pg)) for pg, b in reversed(pages(D, st)) if pg is not None}


def view(D, st, kind, b, k, idx=None):
    lay = D.lay
    if idx is None:
        idx = index(D, st)
    mem = memcell(st, b, k)
    if b not in idx:
        return mem
    pg, f, rw = idx[b]
    if f is None or rw is None:
        return mem | frozenset([frozenset([UNINIT])])
    if kind == 'tx':
        use = not f & lay.wt and rw
    elif kind == 'commit':
        use = rw == 2 and not f & (lay.wt | lay.disc)
    else:
        use = rw == 2 and f & lay.wt
    if not use:
        return mem
    bit = bitof(D, st, pg, k)
    buf = st.mem.get((((pg, 1),), lay.buf + k, 1), byte(UNINIT))[1]
    return mem if bit == 0 else buf if bit == 1 else buf | mem


# ---------------------------------------------------------------- initial states
# (name, lock, flags, byte loaded); None: the transaction has no page for the block
STATES = [None,
          ('unlocked', 0, 0, 0),
          ('read', 1, 0, 0), ('read, loaded', 1, 0, 1),
          ('read, written through', 1, WT, 0), ('read, written through, loaded', 1, WT, 1),
          ('written', 2, 0, 0), ('written, loaded', 2, 0, 1),
          ('written through', 2, WT, 0), ('written through, saved', 2, WT, 1),
          ('discarded', 2, DISC, 0), ('discarded, loaded', 2, DISC, 1),
          ('written through, discarded', 2, WT | DISC, 0), ('written through, discarded, saved', 2, WT | DISC, 1)]


def initial(D, layout, uniform, spare=False):
    """layout: [(block, state, tracked byte)] in ascending order; the tracked byte's bit is known, the others are not (or the same, if uniform)"""
    lay = D.lay
    st = State()
    TM = (('TM', 1),)
    st.ctl[(TM, lay.vmem, 8)] = sym('VM')
    chain = [sym('TM', 1, lay.active)]
    for b, s, t in layout:
        if s is None:
            continue
        _, rw, fl, bit = s
        fl = (lay.wt if fl & WT else 0) | (lay.disc if fl & DISC else 0)
        pg = 'p%d' % b
        P = ((pg, 1),)
        st.ctl[(P, lay.flags, 8)] = ('l', 8 * (R + b) + fl, (('T', 8192),))
        st.ctl[(P, lay.rw, 1)] = L(lay.rws[rw])
        if rw == 0:
            known, val = 0xff, 0
        elif uniform:
            known, val = 0xff, 0xff if bit else 0
        else:
            known, val = 1 << t, bit << t
        m = (1 << 64) - 1
        st.mem[(P, lay.bits, 1)] = ('k', known | (m & ~0xff), val) if known != 0xff else L(val)
        for k in range(8):
            o = 8 * (R + b) + k
            tok = ('b', o) if rw == 2 else ('m', o)
            kn = known >> k & 1
            if kn and not val >> k & 1:
                v = byte(UNINIT)
            else:
                v = byte(tok)
            st.mem[(P, lay.buf + k, 1)] = v
        st.ctl[(chain[-1][2], chain[-1][1], 8)] = sym(pg, 1, lay.list)
        chain.append(sym(pg, 1, lay.list))
    st.ctl[(chain[-1][2], chain[-1][1], 8)] = sym('TM', 1, lay.active)
    free = sym('TM', 1, lay.free)
    if spare:
        # a page that was used before: nothing is known about its content
        st.ctl[(TM, lay.free, 8)] = sym('pS', 1, lay.list)
        st.ctl[((('pS', 1),), lay.list, 8)] = free
        st.mem[((('pS', 1),), lay.bits, 1)] = L(0xff)
    else:
        st.ctl[(TM, lay.free, 8)] = free
    return st


def addr(head, b=0):
    return ('l', 8 * (R + b) + head, (('T', 8192),))


# ---------------------------------------------------------------- specification
class Case:
    def __init__(self, D, st0, blocks):
        self.D, self.st0, self.blocks = D, st0, blocks
        idx = index(D, st0)
        self.old = {(kind, b, k): view(D, st0, kind, b, k, idx) for kind in ('tx', 'commit', 'undo') for b in blocks for k in range(8)}
        self.loose = {(b, k): b in idx and idx[b][2] != 0 and bitof(D, st0, idx[b][0], k) is None for b in blocks for k in range(8)}
        self.errs = []

    def err(self, rule, msg):
        self.errs.append((rule, msg))

    def where(self, b, k):
        return 'byte %d of block %+d' % (k, b)

    def same(self, st, kinds, rule, skip=(), what=None, clean=True):
        idx = index(self.D, st)
        for (kind, b, k), old in self.old.items():
            if kind not in kinds or (b, k) in skip:
                continue
            new = view(self.D, st, kind, b, k, idx)
            if self.loose[b, k]:
                # it is not known whether the byte was loaded: only values that belong to this byte
                old = self.old['tx', b, k] | self.old['commit', b, k] | self.old['undo', b, k] | frozenset([frozenset([UNINIT])])
            if not new <= old:
                self.err(rule, '%s changes what %s in %s' % (what or 'the operation', {'tx': 'the transaction sees', 'commit': 'a commit leaves', 'undo': 'a rollback leaves'}[kind], self.where(b, k)))
                return

    def ordered(self, st):
        l = pages(self.D, st)
        if any(n is None for _, n in l):
            self.err('pages', 'the list of pages is broken')
        elif any(x[1] >= y[1] for x, y in zip(l, l[1:])):
            self.err('pages', 'the list of pages is not in the order of the blocks, or holds two pages for one block')

    def touched(self, head, siz, base=0):
        return [(base + (head + n) // 8, (head + n) % 8) for n in range(siz)]

    def locks(self, st, bytes_, least, rule='locked'):
        for b in sorted({b for b, _ in bytes_}):
            rw = rwof(self.D, st, find(self.D, st, b))
            if rw is None or rw < least:
                self.err(rule, 'the transaction does not hold the %s lock of block %+d afterwards' % ('writer' if least == 2 else 'reader', b))

    def alive(self, bytes_):
        for b in sorted({b for b, _ in bytes_}):
            if flagsof(self.D, self.st0, find(self.D, self.st0, b)) & self.D.lay.disc:
                self.err('discarded', 'memory that the transaction has discarded is accessed without an error')

    # ---- operations
    def load(self, st, head, siz):
        by = self.touched(head, siz)
        self.alive(by)
        for n, (b, k) in enumerate(by):
            got = st.mem.get(((('Q', 1),), n, 1), byte(('q', n)))[1]
            if not got <= self.old['tx', b, k]:
                self.err('data', 'byte %d of the result is not the content of %s' % (n, self.where(b, k)))
                break
        self.extent(st, siz)
        self.same(st, ('tx', 'commit', 'undo'), 'data', what='a load')
        self.locks(st, by, 1)

    def extent(self, st, siz):
        for (t, o, sz), v in st.mem.items():
            if t == (('Q', 1),) and not 0 <= o < siz and v != byte(('q', o)):
                self.err('extent', 'byte %d of a result of %d bytes is written' % (o, siz))
                return

    def store(self, st, head, siz, base=0, src=None):
        by = self.touched(head, siz, base)
        self.alive(by)
        for n, (b, k) in enumerate(by):
            want = frozenset([frozenset([('q', n)])]) if src is None else src[n]
            for kind in ('tx', 'commit'):
                if not view(self.D, st, kind, b, k) <= want:
                    self.err('data', '%s does not reach what %s in %s' % ('byte %d of the value' % n, 'the transaction sees' if kind == 'tx' else 'a commit leaves', self.where(b, k)))
                    break
        self.same(st, ('tx', 'commit'), 'extent', skip=set(by), what='a store to other bytes')
        self.same(st, ('undo',), 'rollback', what='a store')
        self.locks(st, by, 2)
        # stored bytes stay in the transaction until the commit unless the page is written through
        for b, k in by:
            pg = find(self.D, st, b)
            if not (flagsof(self.D, st, pg) or 0) & self.D.lay.wt and not memcell(st, b, k) <= memcell(self.st0, b, k):
                self.err('isolated', 'a store reaches memory before the commit')
                break

    def loadstore(self, st, lhead, shead, siz):
        src = self.touched(lhead, siz)
        self.alive(src)
        self.locks(st, src, 1)
        self.store(st, shead, siz, FAR, [self.old['tx', b, k] for b, k in src])

    def privatize(self, st, by, flags, last=None):
        self.alive(by)
        lay = self.D.lay
        if flags == 0:
            self.locks(st, by, 2)
            for b in sorted({b for b, _ in by}):
                if not (flagsof(self.D, st, find(self.D, st, b)) or 0) & lay.disc:
                    self.err('discarded', 'block %+d is not marked as discarded' % b)
            self.same(st, ('undo',), 'rollback', what='discarding memory')
            whole = {(b, k) for b, _ in by for k in range(8)}
            self.same(st, ('tx', 'commit'), 'extent', skip=whole, what='discarding other blocks')
            return
        self.locks(st, by, 2 if flags & 2 else 1)
        for b, k in by:
            pg = find(self.D, st, b)
            if not (flagsof(self.D, st, pg) or 0) & lay.wt:
                self.err('through', 'block %+d is privatized but not written through' % b)
                break
            if not memcell(st, b, k) <= self.old['tx', b, k]:
                self.err('through', 'memory does not hold what the transaction sees in %s' % self.where(b, k))
                break
            if flags & 2 and bitof(self.D, st, pg, k) != 1:
                self.err('rollback', 'the content of %s is not saved before memory is handed out for writing' % self.where(b, k))
                break
        self.same(st, ('undo',), 'rollback', what='privatizing memory')
        self.same(st, ('tx', 'commit'), 'data', what='privatizing memory')

    def apply(self, st):
        for (kind, b, k), old in self.old.items():
            pg = find(self.D, self.st0, b)
            if kind == 'commit' and not (flagsof(self.D, self.st0, pg) & self.D.lay.disc and not flagsof(self.D, self.st0, pg) & self.D.lay.wt):
                if not memcell(st, b, k) <= old:
                    self.err('commit', 'after a commit memory does not hold the content of %s' % self.where(b, k))
                    break

    def undo(self, st):
        for (kind, b, k), old in self.old.items():
            if kind == 'undo' and not memcell(st, b, k) <= old:
                self.err('rollback', 'after a rollback memory does not hold the old content of %s' % self.where(b, k))
                break

    def finish(self, st):
        for pg, b in pages(self.D, self.st0):
            if rwof(self.D, st, pg) != 0:
                self.err('release', 'the lock of a page is still held after the transaction has finished')
                break
        if pages(self.D, st):
            self.err('release', 'a page remains with the transaction after it has finished')


# ---------------------------------------------------------------- driver
def frames_of(prog, lay, rep):
    """content of a new table of frames, for the key K"""
    F = None
    for f in prog.fns.values():
        if f.lib == 'tm' and not f.name.startswith('picotm') and f.blocks:
            for i in f.instrs():
                if i['op'] == 'call' and i['fn'] == ['F', 'picotm_shared_treemap_find_value']:
                    a = i['args'][2]
                    if a[0] == 'F':
                        F = prog.resolve(f, a[1])
    if F is None:
        raise build.AnalysisBroken('anchor vanished: the function that creates tables of frames')

    class FD(Dom):
        def control(self, a, sz):
            return not a[2][0][0].startswith('M')

        def bytewise(self, a):
            return False

        def call(self, I, name, callee, args, st, loc, depth, i):
            if name.startswith('picotm_rwlock'):
                return [(TOP, st)]
            return Dom.call(self, I, name, callee, args, st, loc, depth, i)

    D = FD(prog, lay, {})
    I = Interp(prog, D)
    I.loops = 1 << 20
    st = State()
    st.fail = 'none'
    out = {}
    for r, s in I.run(F, [sym('K'), sym('MAP'), sym('E')], st):
        if r[0] == 'l' and r[2]:
            for (t, o, sz), v in s.mem.items():
                if t == r[2] and sz == 8 and o % lay.fsize == lay.fflags:
                    out[o // lay.fsize] = v
    bad = [n for n in range(1024) if out.get(n) != ('l', 8 * n, (('K', 8192),))]
    rep.ob('frames', not bad, 'tables of frames', F.loc(), 'frame %s of a table does not refer to its own block' % (bad[0] if bad else '-'), [])
    return out


def run(prog, rep):
    deep = getattr(rep, "tier", "") == "thorough"
    lay = Layout(prog)
    if lay.block != 8:
        raise build.AnalysisBroken('blocks are not of 8 bytes')
    frames = frames_of(prog, lay, rep)
    entry = {n: prog.get('__picotm_tm_' + n, 'tm') for n in ('load', 'store', 'loadstore', 'privatize', 'privatize_c')}
    cbs = {}
    for op in ('apply', 'undo', 'finish'):
        h = [f for _, f in handlers(prog, op) if f.lib == 'tm']
        rep.ob('callbacks', bool(h), 'module', entry['load'].loc(), 'the module of the transactional memory has no %s callback' % op, [])
        cbs[op] = h[0] if h else None
    tasks = [('state', k) for k in range(len(STATES))] + [('rest', 0), ('edge', 0)]
    global JOB
    JOB = (prog, lay, frames, entry, cbs, deep)
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        parts = pool.map(work, tasks, 1)
    results, unknowns, stats = {}, {}, {}
    for r, u, t in parts:
        for k, v in r.items():
            for rule, msg in v.items():
                results.setdefault(k, {}).setdefault(rule, msg)
            results.setdefault(k, {})
        unknowns.update(u)
        for k, v in t.items():
            stats[k] = stats.get(k, 0) + v
    where = dict((n, f) for n, f in list(entry.items()) + list(cbs.items()) if f is not None)
    for (name, key), fails in sorted(results.items()):
        if not fails:
            rep.ob(name, True, key, where[name].loc(), '', [])
        for rule, msg in sorted(fails.items()):
            rep.ob(name, False, key + ', ' + rule, where[name].loc(), '%s [%s]: %s' % (name, key, msg), [])
    for k, v in stats.items():
        rep.stats[k] = v
    if not any(not ok for ok in [not v for v in results.values()]) and stats['gave up'] > stats['runs'] // 10:
        raise build.AnalysisBroken('%d of %d interpretations were given up' % (stats['gave up'], stats['runs']))
    rep.floor('abstract exits', stats['exits'] if not any(results.values()) else 3000, 3000)
    rep.stats['not modelled'] = sorted('%s at %s' % k for k in unknowns)[:20]


JOB = None


def work(task):
    global R
    prog, lay, frames, entry, cbs, deep = JOB
    R = 1022 if task[0] == 'edge' else 5        # the blocks cross the end of a table of frames
    results = {}
    unknowns = {}
    stats = {'runs': 0, 'steps': 0, 'exits': 0, 'aborts': 0, 'irregular': 0, 'gave up': 0}
    gave = {}

    def go(name, fn, args, layout, check, uniform=False, spare=False, limit=None, size=None):
        s = next((x[1] for x in layout if x[0] in (0, FAR)), None)
        key = '%s, page %s' % (name, s[0] if s else 'absent')
        fails = results.setdefault((name, key), {})
        D = Dom(prog, lay, frames)
        D.limit, D.size = limit, size
        st0 = initial(D, layout, uniform, spare)
        blocks = sorted({b for b, _, _ in layout} | set(range(0, 3)))
        C = Case(D, st0.copy(), blocks)
        I = Interp(prog, D)
        I.most = 60000
        if gave.get(name, 0) > 3:
            return []
        try:
            ends = I.run(fn, args, st0.copy())
        except Stop:
            ends = []
            D.aborts, D.iters = [], []
            stats['gave up'] += 1
            gave[name] = gave.get(name, 0) + 1
        stats['runs'] += 1
        stats['steps'] += I.steps
        unknowns.update(D.unknowns)
        for r, st in ends:
            if st.err:
                continue
            stats['exits'] += 1
            check(C, st, None)
            C.ordered(st)
        for st, loc in D.aborts:
            stats['aborts'] += 1
            C.same(st, ('undo',), 'rollback', what='a failing operation')
            C.ordered(st)
        for st, deltas, loc in D.iters:
            p = max([abs(d) for d in deltas if d is not None] or [0])
            if p and all(d in (0, p, -p) for d in deltas):
                check(C, st, p)
                C.ordered(st)
            else:
                stats['irregular'] += 1
        for rule, msg, loc in D.bad:
            C.err(rule, msg + (' (%s)' % loc if loc != '?' else ''))
        for rule, msg in C.errs:
            fails.setdefault(rule, msg)
        return ends

    mine = [STATES[task[1]]] if task[0] == 'state' else []
    Q = sym('Q')
    N1 = ('written, loaded', 2, 0, 1)

    def neighbours(s, t, base=0, n=3):
        return [(base - 4, N1, 0)] + [(base + k, s, t) for k in range(n)] + [(base + 9, N1, 0)]

    shapes = [(h, z) for h in range(8) for z in range(1, 9)]
    few = [(0, 8), (0, 1), (7, 1), (2, 3), (5, 6)]
    for s in mine:
        cases = [(h, z, h) for h, z in shapes] + [(h, z, t) for h, z in few for t in range(8) if t != h] + [(h, 17, h) for h in (0, 3, 7)]
        for h, z, t in cases:
            go('load', entry['load'], [addr(h), Q, L(z)], neighbours(s, t), lambda C, st, p: C.load(st, h, z))
            go('store', entry['store'], [addr(h), Q, L(z)], neighbours(s, t), lambda C, st, p: C.store(st, h, z))
            for fl in (1, 2, 3, 0):
                if fl in (1, 3) and (h, z) not in few and z != 17 and not deep:
                    continue
                go('privatize', entry['privatize'], [addr(h), L(z), L(fl)], neighbours(s, t), lambda C, st, p: C.privatize(st, C.touched(h, z), fl))
        for h in (0, 5):
            S = sym('S')
            go('load', entry['load'], [addr(h), Q, S], neighbours(s, h), lambda C, st, p: p and C.load(st, h, p), size=1)
            go('store', entry['store'], [addr(h), Q, S], neighbours(s, h), lambda C, st, p: p and C.store(st, h, p), size=1)
            for fl in (0, 1, 2, 3):
                go('privatize', entry['privatize'], [addr(h), S, L(fl)], neighbours(s, h), lambda C, st, p: p and C.privatize(st, C.touched(h, p), fl), size=1)
    # copies: both regions
    for s in mine:
        for s2 in ([None, STATES[3], STATES[7], STATES[9]] if not deep else STATES):
            for lh, sh, z in [(0, 0, 8), (0, 3, 8), (5, 0, 7), (2, 6, 11), (7, 7, 1), (3, 3, 2)]:
                lay2 = [(-4, N1, 0)] + [(k, s, lh) for k in range(3)] + [(9, N1, 0)] + [(FAR + k, s2, sh) for k in range(3)]
                go('loadstore', entry['loadstore'], [addr(lh), addr(sh, FAR), L(z)], lay2, lambda C, st, p: C.loadstore(st, lh, sh, z))
                if s2 != s:
                    lay2 = [(-4, N1, 0)] + [(k, s2, lh) for k in range(3)] + [(9, N1, 0)] + [(FAR + k, s, sh) for k in range(3)]
                    go('loadstore', entry['loadstore'], [addr(lh), addr(sh, FAR), L(z)], lay2, lambda C, st, p: C.loadstore(st, lh, sh, z))
        lay2 = neighbours(s, 0) + [(FAR + k, s, 0) for k in range(3)]
        go('loadstore', entry['loadstore'], [addr(0), addr(0, FAR), sym('S')], lay2, lambda C, st, p: p and C.loadstore(st, 0, 0, p), size=1)
    # strings
    for s in mine:
        for h in (0, 3, 7):
            for fl in (0, 1, 2, 3):
                lim = 8 * R + 11

                def chk(C, st, p, h=h, fl=fl):
                    tv = dict(st.facts)
                    by = C.touched(h, 32)
                    for n, (b, k) in enumerate(by):
                        tok = next(iter(C.old['tx', b, k])) if (C.old.get(('tx', b, k))) else None
                        if tv.get(tok) is True or 8 * (R + b) + k >= lim:
                            C.privatize(st, by[:n + 1], fl)
                            return
                        if tv.get(tok) is None:
                            C.alive(by[:1])
                            C.err('extent', 'privatization ends at %s, which has not been compared with the terminator' % C.where(b, k))
                            return
                go('privatize_c', entry['privatize_c'], [addr(h), sym('c'), L(fl)], neighbours(s, h), chk, uniform=True, limit=lim)
    if task[0] == 'edge':
        for s in (None, STATES[3], STATES[7], STATES[9]):
            for h, z in few + [(0, 17), (3, 17)]:
                go('load', entry['load'], [addr(h), Q, L(z)], neighbours(s, h), lambda C, st, p: C.load(st, h, z))
                go('store', entry['store'], [addr(h), Q, L(z)], neighbours(s, h), lambda C, st, p: C.store(st, h, z))
                go('privatize', entry['privatize'], [addr(h), L(z), L(2)], neighbours(s, h), lambda C, st, p: C.privatize(st, C.touched(h, z), 2))
    # pages that the transaction has used before
    for h, z in few if task[0] == 'rest' else []:
        alone = [(k, None, 0) for k in range(3)]
        go('load', entry['load'], [addr(h), Q, L(z)], alone, lambda C, st, p: C.load(st, h, z))
        go('store', entry['store'], [addr(h), Q, L(z)], alone, lambda C, st, p: C.store(st, h, z))
        go('privatize', entry['privatize'], [addr(h), L(z), L(2)], alone, lambda C, st, p: C.privatize(st, C.touched(h, z), 2))
        go('load', entry['load'], [addr(h), Q, L(z)], alone, lambda C, st, p: C.load(st, h, z), spare=True)
        go('store', entry['store'], [addr(h), Q, L(z)], alone, lambda C, st, p: C.store(st, h, z), spare=True)
    # commit, rollback, end
    for s in mine:
        for t in range(8):
            for op, cb in cbs.items():
                if cb is not None:
                    ends = go(op, cb, [sym('TM'), sym('E')], neighbours(s, t), lambda C, st, p: getattr(C, op)(st))
    for op, cb in cbs.items():
        if cb is not None:
            for s in mine:
                go(op, cb, [sym('TM'), sym('E')], neighbours(s, 0), lambda C, st, p: getattr(C, op)(st), uniform=True)
    return results, unknowns, stats
