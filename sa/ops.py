"""Path-sensitive walk through the operations of the libc module, from the interface down to the system calls.

Every root (an interface function) is analysed with its helpers and the operation tables of the file types in place.  The state of a path holds the
transactional locks that are held, what has been recorded in the transaction log, which effects have happened, whether the transaction is irrevocable
and which file type the path is about."""
import re
import os
from .build import AnalysisBroken, REPO
from .engine import Engine, State, I0, I1, UNDEF, base_of, root_of, mentions, trace_list, ERR_SET, ERR_QUERY, ERR_CLEAR
from .flow import flow
from .events import recorders
from .locks import JUMP
from .checks.errflow import ErrPlugin, errparams, pure, ZERO, NEGATIVE, NULLRES, NONZERO

RD, WR, GET = 'picotm_rwstate_try_rdlock', 'picotm_rwstate_try_wrlock', 'picotm_rwstate_get_status'
RAWRD, RAWWR = 'picotm_rwlock_try_rdlock', 'picotm_rwlock_try_wrlock'
# system calls with an effect on descriptors, files or the process
FDOPS = set('accept bind close connect dup dup2 fchmod fcntl fdatasync fstat fsync listen lseek open openat pipe pipe2 pread pwrite read recv recvfrom recvmsg '
            'send sendto sendmsg shutdown socket write ftruncate mkstemp mkostemp readv writev'.split())
PATHOPS = set('chdir chmod link mkdir mkdtemp mkfifo mknod rename rmdir symlink unlink'.split())
LOCALEOPS = set('setlocale uselocale newlocale duplocale freelocale localeconv'.split())
CWDOPS = set('getcwd get_current_dir_name realpath'.split())
OUTPUT = set('vprintf vfprintf vdprintf perror fprintf printf puts fputs putchar fwrite fputc vwarn warn'.split())
STOPS = {'abort', '__assert_fail'}
HEAP = set('malloc calloc realloc posix_memalign free'.split())
OTHER = set('select sleep usleep sched_yield nanosleep'.split())
EFFECTS = FDOPS | PATHOPS | LOCALEOPS | CWDOPS


def enums(prog=None):
    """enumerators of the project's headers: name -> value"""
    out = {}
    where = [x for d in ('src', 'include') for x in os.walk(os.path.join(REPO, 'modules', 'libc', d))]
    for root, dirs, files in where:
        for f in files:
            if f.endswith(('.h', '.c')):
                t = open(os.path.join(root, f), errors='replace').read()
                t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
                t = re.sub(r'//[^\n]*', ' ', t)
                for m in re.finditer(r'\benum\b\s*\w*\s*\{([^}]*)\}', t):
                    v = 0
                    for e in m.group(1).split(','):
                        e = e.strip()
                        if not e:
                            continue
                        k = re.match(r'(\w+)\s*(?:=\s*(.+))?$', e, re.S)
                        if not k:
                            continue
                        if k.group(2):
                            try:
                                v = int(k.group(2).strip(), 0)
                            except ValueError:
                                v = out.get(k.group(2).strip(), v)
                        out[k.group(1)] = v
                        v += 1
    return out


def rwfield(a):
    """(struct, index value, address of the object) of an element of a member array"""
    if a[0] != 'P':
        return None
    st = list(a[2])
    idx = I0
    while st and st[-1][0] == 'x':
        idx = st[-1][1]
        st.pop()
    if not st or st[-1][0] != 'f':
        return None
    s = st[-1][1]
    st.pop()
    base = ('P', a[1], tuple(st)) if st else a[1]
    return s, idx, base


class OpsPlugin(ErrPlugin):
    track_heap = True
    max_block_states = 150
    max_depth = 16

    def __init__(self, prog, rules, rel, stop):
        ErrPlugin.__init__(self, prog)
        self.rules, self.rel, self.stop = rules, rel, stop
        self.F = flow(prog)
        self.recs = {r.fn.key: r for r in recorders(prog, self.F)}
        self.sites = set()
        self.tables = file_tables(prog)
        rules.plugin = self

    def init(self, eng, root):
        self.root = root
        return frozenset()

    def keep(self, ps):
        out = []
        for x in ps:
            for y in x[1:]:
                if isinstance(y, tuple) and y and isinstance(y[0], str):
                    out.append(y)
                elif isinstance(y, tuple):
                    out += [z for z in y if isinstance(z, tuple) and z and isinstance(z[0], str)]
        return out

    def failedres(self, v, st):
        return None

    def on_recover(self, eng, name, e, st, site):
        if name in JUMP:
            self.rules.leave(self, eng, st, site, name)
            return []
        return ErrPlugin.on_recover(self, eng, name, e, st, site)

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def overwrite(self, eng, st, site, e, old, kind):
        self.rules.overwrite(self, eng, st, site, e, old, kind)

    def small(self, site, callee):
        return False

    # -- locks
    def locks(self, st):
        return [x for x in st.ps if x[0] == 'L']

    def addlock(self, st, mode, f):
        s, idx, base = f
        new = set(st.ps)
        for x in st.ps:
            if x[0] == 'L' and x[2:] == (s, idx, base):
                if x[1] == 'w' or x[1] == mode:
                    return st
                new.discard(x)
        new.add(('L', mode, s, idx, base))
        return st.with_(ps=frozenset(new))

    def heldmode(self, st, f):
        for x in st.ps:
            if x[0] == 'L' and x[2:] == f:
                return x[1]
        return None

    def hasflag(self, st, name):
        for x in st.ps:
            if x[0] == name:
                return x[1]
        return None

    def fork(self, R, st, variants):
        out = []
        st = st.kill(R)
        for rng, g in variants:
            f = dict(st.facts)
            f[R] = rng
            s = g(st.with_(facts=f))
            if s is not None:
                out.append((R, s))
        return out

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        R = ('R', name, site.id, site.ctx)
        if name in JUMP:
            self.rules.leave(self, eng, st, site, name)
            return []
        if name == 'picotm_is_irrevocable':
            known = self.hasflag(st, 'IRR')
            if known is not None:
                return [(known, st)]
            return [(v, st.with_(ps=st.ps | {('IRR', v)})) for v in (I0, I1)]
        if name in (RD, WR) and callee is not None:
            self.sites.add(site.id)
            f = rwfield(args[0])
            mode = 'r' if name == RD else 'w'
            self.rules.lock(self, eng, st, site, mode, f, args)
            bad = st.seterr(args[2], (frozenset({'conflicting'}), name, site.where, False)).note(site.where, 'lock attempt fails')
            if f is None:
                return [(UNDEF, st), (UNDEF, bad)]
            held = self.heldmode(st, f)
            ok = self.addlock(st, mode, f)
            if held is None:
                ok = self.rules.acquired(self, eng, ok, site, mode, f)
                ok = ok.note(site.where, 'locks %s' % self.lname(mode, f))
            elif held == 'r' and mode == 'w':
                ok = ok.note(site.where, 'upgrades %s' % self.lname(mode, f))
            out = [(UNDEF, ok)]
            if not (held == 'w' or held == mode):
                out.append((UNDEF, bad))
            return out
        if name == GET and callee is not None:
            f = rwfield(args[0])
            if f is None:
                return [(R, st.kill(R))]
            held = self.heldmode(st, f)
            vs = []
            sure = ('U',) + f in st.ps
            if held is None:
                vs.append(((0, 0, frozenset()), lambda s: s.with_(ps=s.ps | {('U',) + f})))
                vs.append(((1, 1, frozenset()), lambda s: self.rules.already(self, self.addlock(s, 'r', f), f).note(site.where, '%s is held already' % self.lname('r', f))))
            elif held == 'r':
                vs.append(((1, 1, frozenset()), lambda s: s))
            if held != 'r' or not sure:
                vs.append(((2, 2, frozenset()), lambda s: (self.rules.already(self, self.addlock(s, 'w', f), f) if held is None else self.addlock(s, 'w', f)).note(site.where, '%s is held already' % self.lname('w', f))))
            return self.fork(R, st, vs)
        if callee is not None and callee.key in self.recs:
            self.sites.add(site.id)
            r = self.recs[callee.key]
            head = UNDEF
            for d in r.head:
                while d[0] == 'op' and d[1] in ('trunc', 'zext', 'sext') and len(d[2]) == 1 and len(d[2][0]) == 1:
                    d = next(iter(d[2][0]))
                if d[0] == 'p':
                    head = args[d[1]]
                elif d[0] == 'i':
                    head = d
            return self.record(eng, callee, head, args, st, site, R)
        r = self.rules.special(self, eng, name, callee, args, st, site, R)
        if r is not None:
            return r
        if callee is None and name in self.rules.effects:
            self.sites.add(site.id)
            return self.effect(eng, name, args, st, site, R)
        if callee is not None and callee.key not in self.stop and (callee.key in self.rel or pure(self.prog, callee) or self.plain(callee)):
            return 'inline'
        if name == '(indirect)':
            args = args[1:]
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def plain(self, c):
        if c.ret == 'ptr' and c.internal and not errparams(c) and len(c.blocks) <= 3:
            return True
        # only reports an error
        return len(c.blocks) <= 4 and all(i['op'] != 'call' or i['fn'][0] == 'F' and (i['fn'][1] in ERR_SET or i['fn'][1].startswith('llvm.') or i['fn'][1] in STOPS)
                                          for i in c.instrs())

    def record(self, eng, callee, head, args, st, site, R):
        self.rules.record(self, eng, callee, head, args, st, site)
        rec = ('C', callee.name, head, tuple(args[1:-1]))
        ok = st.with_(ps=self.rules.recorded(self, st, st.ps | {rec}, callee, head)).note(site.where, 'records operation %s' % (head[1] if head[0] == 'i' else '?'))
        bad = st.seterr(args[-1], (frozenset({'code', 'errno'}), callee.name, site.where, False)).note(site.where, callee.name + ' fails')
        return [(R, ok.kill(R)), (R, bad.kill(R))]

    def effect(self, eng, name, args, st, site, R):
        st = eng.clobber(st.kill(R), args)
        out = []
        f = dict(st.facts)
        g = dict(st.facts)
        if name in NEGATIVE or name in ('open', 'pipe', 'mkstemp', 'socket', 'select'):
            f[R], g[R] = (0, 0 if name in ZERO else float('inf'), frozenset()), (-1, -1, frozenset())
        elif name in NULLRES or name in ('setlocale', 'newlocale', 'duplocale', 'uselocale', 'localeconv'):
            f[R], g[R] = (-float('inf'), float('inf'), frozenset({0})), (0, 0, frozenset())
        elif name in NONZERO:
            f[R], g[R] = (0, 0, frozenset()), (1, float('inf'), frozenset())
        else:
            g = None
        ok = self.rules.effect(self, eng, name, args, R, st.with_(facts=f), site)
        if ok is not None:
            out.append((R, ok.note(site.where, name)))
        if g is not None:
            bad = st.with_(facts=g)
            out.append((R, bad.note(site.where, name + ' fails')))
        return out

    def lname(self, mode, f):
        s, idx, base = f
        return '%s %s[%s]' % ('reader lock' if mode == 'r' else 'writer lock', s.replace('struct.', ''), self.rules.fieldname(s, idx))

    def store(self, eng, addr, val, st, site):
        return self.rules.store(self, eng, addr, val, st, site)

    def load(self, eng, addr, st, site):
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and self.prog.fieldname(addr[2][-1][1], addr[2][-1][2]) == 'wrmode':
            st = st.with_(ps=st.ps | {('K', ('L', addr))})
        return self.rules.load(self, eng, addr, st, site)

    def branch(self, eng, cond, truth, st, site):
        # what is known of single flags of an argument stays known
        if cond[0] in ('cmp', 'O'):
            for x in mentions(cond):
                if x[0] == 'O' and x[1] == 'and' and len(x) > 3 and x[3][0] == 'i' and x[3][1] & self.rules.flagbits and x[2][0] in ('Arg', 'L', 'R', 'T') and x[2][1:2] and ('K', x) not in st.ps and x in st.facts:
                    st = st.with_(ps=st.ps | {('K', x)})
        return st

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and len(site.ctx) == 0:
            self.rules.leave(self, eng, st, site, 'return')
        return st

    def enter(self, eng, fn, args, st, site):
        t = self.tables.get(fn.key)
        if t and args:
            b = root_of(args[0])
            old = self.hasflag2(st, b)
            new = t if old is None else old & t
            if new and new != old:
                st = st.with_(ps=frozenset(x for x in st.ps if not (x[0] == 'T' and x[1] == b)) | {('T', b, new)})
        return st

    def hasflag2(self, st, b):
        for x in st.ps:
            if x[0] == 'T' and x[1] == b:
                return x[2]
        return None

    def types(self, st):
        r = set()
        for x in st.ps:
            if x[0] == 'T':
                r |= x[2]
        return r

    def candidates(self, eng, fv, cands, st, site):
        if cands and len(cands) == 1 and fv[0] == 'F':
            return cands
        if fv[0] == 'L' and fv[1][0] == 'P' and fv[1][2][-1][0] == 'f' and fv[1][2][-1][1] == 'struct.file_tx_ops':
            old = self.hasflag2(st, root_of(fv))
            if old is None:
                return cands
            return [(n, c) for n, c in cands if c is None or self.tables.get(c.key, frozenset()) & old]
        if cands and fv[0] == 'L' and fv[1][0] == 'P' and base_of(fv[1])[0] == 'G':
            return cands
        return None


def file_tables(prog):
    """{function key: set of the file types whose operation table names it}"""
    out = {}
    for (a, n), g in prog.globals.items():
        if g['init'] and g['init'][0] == 'S' and g['init'][1] == 'struct.file_tx_ops' and isinstance(a, int):
            t = g['init'][2][0]
            t = t[1] if t[0] == 'i' else 0
            for e in g['init'][2]:
                if e[0] == 'F':
                    c = prog.local.get((g['unit'], e[1])) or next((x for x in prog.by_name.get(e[1], ()) if not x.internal), None)
                    if c is not None:
                        out.setdefault(c.key, set()).add(t)
    return {k: frozenset(v) for k, v in out.items()}


class Rules:
    """what a check watches"""
    effects = EFFECTS
    flagbits = 0     # flags of arguments that paths are told apart by

    def overwrite(self, pl, eng, st, site, e, old, kind):
        pass

    def leave(self, pl, eng, st, site, how):
        pass

    def lock(self, pl, eng, st, site, mode, f, args):
        pass

    def acquired(self, pl, eng, st, site, mode, f):
        return st

    def already(self, pl, st, f):
        """the lock was taken by an earlier operation of the transaction"""
        return st

    def special(self, pl, eng, name, callee, args, st, site, R):
        return None

    def record(self, pl, eng, callee, head, args, st, site):
        pass

    def recorded(self, pl, st, ps, callee, head):
        return ps

    def effect(self, pl, eng, name, args, R, st, site):
        return st

    def store(self, pl, eng, addr, val, st, site):
        return st

    def load(self, pl, eng, addr, st, site):
        return st

    def fieldname(self, s, idx):
        return str(idx[1]) if idx[0] == 'i' else '?'


def wraps(prog, c, depth=2):
    """c is there to take a lock"""
    for x in c.instrs():
        if x['op'] == 'call' and x['fn'][0] == 'F':
            if x['fn'][1] in (RD, WR):
                return True
            d = prog.resolve(c, x['fn'][1])
            if d is not None and depth and len(d.blocks) <= 8 and wraps(prog, d, depth - 1):
                return True
    return False


def relevant(prog, seeds, stop=()):
    """functions from which a seed is reachable (direct calls, operation tables)"""
    F = flow(prog)
    callers = {}
    for f in prog.fns.values():
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] != 'call':
                continue
            for o in i['args']:
                # a function that is handed over may be called
                if o[0] == 'F':
                    c = prog.resolve(f, o[1])
                    if c is not None and c.lib == f.lib and wraps(prog, c):
                        callers.setdefault(c.key, set()).add(f.key)
                        if i['fn'][0] == 'F':
                            d = prog.resolve(f, i['fn'][1])
                            if d is not None and d.lib == f.lib:
                                callers.setdefault(c.key, set()).add(d.key)
            if i['fn'][0] == 'F':
                c = prog.resolve(f, i['fn'][1])
                if c is not None and c.name not in JUMP:
                    callers.setdefault(c.key, set()).add(f.key)
            else:
                for n, c in F.targets(f, i):
                    if c is not None:
                        callers.setdefault(c.key, set()).add(f.key)
    work, seen = list(seeds), set(seeds)
    while work:
        k = work.pop()
        if k in stop:
            continue
        for c in callers.get(k, ()):
            if c not in seen:
                seen.add(c)
                work.append(c)
    return seen


def seedfns(prog, names):
    out = set()
    for f in prog.fns.values():
        if f.lib.startswith('inst_'):
            continue
        for i in f.instrs():
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in names:
                out.add(f.key)
    return out
