"""P08: an aborted transaction leaves no trace of its executed effects."""
from multiprocessing import Pool
from .. import ops
from ..ops import OpsPlugin, Rules
from ..build import AnalysisBroken
from ..engine import Engine, I0, I1, UNDEF, base_of, root_of, mentions, trace_list
from ..flow import flow
from ..events import dispatches
from .p13 import exported
from .p25 import handlers
from .p09 import Gate, wrstores, reach, enum, strip, flagval, possible, O_CREAT, O_EXCL
from .errflow import ErrPlugin

EXPLANATION = (
    "Path-sensitive effect analysis of the transactional interface of the libc module. Rule exec: every effect with a compensation (creating a descriptor, a file, a pipe, a locale or a heap block; changing the working directory, the locale, the thread's locale or a file's mode) "
    "that happens while the transaction may still be rolled back is, before the operation returns or leaves by recovery, recorded in the transaction's log together with the state that was read before the effect, or reversed on the spot; where the reversal can fail, "
    "its failure is reported as non-recoverable. Rule created: whether an aborted open() removes the file is computed from the flags of the call, for every combination of O_CREAT and O_EXCL. Rule undo: the handler that rolls an operation back performs the inverse effect with "
    "the recorded data on every path, for every operation that has an effect. Rule closing: a descriptor that is marked for closing is closed with its last reference. Rule container: a container operation that was performed but cannot be recorded is undone on the spot.")

NEWFD = set('open openat socket mkstemp mkostemp dup pipe pipe2'.split())
STATE = set('chdir setlocale uselocale fchmod newlocale duplocale'.split())
ALLOC = set('malloc calloc posix_memalign getcwd realpath strdup get_current_dir_name aligned_alloc'.split())
INV = set('close unlink free freelocale'.split())
LOOK = set('fstat fcntl'.split())
RECORD = {'fd': ('FILDES_OP_OPEN', 'FILDES_OP_SOCKET', 'FILDES_OP_MKSTEMP', 'FILDES_OP_DUP', 'FILDES_OP_ACCEPT'), 'file': ('FILDES_OP_OPEN',), 'tmpfile': ('FILDES_OP_MKSTEMP',), 'pipe': ('FILDES_OP_PIPE',), 'mode': ('FILDES_OP_FCHMOD',),
          'cwd': ('CWD_OP_CHDIR',), 'loc': ('LOCALE_OP_SETLOCALE',), 'use': ('LOCALE_OP_USELOCALE',), 'newlocale': ('LOCALE_OP_NEWLOCALE',), 'duplocale': ('LOCALE_OP_DUPLOCALE',),
          'mem': ('ALLOCATOR_OP_MALLOC', 'ALLOCATOR_OP_POSIX_MEMALIGN', 'CWD_OP_GETCWD', 'CWD_OP_REALPATH', 'LOCALE_OP_SETLOCALE')}
# which record fits which way of creating a descriptor, so that rolling back undoes all of it
OPOF = {'open': 'FILDES_OP_OPEN', 'openat': 'FILDES_OP_OPEN', 'socket': 'FILDES_OP_SOCKET', 'mkstemp': 'FILDES_OP_MKSTEMP', 'mkostemp': 'FILDES_OP_MKSTEMP', 'dup': 'FILDES_OP_DUP', 'fcntl': 'FILDES_OP_DUP'}
WHAT = {'fd': 'the new descriptor', 'file': 'the created file', 'tmpfile': 'the temporary file', 'pipe': "the pipe's descriptor", 'mode': 'the change of the file mode', 'cwd': 'the change of the working directory', 'loc': 'the change of the locale',
        'use': "the change of the thread's locale", 'newlocale': 'the new locale', 'duplocale': 'the copied locale', 'mem': 'the allocated block'}


OFFS = {}


def offsets(prog):
    for f in prog.fns.values():
        for i in f.instrs():
            g = i.get('gep')
            if isinstance(g, list):
                for s in g[1]:
                    if s[0] == 'f':
                        OFFS[s[1], s[2]] = s[3]


def off(steps):
    return sum(OFFS.get((s[1], s[2]), 0) if s[0] == 'f' else (s[1][1] * s[2] if s[1][0] == 'i' else 10 ** 6) for s in steps)


def nil(st, v):
    """v may be NULL"""
    if v[0] in ('i', 'n'):
        return v in (I0, ('n',))
    r = st.facts.get(v)
    return r is None or r[0] <= 0 <= r[1] and 0 not in r[2]


class Exec(Gate):
    effects = NEWFD | STATE | ALLOC | INV | LOOK

    def __init__(self, prog, trusted):
        Gate.__init__(self, prog, trusted)
        self.fields = {}     # kind -> set of fields that hold the data for the roll back
        self.kinds = {}
        self.rev = set()

    def pend(self, st, *items):
        for i in items:
            self.kinds[i[1]] = self.kinds.get(i[1], 0) + 1
        return st.with_(ps=st.ps | set(items))

    def done(self, st, test):
        return st.with_(ps=frozenset(x for x in st.ps if not (x[0] == 'E' and test(x))))

    def olds(self, st, kind):
        return [x[2] for x in st.ps if x[0] == 'old' and x[1] == kind]

    def isold(self, st, kind, v):
        o = self.olds(st, kind)
        if v in o:
            return True
        if kind == 'mode':
            w = v
            while v[0] == 'O' and v[1] in ('trunc', 'zext') or v[0] == 'O' and v[1] == 'and' and v[3][0] == 'i' and v[3][1] & 0o7777 == 0o7777:
                v = v[2]
            if any(x[0] == 'oldval' and x[1] in (v, w) for x in st.ps):
                return True
            return v[0] in ('L', 'T') and any(b in mentions(v) or root_of(v) == b for b in o)
        return False

    def effect(self, pl, eng, name, args, R, st, site):
        may = pl.hasflag(st, 'IRR') == I1 or ('DONE',) in st.ps or self.through(st)
        zero = lambda v: v in (('n',), I0) or (st.facts.get(v) or (1, 1))[:2] == (0, 0)
        if name == 'close':
            v = args[0]
            return self.done(st, lambda x: x[1] == 'fd' and x[2] == v or x[1] == 'pipe' and same(x[2], v))
        if name == 'unlink':
            return self.done(st, lambda x: x[1] in ('file', 'tmpfile') and x[3] == args[0])
        if name == 'free':
            st = st.with_(ps=frozenset(x for x in st.ps if not (x[0] in ('old', 'oldcat', 'cur') and args[0] in x[1:3])))
            return self.done(st, lambda x: x[1] == 'mem' and x[2] == args[0])
        if name == 'freelocale':
            return self.done(st, lambda x: x[1] in ('newlocale', 'duplocale') and x[2] == args[0])
        if name == 'fstat':
            if not any(x[0] == 'E' and x[1] == 'mode' for x in st.ps):
                return st.with_(ps=frozenset(x for x in st.ps if x[:2] != ('old', 'mode')) | {('old', 'mode', root_of(args[1]))})
            return st
        if name in ('get_current_dir_name', 'getcwd'):
            if (name != 'getcwd' or zero(args[0])) and not any(x[0] == 'E' and x[1] == 'cwd' for x in st.ps):
                st = st.with_(ps=st.ps | {('old', 'cwd', R)})
            return self.pend(st, ('E', 'mem', R, args[0], site.where)) if name == 'getcwd' and nil(st, args[0]) and not may else st
        if name == 'strdup':
            o = [x for x in st.ps if x[0] == 'cur' and x[1] == args[0]]
            if o:
                st = st.with_(ps=st.ps | {('old', 'loc', R), ('oldcat', R, o[0][2])})
                return self.pend(st, ('E', 'mem', R, None, site.where))
            return st
        if name == 'setlocale':
            if zero(args[1]):
                if not any(x[0] == 'E' and x[1] == 'loc' for x in st.ps):
                    st = st.with_(ps=st.ps | {('cur', R, args[0])})
                return st
            if any(x[0] == 'E' and x[1] == 'loc' for x in st.ps) and self.isold(st, 'loc', args[1]) and ('oldcat', args[1], args[0]) in st.ps:
                return self.done(st, lambda x: x[1] == 'loc')
            return st if may else self.pend(st, ('E', 'loc', args[0], None, site.where))
        if name == 'uselocale':
            if zero(args[0]):
                return st
            if any(x[0] == 'E' and x[1] == 'use' and x[2] == args[0] for x in st.ps):
                return self.done(st, lambda x: x[1] == 'use')
            return st if may else self.pend(st, ('E', 'use', R, None, site.where))
        if name == 'chdir':
            if any(x[0] == 'E' and x[1] == 'cwd' for x in st.ps) and self.isold(st, 'cwd', args[0]):
                return self.done(st, lambda x: x[1] == 'cwd')
            return st if may else self.pend(st, ('E', 'cwd', I0, None, site.where))
        if name == 'fchmod':
            if any(x[0] == 'E' and x[1] == 'mode' for x in st.ps) and self.isold(st, 'mode', args[1]):
                return self.done(st, lambda x: x[1] == 'mode')
            if may:
                return st
            self.rev.add(site.fn.key)
            st = st.with_(ps=frozenset(x for x in st.ps if x[0] != 'oldval' and x != ('saved', 'mode')))
            return self.pend(st, ('E', 'mode', args[0], None, site.where))
        if name in ('newlocale', 'duplocale'):
            if name == 'newlocale' and not zero(args[2]) and not may:
                own = any(x[0] == 'E' and x[1] == 'duplocale' and x[2] == args[2] for x in st.ps)
                self.ob('exec', own, '%s:newlocale:base' % site.fn.name, site, "newlocale() takes over the caller's base locale in a transaction that can still be rolled back", st)
                st = self.done(st, lambda x: x[1] == 'duplocale' and x[2] == args[2])
            return st if may else self.pend(st, ('E', name, R, None, site.where))
        if may:
            return st
        if name in ('malloc', 'calloc', 'aligned_alloc', 'realpath'):
            if name == 'realpath':
                return self.pend(st, ('E', 'mem', R, args[1], site.where)) if nil(st, args[1]) else st
            return self.pend(st, ('E', 'mem', R, None, site.where))
        if name == 'posix_memalign':
            return self.pend(st, ('E', 'mem', ('L', args[0]), None, site.where))
        if name in ('pipe', 'pipe2'):
            return self.pend(st, ('E', 'pipe', (args[0], 0), None, site.where), ('E', 'pipe', (args[0], 1), None, site.where))
        if name in ('mkstemp', 'mkostemp'):
            return self.pend(st, ('E', 'fd', R, name, site.where), ('E', 'tmpfile', R, args[0], site.where))
        if name == 'fcntl':
            c = args[1]
            c = c[1] if c[0] == 'i' else (st.facts.get(c) or (None,))[0]
            return self.pend(st, ('E', 'fd', R, name, site.where)) if c in (0, 1030) else st
        if name in NEWFD:
            st = self.pend(st, ('E', 'fd', R, name, site.where))
            if name == 'open':
                fl = args[1]
                st = st.with_(ps=st.ps | {('flags', fl)})
                if fl[0] == 'i':
                    need = fl[1] & (O_CREAT | O_EXCL) == O_CREAT | O_EXCL
                else:
                    need = possible(st, fl, O_CREAT | O_EXCL)
                if need:
                    st = self.pend(st, ('E', 'file', R, args[0], site.where))
        return st

    def failed(self, pl, eng, name, args, st, site):
        """an effect that did not happen"""
        if name == 'chdir' and self.isold(st, 'cwd', args[0]) and any(x[0] == 'E' and x[1] == 'cwd' for x in st.ps):
            return st.with_(ps=frozenset(x for x in st.ps if x[:2] != ('E', 'cwd')) | {('F', 'cwd')})
        if name == 'setlocale' and self.isold(st, 'loc', args[1]) and any(x[0] == 'E' and x[1] == 'loc' for x in st.ps):
            return st.with_(ps=frozenset(x for x in st.ps if x[:2] != ('E', 'loc')) | {('F', 'loc')})
        if name == 'uselocale' and any(x[0] == 'E' and x[1] == 'use' and x[2] == args[0] for x in st.ps):
            return st.with_(ps=frozenset(x for x in st.ps if x[:2] != ('E', 'use')) | {('F', 'use')})
        if name == 'fchmod' and self.isold(st, 'mode', args[1]) and any(x[0] == 'E' and x[1] == 'mode' for x in st.ps):
            return st.with_(ps=frozenset(x for x in st.ps if x[:2] != ('E', 'mode')) | {('F', 'mode')})
        if name in ('close', 'unlink'):
            # nothing more can be done
            return self.effect(pl, eng, name, args, None, st, site)
        return st

    def store(self, pl, eng, addr, val, st, site):
        st = Gate.store(self, pl, eng, addr, val, st, site)
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and base_of(addr)[0] != 'A':
            s, i = addr[2][-1][1], addr[2][-1][2]
            if any(x[0] == 'E' and x[1] == 'mode' for x in st.ps) and self.isold(st, 'mode', val):
                self.fields.setdefault('mode', set()).add((s, i))
                st = st.with_(ps=st.ps | {('saved', 'mode'), ('oldval', val)})
            if self.prog.fieldname(s, i) == 'unlink':
                for fl in [x[1] for x in st.ps if x[0] == 'flags']:
                    good = True
                    for x in (0, O_CREAT, O_EXCL, O_CREAT | O_EXCL):
                        if fl[0] == 'i':
                            v = val[1] if val[0] == 'i' else None
                            good = v is not None and bool(v) == (fl[1] & 192 == 192)
                        elif possible(st, fl, x):
                            v = flagval(strip(val), fl, x)
                            if not isinstance(v, int) or bool(v) != (x == O_CREAT | O_EXCL):
                                good = False
                    self.ob('created', good, '%s:%s' % (site.fn.name, s), site, 'whether an aborted open() removes the file is not computed from O_CREAT and O_EXCL', st)
                    self.fields.setdefault('file', set()).add((s, i))
                    if good:
                        st = st.with_(ps=st.ps | {('saved', 'file')})
        p = [x for x in st.ps if x[0] == 'E' and x[1] == 'pipe']
        if p and base_of(addr)[0] != 'A':
            for x in p:
                if same(x[2], val) or elementwise(x[2], addr, val):
                    fs = next((s for s in reversed(addr[2]) if s[0] == 'f'), None) if addr[0] == 'P' else None
                    if fs:
                        self.fields.setdefault('pipe', set()).add((fs[1], fs[2]))
                        st = st.with_(ps=st.ps | {('saved', 'pipe', x[2])})
        return st

    def record(self, pl, eng, callee, head, args, st, site):
        pass

    def recorded(self, pl, st, ps, callee, head):
        # what has been handed over
        rec = next(x for x in ps if x[0] == 'C' and x not in st.ps or x[0] == 'C' and x[1] == callee.name and x[2] == head)
        if head[0] != 'i':
            return ps
        vals = {}
        for a in rec[3]:
            vals.setdefault(a, None)
            if a[0] in ('A', 'P') and base_of(a)[0] == 'A':
                for k, v in st.mem.items():
                    if base_of(k) == base_of(a) and k[0] in ('P', 'A'):
                        vals[v] = off(k[2]) if k[0] == 'P' else 0
        out = set(ps)
        lib = [n for n, v in ops_enum().items() if v == head[1] and family(callee) and n.startswith(family(callee))]
        for x in ps:
            if x[0] != 'E':
                continue
            kind = x[1]
            if not any(n in RECORD[kind] for n in lib):
                continue
            ok = False
            if kind == 'fd':
                ok = x[2] in vals and OPOF.get(x[3]) in lib
            elif kind == 'file':
                ok = ('saved', 'file') in ps
            elif kind == 'tmpfile':
                ok = x[2] in vals
            elif kind == 'pipe':
                ok = ('saved', 'pipe', x[2]) in ps
            elif kind == 'mode':
                ok = ('saved', 'mode') in ps
            elif kind == 'cwd':
                ok = any(v in vals for v in self.olds(st, 'cwd'))
            elif kind == 'loc':
                ok = any(v in vals and ('oldcat', v, x[2]) in ps for v in self.olds(st, 'loc')) and x[2] in vals
                if ok:
                    self.note('loc', next(vals[v] for v in self.olds(st, 'loc') if v in vals), vals[x[2]])
            else:
                ok = x[2] in vals
                if kind == 'mem' and not ok:
                    ok = any(v[0] in ('L', 'T') and v == x[2] for v in vals)
            if ok:
                out.discard(x)
                if kind in ('use', 'newlocale', 'duplocale'):
                    self.note(kind, vals[x[2]])
        return frozenset(out)

    def note(self, kind, *offs):
        self.fields.setdefault(kind, set()).add(offs)

    def leave(self, pl, eng, st, site, how):
        hard = HARD in st.ps
        if any(x[0] == 'F' for x in st.ps):
            k = next(x for x in st.ps if x[0] == 'F')[1]
            self.ob('exec', hard, '%s:%s:failed' % (site.fn.name, k), site, '%s could not be taken back, but the error is not marked as non-recoverable' % WHAT[k], st)
        left = [x for x in st.ps if x[0] == 'E']
        ret = None
        for x in left:
            k = x[1]
            if k == 'mem':
                continue
            if k == 'file' and not any(y[1][0] == 'i' or possible(st, y[1], O_CREAT | O_EXCL) for y in st.ps if y[0] == 'flags'):
                continue
            self.ob('exec', hard, '%s:%s' % (x[4].rsplit(':', 1)[0], k), site, '%s (%s) is neither recorded nor taken back' % (WHAT[k], x[4]), st)
        if not left and how == 'return':
            self.ob('exec', True, 'leave', site, '')

    def handed(self, st, val, site):
        for x in st.ps:
            if x[0] == 'E' and x[1] == 'mem' and (x[3] is None or nil(st, x[3])) and not any(k for k in st.err.values()):
                out = val == x[2] or any(v == x[2] and root_of(k)[0] == 'Arg' and root_of(k) in self.plugin.rootargs for k, v in st.mem.items())
                if out:
                    self.ob('exec', False, 'mem:%s' % site.fn.name, site, 'the block allocated at %s is handed out, but an abort will not release it' % x[4], st)


def same(end, v):
    """v is the n-th descriptor of the pair"""
    a, n = end
    if v == ('pipeend', end):
        return True
    if v[0] != 'L' or base_of(v[1]) != base_of(a):
        return False
    d = off(v[1][2]) if v[1][0] == 'P' else 0
    e = off(a[2]) if a[0] == 'P' else 0
    return d - e == 4 * n


def elementwise(end, addr, val):
    """copies an element of the pair to the element with the same index"""
    a = end[0]
    if val[0] != 'L' or val[1][0] != 'P' or addr[0] != 'P' or base_of(val[1]) != base_of(a):
        return False
    x, y = val[1][2][-1], addr[2][-1]
    return x[0] == y[0] == 'x' and x[1] == y[1] and x[1][0] != 'i' and x[2] == y[2] == 4 and off(val[1][2][:-1]) == (off(a[2]) if a[0] == 'P' else 0)


OE = {}


def ops_enum():
    if not OE:
        OE.update({k: v for k, v in ops.enums().items() if '_OP_' in k and not k.startswith('LAST')})
    return OE


def family(c):
    f = c.file.rsplit('/', 1)[-1]
    for k in ('fildes', 'cwd', 'locale', 'allocator'):
        if k in f or k in c.name:
            return k.upper() + '_OP_'
    return None


def leaf(prog, c):
    return len(c.blocks) <= 12 and all(i['op'] != 'call' or i['fn'][0] == 'F' and (i['fn'][1].startswith(('llvm.', 'memcpy')) or i['fn'][1] in ops.STOPS) for i in c.instrs())


HARD = ('HARD',)


class Hard:
    """keeps track of errors that are marked as non-recoverable"""

    def on_recover(self, eng, name, e, st, site):
        if name == 'picotm_error_mark_as_non_recoverable':
            st = st.with_(ps=st.ps | {HARD})
        return super().on_recover(eng, name, e, st, site)

    def mark(self, st, name, site):
        # setting an error makes it recoverable
        return super().mark(st.with_(ps=st.ps - {HARD}), name, site)


class Plug(Hard, OpsPlugin):
    appenders = set()

    def init(self, eng, root):
        self.rootargs = [('Arg', t, k, root.argn[k] if k < len(root.argn) else '') for k, t in enumerate(root.dty[1:])]
        return OpsPlugin.init(self, eng, root)

    def default(self, eng, name, callee, args, st, site):
        if name.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy')) and len(args) > 2 and args[2][0] == 'i':
            return self.copied(eng, name, callee, args, st, site)
        if callee is not None and leaf(self.prog, callee) and any(x[0] == 'E' and x[1] in ('mode', 'file', 'pipe') for x in st.ps):
            return 'inline'
        if callee is not None and callee.key in self.appenders:
            if any(x[0] == 'E' and x[1] in ('mode', 'file', 'pipe') for x in st.ps):
                return 'inline'
            out = OpsPlugin.default(self, eng, name, callee, args, st, site)
            return [(v, self.counted(callee, v, s)) for v, s in out] if isinstance(out, list) else out
        return OpsPlugin.default(self, eng, name, callee, args, st, site)

    def copied(self, eng, name, callee, args, st, site):
        r = OpsPlugin.default(self, eng, name, callee, args, st, site)
        for x in st.ps:
            if x[0] == 'E' and x[1] == 'pipe' and x[2][0] == args[1] and args[2][1] >= 4 * (x[2][1] + 1):
                st = self.rules.store(self, eng, args[0], ('pipeend', x[2]), st, site)
        return r if not isinstance(r, list) and r is not None else [(UNDEF, st)]

    def counted(self, callee, v, st):
        """the position of a new entry of a table"""
        if v is None or v[0] == 'i' or any(k for k in st.err.values()):
            return st
        f = dict(st.facts)
        f[v] = (0, float('inf'), frozenset())
        return st.with_(facts=f)

    def effect(self, eng, name, args, st, site, R):
        out = OpsPlugin.effect(self, eng, name, args, st, site, R)
        if len(out) and name in ('chdir', 'setlocale', 'uselocale', 'fchmod', 'close', 'unlink'):
            v, bad = out[-1]
            r = bad.facts.get(R)
            if r and (r[0] == r[1] == -1 or r[0] == r[1] == 0 and name in ('setlocale', 'uselocale')):
                out[-1] = (v, self.rules.failed(self, eng, name, args, bad, site))
        return out

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and len(site.ctx) == 0:
            self.rules.handed(st, val, site)
        dead = [x for x in st.ps if x[:2] == ('old', 'mode') and x[2][0] == 'A' and x[2][1] == fn.key]
        if dead:
            # the buffer goes out of scope
            st = st.with_(ps=st.ps - frozenset(dead))
        if fn.key in self.appenders:
            st = self.counted(fn, val, st)
        return OpsPlugin.ret(self, eng, fn, val, st, site)


# ------------------------------------------------------------------ roll back
class Undo(Rules):
    effects = NEWFD | STATE | INV | {'fcntl'}

    def __init__(self, prog, fn):
        self.prog, self.fn = prog, fn
        self.exits = []

    def effect(self, pl, eng, name, args, R, st, site):
        return st.with_(ps=st.ps | {('D', name) + tuple(args[:2])})

    def store(self, pl, eng, addr, val, st, site):
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and self.prog.fieldname(addr[2][-1][1], addr[2][-1][2]) == 'state' and val == ('i', enum('FD_STATE_CLOSING')):
            st = st.with_(ps=st.ps | {('D', 'closing', addr)})
        elif ('V', ('L', addr)) in st.ps and ('L', addr) in st.facts:
            # what was known of the old value
            st = st.with_(ps=st.ps | {('S', addr, st.facts[('L', addr)])})
        return st

    def load(self, pl, eng, addr, st, site):
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f':
            return st.with_(ps=st.ps | {('V', ('L', addr))})
        return st

    def leave(self, pl, eng, st, site, how):
        self.exits.append((st, site))


class UPlug(OpsPlugin):
    def effect(self, eng, name, args, st, site, R):
        out = OpsPlugin.effect(self, eng, name, args, st, site, R)
        if len(out) > 1:
            # a failed inverse has been tried
            v, bad = out[-1]
            out[-1] = (v, self.rules.effect(self, eng, name, args, R, bad, site))
        return out


def fieldend(v):
    """(struct, index) steps of the field a value was loaded from, and its offset in the object"""
    v = strip(v)
    if v[0] == 'L' and v[1][0] == 'P':
        return v[1][2]
    return ()


def undo(prog, rep, fields, rel):
    F = flow(prog)
    E = ops_enum()
    fam = {}
    for n, v in E.items():
        p = n[:n.index('_OP_') + 4]
        fam.setdefault(p, {})[v] = n[len(p):]
    n = 0
    seen = set()
    for m, cb in handlers(prog, 'undo_event'):
        if cb.lib != 'libc':
            continue
        for d in dispatches(prog, F, cb):
            p = family(d.fn)
            if p is None or (p, d.table.name) in seen:
                continue
            seen.add((p, d.table.name))
            if len(d.table.el) != len(fam[p]):
                raise AnalysisBroken('roll-back table %s does not match the operations' % d.table.name)
            for k, h in enumerate(d.table.el):
                n += handler(prog, rep, p, fam[p][k], h, fields, rel)
    # the file types' own handlers
    for (a, nm), g in sorted(prog.globals.items(), key=str):
        if g['init'] and g['init'][0] == 'S' and g['init'][1] == 'struct.file_tx_ops' and isinstance(a, int):
            el = g['init'][2]
            names = [x for x in range(len(el))]
            i = prog.fieldidx('struct.file_tx_ops', 'fchmod_undo')
            c = el[i]
            if c[0] == 'F':
                h = prog.local.get((g['unit'], c[1])) or next((x for x in prog.by_name.get(c[1], ()) if not x.internal), None)
                ex = el[prog.fieldidx('struct.file_tx_ops', 'fchmod_exec')]
                e = prog.local.get((g['unit'], ex[1])) if ex[0] == 'F' else None
                if h is not None and e is not None and set(reach(prog, F, e, ())) & REV:
                    n += handler(prog, rep, 'FILE', 'FCHMOD', h, fields, rel)
    return n


REV = set()


def handler(prog, rep, p, op, h, fields, rel):
    NEED = {('FILDES_OP_', 'OPEN'), ('FILDES_OP_', 'MKSTEMP'), ('FILDES_OP_', 'SOCKET'), ('FILDES_OP_', 'DUP'), ('FILDES_OP_', 'PIPE'), ('FILE', 'FCHMOD'), ('CWD_OP_', 'CHDIR'), ('CWD_OP_', 'GETCWD'), ('CWD_OP_', 'REALPATH'),
            ('LOCALE_OP_', 'SETLOCALE'), ('LOCALE_OP_', 'USELOCALE'), ('LOCALE_OP_', 'NEWLOCALE'), ('LOCALE_OP_', 'DUPLOCALE'), ('ALLOCATOR_OP_', 'MALLOC'), ('ALLOCATOR_OP_', 'POSIX_MEMALIGN')}
    if (p, op) not in NEED:
        return 0
    if h is None:
        rep.ob('undo', False, '%s%s' % (p, op), '', 'operation %s has no handler for rolling back' % op)
        return 1
    r = Undo(prog, h)
    pl = UPlug(prog, r, rel, set())
    Engine(prog, pl, budget=200000).run_root(h)
    if not r.exits:
        rep.ob('undo', False, '%s%s' % (p, op), h.loc(), '%s never returns' % h.name)
        return 1
    args = [('Arg', t, k, h.argn[k] if k < len(h.argn) else '') for k, t in enumerate(h.dty[1:])]
    ints = [a for a in args if a[1] == 'int']
    ptr = [a for a in args if a[1].endswith('*') and not a[1].startswith('struct picotm_error')]

    def frm(v, kind, which=0):
        """v was read from where the operation has put it"""
        s = fieldend(v)
        for f in fields.get(kind, ()):
            if kind in ('loc', 'use', 'newlocale', 'duplocale'):
                if s and base_of(v[1]) in ptr and off(s) == f[which]:
                    return True
            elif any(x[0] == 'f' and (x[1], x[2]) == f for x in s):
                return True
        return False
    some = False
    for st, site in r.exits:
        D = [x for x in st.ps if x[0] == 'D']
        mine = ints[0] if ints else None
        closed = any(x[1] == 'close' and x[2] == mine or x[1] == 'closing' and (mine in mentions(x[2])) for x in D)
        what = None
        if op in ('OPEN', 'SOCKET', 'DUP', 'MKSTEMP'):
            if not closed:
                what = 'does not close the descriptor'
            ul = any(x[1] == 'unlink' for x in D)
            some |= ul
            if op == 'OPEN':
                flags = [x[1] for x in st.ps if x[0] == 'V' and frm(x[1], 'file')]
                vals = {st.facts.get(x, (0, 1))[0] for x in flags} if flags else set()
                known = [st.facts[x] for x in flags if x in st.facts]
                yes = any(f[0] > 0 or 0 in f[2] for f in known)
                no = any(f[0] == f[1] == 0 for f in known)
                if not (yes or no):
                    what = what or 'does not look at whether the file was created'
                elif no and ul:
                    what = what or 'removes a file that it did not create'
            elif op in ('SOCKET', 'DUP') and ul:
                what = what or 'removes a file'
        elif op == 'PIPE':
            ends = {off(x[2][1][2][-1:]) if x[2][1][2][-1][0] == 'x' else 0 for x in D if x[1] == 'close' and x[2][0] == 'L' and x[2][1][0] == 'P' and frm(x[2], 'pipe')}
            if len(ends) < 2 and not (ends and any(st.err.values())):
                what = 'does not close both ends'
        elif op == 'FCHMOD':
            if not any(x[1] == 'fchmod' and frm(x[3], 'mode') for x in D):
                what = 'does not restore the file mode that was saved'
        elif op == 'CHDIR':
            if not any(x[1] == 'chdir' and x[2] in ptr for x in D):
                what = 'does not go back to the saved directory'
        elif op in ('GETCWD', 'REALPATH', 'MALLOC', 'POSIX_MEMALIGN'):
            if not any(x[1] == 'free' and x[2] in ptr for x in D):
                what = 'does not release the block'
        elif op == 'SETLOCALE':
            if not any(x[1] == 'setlocale' and frm(x[3], 'loc', 0) and frm(x[2], 'loc', 1) for x in D):
                what = 'does not restore the saved locale'
        elif op == 'USELOCALE':
            if not any(x[1] == 'uselocale' and frm(x[2], 'use') for x in D):
                what = "does not restore the thread's locale"
        elif op in ('NEWLOCALE', 'DUPLOCALE'):
            if not any(x[1] == 'freelocale' and frm(x[2], op.lower()) for x in D):
                what = 'does not release the locale'
        rep.ob('undo', what is None, '%s%s' % (p, op), site.where, 'rolling back %s %s' % (op, what or ''), trace_list(st))
    if op in ('OPEN', 'MKSTEMP'):
        rep.ob('undo', some, '%s%s:file' % (p, op), h.loc(), 'rolling back %s never removes the file' % op)
    return 1


def closing(prog, rep, rel):
    """a descriptor in state CLOSING is closed with the last reference"""
    n = 0

    def helpers(f, seen):
        for i in f.instrs():
            c = prog.resolve(f, i['fn'][1]) if i['op'] == 'call' and i['fn'][0] == 'F' else None
            if c is not None and c.unit == f.unit and c.internal and c.key not in seen:
                seen[c.key] = c
                helpers(c, seen)
        return seen

    def closes(f):
        return any(i['op'] == 'call' and i['fn'] == ['F', 'close'] for i in f.instrs())

    def looks(f):
        return any(i['op'] == 'load' and i['args'][0][0] == 'v' and isinstance(f.defs[i['args'][0][1]].get('gep'), list) and f.defs[i['args'][0][1]]['gep'][1] and f.defs[i['args'][0][1]]['gep'][1][-1][0] == 'f'
                   and f.defs[i['args'][0][1]]['gep'][1][-1][1] == 'struct.fd' and prog.fieldname('struct.fd', f.defs[i['args'][0][1]]['gep'][1][-1][2]) == 'state' for i in f.instrs())
    both = {}
    for f in prog.fns.values():
        if f.lib == 'libc':
            hs = helpers(f, {f.key: f})
            if any(closes(g) for g in hs.values()) and any(looks(g) for g in hs.values()):
                both[f.key] = hs
    for k, hs in sorted(both.items(), key=str):
        if any(h in both for h in hs if h != k):
            continue
        f = prog.fns[k]
        r = Undo(prog, f)
        pl = UPlug(prog, r, rel | set(hs), set())
        Engine(prog, pl).run_root(f)
        n += 1
        for st, site in r.exits:
            v = [x[1] for x in st.ps if x[0] == 'V' and prog.fieldname(x[1][1][2][-1][1], x[1][1][2][-1][2]) == 'state' and x[1][1][2][-1][1] == 'struct.fd']
            c = enum('FD_STATE_CLOSING')
            old = {x[1]: x[2] for x in st.ps if x[0] == 'S'}
            fs = [old.get(x[1], st.facts.get(x)) for x in v]
            isc = not v or any(g is None or g[0] <= c <= g[1] and c not in g[2] for g in fs)
            cl = any(x[0] == 'D' and x[1] == 'close' and prog.fieldname(x[2][1][2][-1][1], x[2][1][2][-1][2]) == 'fildes' for x in st.ps if x[0] == 'D' and x[1] == 'close' and x[2][0] == 'L' and x[2][1][0] == 'P' and x[2][1][2][-1][0] == 'f')
            rep.ob('closing', cl == isc, f.name, site.where, '%s %s' % (f.name, 'leaves a descriptor open that is marked for closing' if isc else 'closes a descriptor that is not marked for closing'), trace_list(st))
    rep.floor('functions that close marked descriptors', n, 1)


# ------------------------------------------------------------------ containers
class Cont(Hard, ErrPlugin):
    max_depth = 6

    def __init__(self, prog, undoer):
        ErrPlugin.__init__(self, prog)
        self.undoer, self.bad, self.n = undoer, [], 0

    def init(self, eng, root):
        self.root = root
        return frozenset()

    def keep(self, ps):
        return [y for x in ps for y in x[1:] if isinstance(y, tuple)]

    def overwrite(self, *a):
        pass

    def candidates(self, eng, fv, cands, st, site):
        return None

    def default(self, eng, name, callee, args, st, site):
        if name.startswith('llvm.'):
            return None
        R = ('R', name, site.id, site.ctx)
        if name == '(indirect)' and args and args[0][0] == 'Arg':
            ok = st.with_(ps=st.ps | {('E', args[1])}).note(site.where, 'the operation is performed')
            e = args[-1]
            bad = st.seterr(e, (frozenset({'code', 'errno'}), name, site.where, False)).note(site.where, 'the operation fails')
            return [(UNDEF, ok), (UNDEF, bad)]
        if name == 'picotm_append_event':
            ok = st.with_(ps=frozenset(x for x in st.ps if x[0] != 'E'))
            bad = st.seterr(args[-1], (frozenset({'code', 'errno'}), name, site.where, False)).note(site.where, 'the event cannot be recorded')
            return [(UNDEF, ok), (UNDEF, bad)]
        if callee is not None and callee.key in self.undoer:
            ok = st.with_(ps=frozenset(x for x in st.ps if not (x[0] == 'E' and x[1] == args[0])))
            bad = ok.seterr(args[-1], (frozenset({'code', 'errno'}), name, site.where, False)).with_(ps=ok.ps | {('F',)}).note(site.where, 'undoing fails')
            return [(UNDEF, ok), (UNDEF, bad)]
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def ret(self, eng, fn, val, st, site):
        if fn.key == self.root.key and not site.ctx:
            self.n += 1
            if any(x[0] == 'E' for x in st.ps):
                self.bad.append(('has been performed, but is neither recorded nor undone', st, site))
            if ('F',) in st.ps and HARD not in st.ps:
                self.bad.append(('could not be undone, but the error is not marked as non-recoverable', st, site))
        return st


def containers(prog, rep):
    F = flow(prog)
    und = set()
    for m, cb in handlers(prog, 'undo_event'):
        if cb.lib == 'txlib':
            for d in dispatches(prog, F, cb):
                und |= {f.key for f, _ in d.chain} | {d.fn.key}
            for f in list(und):
                pass
            # the functions between the callback and the table
            und -= {cb.key}
    # only those that take an event
    und = {k for k in und if any('event' in t for t in prog.fns[k].dty[1:2])}
    if not und:
        raise AnalysisBroken('the function that undoes container operations was not found')
    n = 0
    for f in sorted(prog.fns.values(), key=lambda f: str(f.key)):
        if f.lib == 'txlib' and any(i['op'] == 'call' and i['fn'] == ['F', 'picotm_append_event'] for i in f.instrs()):
            pl = Cont(prog, und)
            Engine(prog, pl).run_root(f)
            n += 1
            for w, st, site in pl.bad:
                rep.ob('container', False, f.name, site.where, 'a container operation ' + w, trace_list(st))
            rep.count('container', pl.n)
    rep.floor('functions that record container operations', n, 1)


PROG = None


def setup(prog):
    libc = {f.key: f for f in prog.fns.values() if f.lib == 'libc'}
    EX = {k for k, f in libc.items() if exported(f)}
    seeds = {k for k in ops.seedfns(prog, NEWFD | STATE | {'close', 'unlink', 'freelocale', 'fcntl', 'getcwd', 'realpath', 'posix_memalign', 'get_current_dir_name', 'fstat'}) if k in libc}
    recs = {r.fn.key for r in ops.recorders(prog, flow(prog))}
    for f in libc.values():
        if f.key not in recs and any(i['op'] == 'call' and i['fn'][0] == 'F' and getattr(prog.resolve(f, i['fn'][1]), 'key', None) in recs for i in f.instrs()):
            seeds.add(f.key)
    Plug.appenders = {f.key for f in libc.values() if f.ret in ('i32', 'i64') and any(i['op'] == 'call' and i['fn'] == ['F', 'picotm_tabresize'] for i in f.instrs())}
    c = enum('FD_STATE_CLOSING')
    for f in libc.values():
        for i in f.instrs():
            if i['op'] == 'store' and i['args'][0][0] == 'i' and i['args'][0][1] == c and i['args'][1][0] == 'v':
                g = f.defs[i['args'][1][1]].get('gep')
                if isinstance(g, list) and g[1] and g[1][-1][0] == 'f' and g[1][-1][1] == 'struct.fd' and prog.fieldname('struct.fd', g[1][-1][2]) == 'state':
                    seeds.add(f.key)
    ws = wrstores(prog)
    rel = ops.relevant(prog, seeds, EX)
    roots = [k for k in sorted(EX) if k in rel and libc[k].name.endswith(('_tx', '_tm'))]
    return roots, rel, EX, {s for _, _, s, _ in ws}


def go(k):
    roots, rel, EX, trusted = SET
    r = Exec(PROG, trusted)
    pl = Plug(PROG, r, rel, EX)
    e = Engine(PROG, pl, budget=400000)
    err = None
    try:
        e.run_root(PROG.fns[k])
    except Exception as x:
        err = '%s %s' % (type(x).__name__, x)
    return PROG.fns[k].name, r.out, r.kinds, r.fields, r.rev, err


def run(prog, rep):
    global PROG, SET
    PROG = prog
    enum('FILDES_OP_OPEN')
    ops_enum()
    offsets(prog)
    SET = setup(prog)
    roots, rel, EX, trusted = SET
    with Pool(8) as p:
        results = sorted(p.imap_unordered(go, roots), key=lambda r: r[0])
    fields, kinds = {}, {}
    for name, out, ks, fs, rev, broken in results:
        if broken:
            raise AnalysisBroken('%s: %s' % (name, broken))
        for o in out:
            rep.ob(o[0], o[1], '%s:%s' % (name, o[2]), o[3], '%s: %s' % (name, o[4]), o[5])
        for k, v in ks.items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in fs.items():
            fields.setdefault(k, set()).update(v)
        REV.update(rev)
    n = undo(prog, rep, fields, rel)
    closing(prog, rep, rel)
    containers(prog, rep)
    rep.floor('operations', len(roots), 20)
    rep.floor('kinds of effects', len(kinds), 9)
    rep.floor('effects', sum(kinds.values()), 25)
    rep.floor('roll-back handlers', n, 12)
    rep.stats['effects by kind'] = sum(kinds.values())
