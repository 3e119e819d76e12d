"""P25: errno is saved before anything that may change it, once per transaction, and restored by rollback."""
import re
from ..build import AnalysisBroken
from ..must import Must
from ..saveonce import SaveOnce, State, fieldof, bind
from ..flow import flow

EXPLANATION = (
    "Must-dataflow over LLVM IR, composed interprocedurally. The place where errno is saved, its flag and the flag's bit are found in the source. (1) before: in every exported transactional function of the C, math and thread libraries, on every path, "
    "each call of an operating-system or C library function that may set errno, each assignment to errno and each hand-out of errno's address happens after errno has been saved. (2) once: errno is stored to the saved field only where the flag is known to be clear, "
    "and the flag is set only after that and on every successful path out of the saving function. (3) restore: the undo operation of the owning module writes exactly the saved value to errno on every path where the flag is set, and never where it is not. "
    "(4) afresh: its finish operation clears the flag on every path, and nothing else clears it.")

LIBS = ('libc', 'libm', 'libpthread')
ERRNO = {'open', 'open64', 'creat', 'close', 'read', 'write', 'pread', 'pread64', 'pwrite', 'pwrite64', 'lseek', 'lseek64', 'fcntl', 'fcntl64', 'fstat', 'fstat64', 'stat', 'stat64', 'lstat', 'lstat64', 'chmod', 'fchmod', 'link', 'unlink', 'mkdir', 'rmdir',
         'mkfifo', 'mknod', 'mkdtemp', 'mkstemp', 'mkstemp64', 'pipe', 'pipe2', 'dup', 'dup2', 'chdir', 'fchdir', 'getcwd', 'get_current_dir_name', 'realpath', 'accept', 'bind', 'connect', 'listen', 'recv', 'send', 'shutdown', 'socket', 'select', 'fsync', 'ftruncate',
         'malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'newlocale', 'duplocale', 'uselocale', 'setlocale', 'vsnprintf', 'vsscanf', 'sigaction', 'nanosleep', 'rename', 'kill', 'raise'}


class Errno(State):
    name = 'errno'

    def __init__(self, F):
        self.F = F
        self.field = None

    def iserrno(self, fn, o):
        return any(d[0] == 'r' and d[1] == '__errno_location' for d in self.F.val(fn, o))

    def isload(self, fn, o):
        return any(d[0] == 'ld' and d[1][0] == 'r' and d[1][1] == '__errno_location' and not d[2] for d in self.F.val(fn, o))

    def call(self, R, M, fn, i, nm, c, st):
        if c is None and nm in ERRNO and fn.lib in LIBS:
            M.need(('saved', 'errno'))
        return None

    def ins(self, R, M, fn, i, st):
        p = fieldof(self.F, fn, i['args'][1])
        if p and p == self.field:
            if self.isload(fn, i['args'][0]):
                M.need(('clear', 'errno', p[0]))
                return [('stored', 'errno')] + [('saved', 'errno')] * (('marked', 'errno') in st), ()
            M.need(('clear', 'errno', p[0]))
            return [], ('stored',)
        if self.iserrno(fn, i['args'][1]):
            v = self.F.val(fn, i['args'][0])
            if all(d[0] == 'ld' and d[2] and d[2][-1] == ('f',) + self.field for d in v):
                M.need(('isset', 'errno'))
                return [('restored', 'errno')], ()
            if fn.lib in LIBS:
                M.need(('saved', 'errno'))
            return [], ('restored',)
        return None


def run(prog, rep):
    F = flow(prog)
    E = Errno(F)
    # where is errno saved?
    sites = []
    for fn in prog.fns.values():
        if fn.lib not in LIBS:
            continue
        for i in fn.instrs():
            if i['op'] == 'store' and E.isload(fn, i['args'][0]):
                p = fieldof(F, fn, i['args'][1])
                if p:
                    sites.append((fn, i, p))
    undos = handlers(prog, 'undo')
    used = set()
    for m, fn in undos:
        for g in reach(prog, fn):
            for i in g.instrs():
                if i['op'] == 'store' and E.iserrno(g, i['args'][1]):
                    for d in F.val(g, i['args'][0]):
                        if d[0] == 'ld' and d[2] and d[2][-1][0] == 'f':
                            used.add(d[2][-1][1:])
    fields = sorted({p for _, _, p in sites})
    both = [p for p in fields if p in used]
    rep.ob('restore', bool(both) or not fields, 'errno', sites[0][0].loc(sites[0][1]) if sites else '-', 'errno is saved, but no undo operation of a module restores it from there')
    rep.ob('once', bool(fields), 'errno:saved', '-', 'errno is not saved anywhere')
    if not fields:
        return
    E.field = (both or fields)[0]
    R = SaveOnce({'errno': E})
    bind(prog, F, R, {'errno': [(f, i, p[0]) for f, i, p in sites if p == E.field]})
    flag = R.flags.get('errno')
    s0 = sites[0]
    rep.ob('once', flag is not None, 'errno:flag', s0[0].loc(s0[1]), 'whether errno has been saved before is not tested where it is saved')
    M = Must(prog, R)
    nfn = nsite = 0
    entries = []
    owner = [fn for m, fn in undos if any(g is f for g in reach(prog, fn) for f, i, p in sites)]
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if fn.internal or fn.lib not in LIBS or not (re.search('_t[xm]$', fn.name) or fn.name.startswith('picotm_')) or fn.vis == 'hidden':
            continue
        s = M.summary(fn)
        tx = re.search('_t[xm]$', fn.name)
        if not tx and not any(r[0] == 'clear' for r, _ in s.unmet):
            continue
        nfn += bool(tx)
        bad = {}
        for req, site in s.unmet:
            if req[0] == 'saved' and not tx:
                continue
            sf = prog.fns[site[0]]
            si = next(j for j in sf.instrs() if j['i'] == site[1])
            what = si['fn'][1] if si['op'] == 'call' and si['fn'][0] == 'F' else si['op']
            rule = 'before' if req[0] == 'saved' else 'once'
            msg = {'saved': '%s reaches %s, which may change errno, on a path on which errno has not been saved' % (fn.name, what if what != 'store' else 'an assignment to errno'),
                   'clear': '%s overwrites the saved errno without knowing that none has been saved in this transaction' % fn.name,
                   'isset': '%s restores errno without knowing that it has been saved' % fn.name}[req[0]]
            bad[(rule, what)] = (sf.loc(si), msg)
        for (rule, what), (loc, msg) in sorted(bad.items()):
            rep.ob(rule, False, '%s:%s' % (fn.name, what), loc, msg, [fn.loc()])
        if not bad:
            rep.ob('before', True, fn.name, fn.loc(), '')
        if tx and fn.ret == 'ptr' and any(d[0] == 'r' and d[1] == '__errno_location' for d in F.rets(fn)):
            rep.ob('before', ('saved', 'errno') in s.out, fn.name + ':address', fn.loc(), '%s hands out the address of errno without having saved errno' % fn.name)
            rep.stats['hands out errno'] = fn.name
    # the saving functions
    nsave = 0
    for fn in sorted(prog.fns.values(), key=lambda f: f.key):
        if fn.lib not in LIBS or not any(g is f for g in [fn] for f, i, p in sites if p == E.field):
            continue
        chain = [fn] + [x for x in prog.fns.values() if any(c is fn for _, _, c in prog.callees(x))]
        for g in chain:
            s = M.summary(g)
            nsave += 1
            rep.ob('once', ('saved', 'errno') in s.out, '%s:flag' % g.name, g.loc(), 'after %s has saved errno, the flag that tells so is not set on every path' % g.name)
    # restore and finish
    mods = owners(prog, undos, E.field, F, E)
    rep.ob('restore', len(mods) > 0, 'module', s0[0].loc(), 'no module restores errno on rollback')
    for (unit, g), u in mods:
        s = M.summary(u)
        rep.ob('restore', ('restored', 'errno') in s.out and not s.unmet, '%s:undo' % u.file, u.loc(), 'undo does not write the saved value to errno on every path on which errno has been saved, and only there')
        fin = [f for m, f in handlers(prog, 'finish') if m == (unit, g)]
        rep.ob('afresh', len(fin) == 1, '%s:finish' % u.file, u.loc(), 'the module that saves errno has no finish operation')
        for f in fin:
            sf = M.summary(f)
            rep.ob('afresh', ('released', 'errno') in sf.out, '%s:finish' % f.file, f.loc(), 'finish does not mark errno as not saved on every path')
        # who else clears the flag?
        ok = set()
        for f in fin:
            ok |= {x.key for x in reach(prog, f)}
        for fn in prog.fns.values():
            for i in fn.instrs():
                if i['op'] == 'store' and flag and fieldof(F, fn, i['args'][1]) == flag[:2] and fn.key not in ok:
                    v = i['args'][0]
                    clears = v[0] in ('n', 'z') or v[0] == 'i' and not v[1] & flag[2]
                    if v[0] == 'v':
                        d = fn.defs[v[1]]
                        k = [a for a in d.get('args', ()) if a[0] == 'i']
                        clears = d['op'] == 'and' and bool(k) and not k[0][1] & flag[2]
                    if clears:
                        # allowed in the initialiser only: nothing reads the flag before
                        init = any(j['op'] == 'store' and fieldof(F, fn, j['args'][1]) == E.field and not E.isload(fn, j['args'][0]) for j in fn.instrs())
                        rep.ob('afresh', init or called_only_from_init(prog, fn), '%s:clears' % fn.name, fn.loc(i), '%s marks errno as not saved while the transaction runs' % fn.name)
    rep.floor('transactional functions', nfn, 250)
    rep.floor('saving functions', nsave, 2)


def called_only_from_init(prog, fn):
    seen, work = set(), [fn]
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        if not f.internal and re.search('_t[xm]$', f.name):
            return False
        work += [x for x in prog.fns.values() if any(c is f for _, _, c in prog.callees(x))]
    return True


def handlers(prog, op):
    """[(ops table, Fn)] for field `op` of every struct picotm_module_ops"""
    idx = prog.fieldidx('struct.picotm_module_ops', op)
    out = []
    for (a, n), g in prog.globals.items():
        if isinstance(a, int) and g['init'] and g['init'][0] == 'S' and g['init'][1] == 'struct.picotm_module_ops':
            c = g['init'][2][idx]
            if c[0] == 'F':
                f = prog.local.get((a, c[1])) or prog.ext.get((g['lib'], c[1]))
                if f:
                    out.append(((a, n), f))
    return out


def reach(prog, fn):
    seen, work = {}, [fn]
    while work:
        f = work.pop()
        if f.key in seen:
            continue
        seen[f.key] = f
        for _, _, c in prog.callees(f):
            if c is not None:
                work.append(c)
    return list(seen.values())


def owners(prog, undos, field, F, E):
    out = []
    for m, fn in undos:
        for g in reach(prog, fn):
            if any(i['op'] == 'store' and E.iserrno(g, i['args'][1]) and any(d[0] == 'ld' and d[2] and d[2][-1] == ('f',) + field for d in F.val(g, i['args'][0])) for i in g.instrs()):
                out.append((m, fn))
                break
    return out
