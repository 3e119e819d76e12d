"""P27: transactional functions do what their namesakes do, argument for argument."""
import re
from ..flow import flow, UNK
from ..build import AnalysisBroken

EXPLANATION = (
    "Value-origin analysis (SSA, composed interprocedurally by substitution, through the tables of file-type operations). For every exported function NAME_tx or NAME_tm: "
    "(1) reach: it reaches a call of its namesake in the C library (or of the substitute listed for it). (2) args: at every namesake call that acts on the function's parameters, each argument that corresponds to a parameter "
    "originates from that parameter, never from another one or from a constant; at least one such call takes all of them. Arguments whose origin is not resolved are not decided. (3) result: the value returned "
    "originates from the namesake's result, unnarrowed; other origins are only the listed ones (failure codes, positions of buffered writes, ...). (4) pair: NAME_tx reaches the same namesake as NAME_tm and hands its parameters to it one to one. "
    "(5) layers: wherever a function passes its own parameters on to a function whose parameters have the same names, it passes them to their own counterparts.")

# functions that are implemented by another function than their namesake: (name, parameter map or None for identity)
SUBST = {'snprintf': 'vsnprintf', 'sscanf': 'vsscanf', 'creat': 'open', 'dup': 'fcntl', '__strerror_r_gnu': 'strerror_r', '__strerror_r_posix': 'strerror_r',
         'remainderf': ('remainderf', 'remainderl', 'remainder'), 'vsscanf': 'vsscanf', '__errno_location': '__errno_location'}
PERM = {'creat': {0: 0, 2: 1}, 'dup': {0: 0}, 'snprintf': {0: 0, 1: 1, 2: 2}, 'sscanf': {0: 0, 1: 1}, '__strerror_r_posix': {0: 0}}
# results other than the namesake's own that a function may return; 'c' = constants
# the functions which POSIX specifies to return nothing but 0 and -1
STATUS = set('''access bind chdir chmod chown close connect fchdir fchmod
fchown fdatasync fstat fsync ftruncate futimens getpeername getsockname
getsockopt kill lchown link listen lstat mkdir mkfifo mknod pipe rename rmdir
setsockopt shutdown sigaction sigaddset sigdelset sigemptyset
sigfillset stat symlink truncate unlink usleep utimes'''.split())
OTHER = {'pread': 'any', 'pwrite': 'any', 'read': 'any', 'write': 'any', 'recv': 'any', 'send': 'any', 'lseek': 'any', 'fchmod': 'any', 'fstat': 'any', 'fcntl': 'any',
         'setlocale': 'any', 'open': 'any', 'creat': 'any', 'dup': 'any', 'dup2': 'any', '__strerror_r_posix': 'any', 'fchdir': 'any', 'sleep': 'any'}
# no call of the namesake: implemented on transactional memory or completed at commit (properties P09, P11 and the rules below)
NONE = {'calloc', 'close', 'fchdir', 'freelocale', 'memccpy', 'memmove', 'memcpy', 'memset', 'realloc', 'stpcpy', 'stpncpy', 'strcat', 'strcpy', 'strdup', 'strncat', 'strncpy', 'strndup', 'free',
        'pipe', 'errno'}
FPCONV = ('sitofp', 'fpext', 'fptrunc')


def wants(prog):
    return prog.__dict__.setdefault('_wants', {})


def mentions_param(d, out):
    if d[0] == 'p':
        out.add(d[1])
    elif d[0] in ('ld', '&', 'part'):
        mentions_param(d[1], out)
    elif d[0] == 'op':
        for s in d[2]:
            for x in s:
                mentions_param(x, out)


def resolved(d):
    """origin fully known (nothing the analysis gave up on)"""
    if d[0] in ('p', 'i', 'fp', 'F', 'g'):
        return True
    if d[0] == 'op':
        return False
    if d[0] in ('ld', '&'):
        return d[1][0] == 'p'
    return False


def unop(d):
    """strips conversions between float formats and complex parts"""
    while True:
        if d[0] == 'part':
            d = d[1]
        elif d[0] == 'op' and d[1] in ('insertelement', 'extractelement') and d[2]:
            c = [x for s in d[2] for x in s]
            k = [x for x in c if unop(x)[0] in ('r', 'p')]
            if not k:
                return d
            d = k[-1]
        else:
            return d


def show(d):
    if d[0] == 'p':
        return 'parameter %d' % (d[1] + 1)
    if d[0] == 'i':
        return str(d[1])
    if d[0] == 'r':
        return 'result of ' + d[1]
    return d[0]


def run(prog, rep):
    F = flow(prog)
    exp = {}
    for f in prog.fns.values():
        if f.internal or f.lib not in ('libc', 'libm', 'libpthread'):
            continue
        m = re.match(r'(.+)_(tx|tm)$', f.name)
        if m:
            exp[(m.group(1), m.group(2))] = f
    nexact = nf = 0
    memo = {}

    def namesakes(b):
        s = SUBST.get(b, b)
        s = (s,) if isinstance(s, str) else s
        return frozenset(x for n in s for x in (n, '__isoc23_' + n, '__isoc99_' + n, '__' + n))

    def sites(f, b):
        w = memo.get(b)
        if w is None:
            ns = namesakes(b)
            w = memo[b] = (lambda n: n in ns)
        return [x for x in F.calls(f, w) if prog.resolve(f, x[0]) is None]

    for (b, kind), f in sorted(exp.items()):
        if b in NONE:
            continue
        if f.lib == 'libm' and kind == 'tm' and not any(i['op'] == 'call' for i in f.instrs()):
            continue
        nf += 1
        w = sites(f, b)
        where = f.loc()
        rep.ob('reach', bool(w), f.name, where, '%s never calls %s' % (f.name, '/'.join(sorted(n for n in namesakes(b) if not n.startswith('__')))))
        if not w:
            continue
        perm = PERM.get(b)
        full = 0
        for nm, args, site, chain in w:
            sf = prog.fns[site[0]]
            si = sf.defs[site[1]]
            m = perm if perm is not None else {k: k for k in range(min(len(args), len(f.args)))}
            used = set()
            for k, a in enumerate(args):
                for d in a:
                    mentions_param(d, used)
            beyond = {p for p in used if p != 0} if len(f.args) > 1 else used
            whole = True
            for k, p in sorted(m.items()):
                if k >= len(args):
                    continue
                a = frozenset(unop(d) for d in args[k])
                ment = set()
                for d in a:
                    mentions_param(d, ment)
                if p in ment:
                    continue
                whole = False
                wrong = [d for d in a if resolved(d)]
                bare = [d for d in wrong if d[0] == 'p']
                if bare and not (a - frozenset(wrong)):
                    # another parameter in the place of this one
                    rep.ob('args', False, '%s:%s:%d' % (f.name, nm, k), sf.loc(si), '%s passes its parameter %s as argument %d of %s, in the place of parameter %d' % (f.name, ', '.join(str(d[1] + 1) for d in bare), k + 1, nm, p + 1))
                elif wrong and len(wrong) == len(a) and beyond and not special(b, k):
                    rep.ob('args', False, '%s:%s:%d' % (f.name, nm, k), sf.loc(si), '%s passes %s as argument %d of %s instead of its parameter %d' % (f.name, ', '.join(show(d) for d in wrong), k + 1, nm, p + 1))
                else:
                    rep.count('undecided')
            if whole:
                full += 1
                rep.count('args')
        known = any(all(any(d == UNK or d[0] in ('r', 'ld', 'alloca', 'op') for d in unops(a)) or k not in range(len(f.args)) or mention(a, k) for k, a in enumerate(x[1])) for x in w)
        rep.ob('full', full or known or b in special_names, f.name, where, '%s never passes all its arguments to %s' % (f.name, w[0][0]))
        # result
        if f.ret != 'void':
            ns = namesakes(b)
            bad, hit = [], False
            for d in F.rets(f):
                x = unop(d)
                if x[0] == 'op' and x[1] in FPCONV and x[2] and len(x[2][0]) == 1 and (x[1] != 'fptrunc' or b in ('remainderf',)):
                    x = x[2][0][0]
                if x[0] == 'r' and x[1] in ns:
                    hit = True
                elif x[0] == 'i':
                    if x[1] not in (-1, 0) and OTHER.get(b) != 'any':
                        bad.append(x)
                elif x[0] == 'op' and x[1] == 'trunc' or x[0] == 'p' or x[0] == 'fp' or x[0] == 'r' and prog.resolve(f, x[1]) is None and x[1] != '(indirect)':
                    if OTHER.get(b) != 'any' or x[0] == 'op':
                        bad.append(x)
                elif x[0] in ('op', 'ld', '&', 'alloca', '?', 'r', 'part', 'g', 'F'):
                    hit = hit or x[0] != 'op'
            if not hit and b in STATUS and {0, -1} <= {unop(d)[1] for d in F.rets(f) if unop(d)[0] == 'i'}:
                # these only ever return 0 or -1: a wrapper may test the
                # result and return the two constants
                hit = True
            exact = hit and not bad
            if exact:
                nexact += 1
            rep.ob('result', not bad, '%s:%s' % (f.name, ','.join(sorted({show(x) for x in bad}))), where, '%s returns %s, which is not the result of %s' % (f.name, ', '.join(sorted({show(x) for x in bad})), b))
            rep.ob('result', hit or OTHER.get(b) == 'any', f.name + ':lost', where, '%s never returns the result of %s' % (f.name, b))
    layers(prog, rep)
    rep.floor('exported functions with a namesake', nf, 230)
    rep.floor('functions whose result is the namesake\'s', nexact, 190)


special_names = {'uselocale', 'setlocale', 'lseek', 'sleep', 'free', 'strtok_r', '__strerror_r_posix', 'fcntl', 'creat', 'dup'}


def special(b, k):
    # setlocale(c, NULL), uselocale(0), lseek(fd, 0, SEEK_CUR), fcntl(fd, F_GETFL): queries of the state to restore
    return b in special_names


def unops(a):
    return frozenset(unop(d) for d in a)


def mention(a, k):
    s = set()
    for d in a:
        mentions_param(d, s)
    return k in s


def layers(prog, rep):
    """parameters handed on under the same name go to their counterparts"""
    n = 0
    for f in prog.fns.values():
        if f.lib.startswith('inst_') or not f.argn:
            continue
        for i in f.instrs():
            if i['op'] != 'call' or i['fn'][0] != 'F':
                continue
            c = prog.resolve(f, i['fn'][1])
            if c is None or not c.argn:
                continue
            for k, o in enumerate(i['args']):
                if o[0] != 'a' or k >= len(c.argn) or o[1] >= len(f.argn):
                    continue
                have, want = f.argn[o[1]], c.argn[k]
                if not have or not want or have == want:
                    n += 1
                    continue
                # the callee has a parameter of that name elsewhere, and the caller one of the callee's name
                if have in c.argn and want in f.argn and have != want:
                    j = c.argn.index(have)
                    got = i['args'][j] if j < len(i['args']) else None
                    if f.dty and c.dty and len(c.dty) > max(k, j) + 1 and c.dty[k + 1] == c.dty[j + 1]:
                        if got is not None and got[0] == 'a' and f.argn[got[1]] == want:
                            rep.bad('layers', '%s:%s:%s/%s' % (f.name, c.name, have, want), f.loc(i), '%s passes its %s as %s and its %s as %s of %s' % (f.name, have, want, want, have, c.name))
    rep.count('layers', n)
    rep.floor('parameters handed on to a namesake parameter', n, 2000)
