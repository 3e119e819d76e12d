"""P10: shared state of files, descriptors, directory and locale is accessed under its locks only."""
from multiprocessing import Pool
from .. import ops
from ..ops import OpsPlugin, Rules, rwfield, RD, WR, RAWRD, RAWWR
from ..build import AnalysisBroken
from ..engine import Engine, I0, I1, UNDEF, base_of, root_of, mentions, trace_list
from ..flow import flow
from ..octa import Octagon
from .p13 import exported, targets
from .errflow import errparams, ErrPlugin

EXPLANATION = (
    "Path-sensitive lock-set analysis of every transactional interface function of the libc module, from the wrapper through the operation tables of all file types down to the system calls. Rules: effect - every system call on a descriptor, on the working directory or on the locale is made "
    "with the lock that protects what it reads (reader or writer) or changes (writer) held by the transaction, unless the transaction is irrevocable and alone; record - every operation that is recorded for execution at commit holds the writer locks for what it will change; "
    "cached - the transaction's copies of the file offset and the file size are read only under the lock and after they have been loaded, and a lock never remains with a copy that was not loaded; region - every read and write of file content covers, in whole records, the byte range "
    "from its offset to its end with a lock of the right mode (symbolic evaluation of record offset and record count for every offset and length); pages - the walk over the records uses each record's own counter and lock, found by the record's offset; counter - a record is locked exactly when it is first counted (for writing, when first counted as written), announces an upgrade exactly when it is counted, and is unlocked exactly with its last count; pairing - the state of a lock and the lock belong to the same field.")

IRR = 1
ENUM = {}
FD1 = set('accept bind close connect dup dup2 fchmod fcntl fdatasync fstat fsync listen lseek pread pwrite read recv recvfrom recvmsg send sendto sendmsg shutdown write ftruncate readv writev'.split())
FDNEW = set('accept open openat pipe pipe2 socket mkstemp mkostemp dup dup2'.split())
TYPES = {}


def E(n):
    if not ENUM:
        ENUM.update(ops.enums())
    if n not in ENUM:
        raise AnalysisBroken('enumerator %s not found' % n)
    return ENUM[n]


def setup(prog):
    """(roots, relevant functions, map functions) for the libc module"""
    c = getattr(prog, '_p10setup', None)
    if c is not None:
        return c
    libc = {f.key: f for f in prog.fns.values() if f.lib == 'libc'}
    EX = {k for k, f in libc.items() if exported(f)}
    F = flow(prog)
    seeds = {k for k in ops.seedfns(prog, {RD, WR} | (ops.EFFECTS - {'fstat', 'fcntl'})) if k in libc}
    seeds |= {r.fn.key for r in ops.recorders(prog, F)}
    maps = {}
    for k, f in libc.items():
        if 'struct rwcountermap*' in f.dty[1:] and sum(1 for t in f.dty[1:] if t.startswith('unsigned') or t in ('size_t', 'uint64_t')) == 2 and not any(t == 'off_t' for t in f.dty[1:]) \
                and not any(t.startswith('fn*') for t in f.dty[1:]):
            m = mapmode(prog, F, f)
            if m:
                maps[k] = m
    iofns = set()
    for f in libc.values():
        for i in f.instrs():
            if i['op'] == 'store' and i['args'][1][0] == 'v':
                g = f.defs[i['args'][1][1]]
                g = g.get('gep') if g else None
                if g and g[1] and g[1][-1][0] == 'f' and g[1][-1][1] in ('struct.ioop', 'struct.region'):
                    iofns.add(f.key)
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] == 'fcntl' and (i['args'][1][0] == 'v'):
                d = f.defs[i['args'][1][1]]
                # a command taken from a table of constants duplicates
                if d['op'] == 'load':
                    iofns.add(f.key)
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] in FD1 and 'struct file_tx*' in f.dty[1:]:
                iofns.add(f.key)
            if i['op'] == 'call' and i['fn'][0] == 'F' and i['fn'][1] == 'fstat':
                # content of a buffer that holds the size
                if any('seekbuf_tx' in t for t in f.dty[1:]):
                    iofns.add(f.key)
    rel = ops.relevant(prog, seeds | set(maps) | iofns, EX)
    roots = [k for k in sorted(EX) if k in rel and libc[k].name.endswith(('_tx', '_tm'))]
    prog._p10setup = (roots, rel, maps, EX)
    return prog._p10setup


def mapmode(prog, F, f):
    """(mode, number of the length argument, number of the offset argument)"""
    raw = set()

    def handed(g, depth):
        for i in g.instrs():
            if i['op'] == 'call':
                for n, c in targets(prog, F, g, i):
                    if n in (RAWRD, RAWWR, 'picotm_rwlock_unlock'):
                        raw.add(n)
                    elif c is not None and depth < 4 and c.lib == 'libc' and not ('struct rwcountermap*' in c.dty[1:] and any(t.startswith('unsigned') for t in c.dty[1:]) and not any(t.startswith('fn*') for t in c.dty[1:])):
                        handed(c, depth + 1)
    handed(f, 0)
    n = [k for k, t in enumerate(f.dty[1:]) if not t.endswith('*')]
    off = [k for k in n if is_offset(prog, f, k, set())]
    if len(off) != 1:
        raise AnalysisBroken('%s: cannot tell record count from record offset' % f.name)
    ln = [k for k in n if k != off[0]][0]
    mode = 'w' if RAWWR in raw else 'r' if RAWRD in raw else 'u' if raw else None
    return (mode, ln, off[0]) if mode else None


def is_offset(prog, f, k, seen):
    """the parameter is divided into page and position"""
    if (f.key, k) in seen:
        return False
    seen.add((f.key, k))
    al = set()
    ch = True

    def hit(o):
        return o[0] == 'a' and o[1] == k or o[0] == 'v' and o[1] in al
    while ch:
        ch = False
        for i in f.instrs():
            if i['i'] in al:
                continue
            o = [x for _, x in i['in']] if i['op'] == 'phi' else i['args'] if i['op'] in ('add', 'freeze', 'zext', 'sext') else []
            if any(hit(x) for x in o):
                al.add(i['i'])
                ch = True
    for i in f.instrs():
        if i['op'] in ('lshr', 'urem', 'udiv', 'and') and hit(i['args'][0]):
            return True
        if i['op'] == 'call' and i['fn'][0] == 'F':
            c = prog.resolve(f, i['fn'][1])
            if c is not None:
                for n, o in enumerate(i['args']):
                    if hit(o) and n < len(c.dty) - 1 and is_offset(prog, c, n, seen):
                        return True
    return False


# -- record arithmetic: off = RS*q + r, n = RS*m + s; forms over q, m, r, s

class Forms:
    def __init__(self, RS, off, n):
        self.RS, self.off, self.n = RS, off, n
        self.O = Octagon({'r': (0, RS - 1), 's': (0, RS - 1)})

    def ev(self, e, O):
        """[(octagon, form)]"""
        RS = self.RS
        if e == self.off:
            return [(O, {'q': RS, 'r': 1})]
        if e == self.n:
            return [(O, {'m': RS, 's': 1})]
        if e[0] == 'i':
            return [(O, {'': e[1]})]
        if e[0] == 'O' and e[1] in ('zext', 'sext', 'trunc', 'freeze'):
            return self.ev(e[2], O)
        if e[0] == 'O' and len(e) == 4:
            out = []
            for O1, a in self.ev(e[2], O):
                for O2, b in self.ev(e[3], O1):
                    out += self.op(e[1], a, b, O2)
            return out
        raise KeyError(e)

    def op(self, op, a, b, O):
        if op in ('add', 'sub'):
            k = 1 if op == 'add' else -1
            d = dict(a)
            for s, c in b.items():
                d[s] = d.get(s, 0) + k * c
            return [(O, d)]
        if set(b) - {''}:
            raise KeyError(op)
        c = b.get('', 0)
        if op in ('mul', 'shl'):
            c = c if op == 'mul' else 1 << c
            return [(O, {s: v * c for s, v in a.items()})]
        rem = op in ('urem', 'srem', 'and')
        if op == 'and':
            if c & (c + 1):
                raise KeyError(op)
            c += 1
        elif op in ('lshr', 'ashr'):
            c = 1 << c
        elif op not in ('udiv', 'sdiv', 'urem', 'srem'):
            raise KeyError(op)
        if c <= 0:
            raise KeyError(op)
        hi = {s: v for s, v in a.items() if s in ('q', 'm')}
        lo = {s: v for s, v in a.items() if s not in ('q', 'm')}
        if any(v % c for v in hi.values()):
            raise KeyError(op)
        l, h = O.bounds(lo)
        if (h // c) - (l // c) > 16:
            raise KeyError(op)
        out = []
        for t in range(l // c, h // c + 1):
            g = {s: -v for s, v in lo.items()}
            g[''] = g.get('', 0) + t * c
            O2 = O.le(g)
            if O2 is None:
                continue
            g = dict(lo)
            g[''] = g.get('', 0) - t * c - c + 1
            O2 = O2.le(g)
            if O2 is None:
                continue
            if rem:
                d = dict(lo)
                d[''] = d.get('', 0) - t * c
            else:
                d = {s: v // c for s, v in hi.items()}
                d[''] = t
            out.append((O2, d))
        return out

    def covers(self, ln, of):
        """None if the records from `of`, `ln` many, cover all bytes of the range; else a description"""
        RS = self.RS
        for O, f in self.ev(of, self.O):
            for O2, l in self.ev(ln, O):
                # first record
                d = dict(f)
                d['q'] = d.get('q', 0) - 1
                if any(v for s, v in d.items() if s in ('q', 'm')) or O2.upper({s: v for s, v in d.items() if s not in ('q', 'm')}) > 0:
                    return 'the first record may come after the first byte'
                # last record: q + m + floor((r+s-1)/RS), for a range that is not empty
                for t in (0, 1):
                    O3 = O2.le({'r': -1, 's': -1, '': t * RS + 1})
                    O3 = O3 and O3.le({'r': 1, 's': 1, '': -(t * RS + RS)})
                    if O3 is None:
                        continue
                    d = {'q': 1, 'm': 1, '': t + 1}
                    for x in (f, l):
                        for s, v in x.items():
                            d[s] = d.get(s, 0) - v
                    if any(v for s, v in d.items() if s in ('q', 'm')) or O3.upper({s: v for s, v in d.items() if s not in ('q', 'm')}) > 0:
                        return 'the last record may come before the last byte'
        return None


class Locks(Rules):
    def __init__(self, prog, maps):
        self.prog, self.maps = prog, maps
        self.release = releases(prog, maps)
        self.out = []
        self.n = {}

    def ob(self, rule, ok, key, site, msg, st=None):
        self.n[rule] = self.n.get(rule, 0) + 1
        self.out.append((rule, bool(ok), key, site.where if hasattr(site, 'where') else site, msg, None if ok or st is None else trace_list(st)))

    def fieldname(self, s, idx):
        p = {'struct.regfile_tx': 'REGFILE_FIELD', 'struct.seekbuf_tx': 'SEEKBUF_FIELD', 'struct.pipebuf_tx': 'PIPEBUF_FIELD', 'struct.sockbuf_tx': 'SOCKBUF_FIELD', 'struct.chrdev_tx': 'CHRDEV_FIELD',
             'struct.dir_tx': 'DIR_FIELD', 'struct.fifo_tx': 'FIFO_FIELD', 'struct.socket_tx': 'SOCKET_FIELD', 'struct.fd_tx': 'FD_FIELD', 'struct.cwd_tx': 'CWD_FIELD', 'struct.locale_tx': 'LOCALE_FIELD'}.get(s)
        if p and idx[0] == 'i':
            E('FILDES_OP_OPEN')
            for n, v in ENUM.items():
                if v == idx[1] and n.startswith(p + '_'):
                    return n[len(p) + 1:]
        return str(idx[1]) if idx[0] == 'i' else '?'

    # -- lock set queries
    def has(self, st, mode, struct, field=None, base=None):
        for x in st.ps:
            if x[0] == 'L' and x[2] == 'struct.' + struct and (mode == 'r' or x[1] == 'w'):
                if field is None or x[3] == ('i', field) or x[3][0] == 'i' and x[3][1] == field:
                    if base is None or x[4] == base:
                        return True
        return False

    def lock(self, pl, eng, st, site, mode, f, args):
        g = args[1]
        w = rwfield(g)
        if f is None or w is None:
            if f is not None and f[1] == I0 or f is None:
                return
            self.ob('pairing', f is None, '%s:%s' % (site.fn.name, f[0]), site, 'the lock of %s[%s] cannot be determined' % (f[0], f[1]), st)
            return
        self.ob('pairing', f[1] == w[1] or f[1][0] == 'i' and w[1][0] == 'i' and f[1][1] == w[1][1], '%s:%s' % (site.fn.name, f[0]), site,
                'the lock state of field %s is used with the lock of field %s' % (self.fieldname(f[0], f[1]), self.fieldname(f[0], w[1])), st)

    # -- cached copies
    CACHED = {'struct.regfile_tx': ('offset', 'REGFILE_FIELD_FILE_OFFSET'), 'struct.seekbuf_tx': ('file_size', 'SEEKBUF_FIELD_FILE_SIZE')}

    def cached(self, addr):
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and addr[2][-1][1] in self.CACHED:
            s = addr[2][-1][1]
            fn, en = self.CACHED[s]
            if self.prog.fieldname(s, addr[2][-1][2]) == fn:
                return s, ('i', E(en), 32), ('P', addr[1], addr[2][:-1]) if addr[2][:-1] else addr[1]
        return None

    def modeof(self, st, c):
        for x in st.ps:
            if x[0] == 'L' and x[2] == c[0] and x[3][0] == 'i' and x[3][1] == c[1][1] and x[4] == c[2]:
                return x[1]
        return None

    def already(self, pl, st, f):
        if f[0] in self.CACHED and f[1][0] == 'i' and f[1][1] == E(self.CACHED[f[0]][1]):
            return st.with_(ps=st.ps | {('V', f[0], f[2])})
        return st

    def load(self, pl, eng, addr, st, site):
        c = self.cached(addr)
        if c:
            m = self.modeof(st, c)
            k = '%s:%s' % (site.fn.name, self.CACHED[c[0]][0])
            self.ob('cached', m is not None, k, site, '%s.%s is read without the lock on %s' % (c[0][7:], self.CACHED[c[0]][0], self.fieldname(c[0], c[1])), st)
            if m is not None:
                self.ob('cached', ('V', c[0], c[2]) in st.ps, k, site, '%s.%s is read before it has been loaded, although the lock is held' % (c[0][7:], self.CACHED[c[0]][0]), st)
        return st

    def store(self, pl, eng, addr, val, st, site):
        c = self.cached(addr)
        if c:
            if not (val[0] == 'i' and val[1] == 0):
                m = self.modeof(st, c)
                fresh = val[0] == 'R' and val[1] == 'lseek' or val[0] == 'T' or val[0] == 'L' and any(x[0] == 'A' for x in mentions(val) if isinstance(x, tuple) and x)
                self.ob('cached', m == 'w' or m == 'r' and fresh, '%s:%s' % (site.fn.name, self.CACHED[c[0]][0]), site,
                        '%s.%s is changed without the writer lock on %s' % (c[0][7:], self.CACHED[c[0]][0], self.fieldname(c[0], c[1])), st)
                st = st.with_(ps=st.ps | {('V', c[0], c[2])})
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and addr[2][-1][1] == 'struct.ioop':
            n = self.prog.fieldname('struct.ioop', addr[2][-1][2])
            if n in ('off', 'nbyte'):
                st = st.with_(ps=st.ps | {('I' + n[0], addr[1], addr[2][:-1], val)})
        if addr[0] == 'P' and addr[2] and addr[2][-1][0] == 'f' and addr[2][-1][1] == 'struct.region':
            st = st.with_(ps=st.ps | {('G' + self.prog.fieldname('struct.region', addr[2][-1][2])[0], addr[1], addr[2][:-1], val)})
        return st

    def leave(self, pl, eng, st, site, how):
        if st.err and any(True for k in st.err):
            pass
        if how != 'return':
            return
        for x in st.ps:
            if x[0] == 'R' and self.release:
                ok = any(o[0] == 'Go' and n[0] == 'Gn' and o[1:3] == n[1:3] and (norm(x[2], {o[3]: 'off', n[3]: 'n'}), norm(x[3], {o[3]: 'off', n[3]: 'n'})) in self.release for o in st.ps for n in st.ps)
                self.ob('region', ok, '%s:kept' % pl.root.name, site, 'a range of records is locked, but the range noted for its release is another one or missing', st)
            if x[0] == 'L' and x[2] in self.CACHED and x[3][0] == 'i' and x[3][1] == E(self.CACHED[x[2]][1]):
                self.ob('cached', ('V', x[2], x[4]) in st.ps, '%s:%s:left' % (pl.root.name, self.CACHED[x[2]][0]), site,
                        'the operation ends with the lock on %s of %s held, but without having loaded %s' % (self.fieldname(x[2], x[3]), x[2][7:], self.CACHED[x[2]][0]), st)

    # -- regions
    def special(self, pl, eng, name, callee, args, st, site, R):
        if callee is not None and callee.key in self.maps:
            mode, ln, of = self.maps[callee.key]
            a = root_of(args[[k for k, t in enumerate(callee.dty[1:]) if t == 'struct rwcountermap*'][0]])
            if mode == 'u':
                ok = any(x[0] == 'R' and x[2:4] == (args[ln], args[of]) for x in st.ps)
                self.ob('region', ok, '%s:unlock' % site.fn.name, site, 'the records that are released are not those that were locked', st)
                ps = frozenset(x for x in st.ps if not (x[0] == 'R' and x[2:4] == (args[ln], args[of])))
                return [(R, st.with_(ps=ps))]
            e = errparams(callee)
            good = st.with_(ps=st.ps | {('R', mode, args[ln], args[of], a)}).note(site.where, 'locks records for %s' % ('writing' if mode == 'w' else 'reading'))
            out = [(R, good)]
            if e:
                out.append((R, st.seterr(args[e[0]], (frozenset({'conflicting'}), name, site.where, False)).note(site.where, 'lock attempt fails')))
            return out
        return None

    def region(self, pl, st, site, off, n, mode, what):
        if any(m[0] == 'T' for m in mentions(off) | mentions(n)):
            self.n['later parts of a range'] = self.n.get('later parts of a range', 0) + 1
            return
        why = 'no region lock is held'
        for x in st.ps:
            if x[0] == 'R' and (mode == 'r' or x[1] == 'w'):
                try:
                    w = Forms(self.recsize(x), off, n).covers(x[2], x[3])
                except KeyError:
                    w = 'the record range does not belong to the byte range'
                if w is None:
                    why = None
                    break
                why = w
        self.ob('region', why is None, '%s:%s' % (site.fn.name, what), site, '%s of file content without %s lock on the whole byte range: %s' % (what, 'writer' if mode == 'w' else 'reader', why), st)

    def recsize(self, x):
        """the record size that the offset is divided by"""
        def consts(e):
            if e[0] == 'O' and len(e) == 4 and e[1] in ('udiv', 'sdiv') and e[3][0] == 'i':
                yield e[3][1]
            elif e[0] == 'O' and len(e) == 4 and e[1] in ('lshr', 'ashr') and e[3][0] == 'i':
                yield 1 << e[3][1]
            elif e[0] == 'O':
                for y in e[2:]:
                    if isinstance(y, tuple):
                        yield from consts(y)
        c = set(consts(x[3]))
        if len(c) != 1:
            raise KeyError('record size')
        return c.pop()

    # -- effects and records
    def effect(self, pl, eng, name, args, R, st, site):
        irr = pl.hasflag(st, 'IRR')
        def need(ok, what, key=None):
            self.ob('effect', ok, '%s:%s:%s' % (site.fn.name, name, key or what), site, '%s without %s' % (name, what), st)
        fds = [a for a in pl.rootargs if a[0] == 'Arg' and a[1] == 'int']
        if name in FD1:
            own = any(a in mentions(args[0]) for a in fds)
            if own:
                need(self.has(st, 'w' if name == 'close' else 'r', 'fd_tx'), '%s lock on the descriptor' % ('writer' if name == 'close' else 'reader'))
        dup = name == 'fcntl' and (args[1][0] != 'Arg' and fixed(st, args[1]) is None and args[1][0] != 'i' or (args[1][1] if args[1][0] == 'i' else fixed(st, args[1])) in (0, 1030))
        if name in FDNEW or dup:
            need(self.has(st, 'w', 'fdtab_tx'), 'writer lock on the descriptor table')
        if name in ('chdir', 'fchdir'):
            need(self.has(st, 'w', 'cwd_tx'), 'writer lock on the working directory')
        if name in ('getcwd', 'get_current_dir_name') or name == 'realpath' and base_of(args[0])[0] != 'A':
            need(self.has(st, 'r', 'cwd_tx'), 'reader lock on the working directory')
        if name in ops.LOCALEOPS:
            self.locale(pl, name, args, st, site, need)
        if irr == I1:
            return st
        if name == 'lseek':
            get = args[1][0] == 'i' and args[1][1] == 0 and args[2][0] == 'i' and args[2][1] == 1
            need(self.has(st, 'r' if get else 'w', 'regfile_tx', E('REGFILE_FIELD_FILE_OFFSET')), '%s lock on the file offset' % ('reader' if get else 'writer'), 'offset')
        if name == 'fchmod':
            need(self.mode(st, 'w'), 'writer lock on the file mode')
        if name == 'fstat' and root_of(args[1])[0] == 'Arg':
            need(self.mode(st, 'r'), 'reader lock on the file mode', 'mode')
            if self.types(st) == {E('PICOTM_LIBC_FILE_TYPE_REGULAR')}:
                need(self.has(st, 'r', 'seekbuf_tx', E('SEEKBUF_FIELD_FILE_SIZE')), 'reader lock on the file size', 'size')
        if name == 'fcntl' and args[0][0] == 'Arg' and not dup:
            ok = any(self.has(st, 'r', s, E(e)) for s, e in (('regfile_tx', 'REGFILE_FIELD_STATE'), ('chrdev_tx', 'CHRDEV_FIELD_STATE'), ('dir_tx', 'DIR_FIELD_STATE'), ('fifo_tx', 'FIFO_FIELD_STATE'),
                                                             ('socket_tx', 'SOCKET_FIELD_STATE'), ('seekbuf_tx', 'SEEKBUF_FIELD_STATE'), ('pipebuf_tx', 'PIPEBUF_FIELD_STATE'), ('sockbuf_tx', 'SOCKBUF_FIELD_STATE')))
            need(ok, 'reader lock on the state of the file', 'state')
        if name in ('write', 'send', 'sendto', 'sendmsg', 'writev'):
            need(self.stream(st, 'w'), 'writer lock on the stream', 'stream')
        if name in ('read', 'recv', 'recvfrom', 'recvmsg', 'readv'):
            need(self.stream(st, 'r'), 'writer lock on the stream', 'stream')
        if name in ('pread', 'pwrite'):
            self.region(pl, st, site, args[3], count(args[2], args[1]), 'r' if name == 'pread' else 'w', name)
        return st

    def types(self, st):
        s = set()
        for x in st.ps:
            if x[0] == 'T':
                s |= x[2]
        return s

    def mode(self, st, m):
        return any(self.has(st, m, s, E(e)) for s, e in (('regfile_tx', 'REGFILE_FIELD_FILE_MODE'), ('chrdev_tx', 'CHRDEV_FIELD_FILE_MODE'), ('dir_tx', 'DIR_FIELD_FILE_MODE'), ('fifo_tx', 'FIFO_FIELD_FILE_MODE'), ('socket_tx', 'SOCKET_FIELD_FILE_MODE')))

    def stream(self, st, way):
        if self.has(st, 'w', 'chrdev_tx', E('CHRDEV_FIELD_STATE')):
            return True
        if way == 'w':
            return self.has(st, 'w', 'pipebuf_tx', E('PIPEBUF_FIELD_WRITE_END')) or self.has(st, 'w', 'sockbuf_tx', E('SOCKBUF_FIELD_SEND_END'))
        return self.has(st, 'w', 'pipebuf_tx', E('PIPEBUF_FIELD_READ_END')) or self.has(st, 'w', 'sockbuf_tx', E('SOCKBUF_FIELD_RECV_END'))

    CAT = {0: 'CTYPE', 1: 'NUMERIC', 2: 'TIME', 3: 'COLLATE', 4: 'MONETARY', 5: 'MESSAGES'}

    def locale(self, pl, name, args, st, site, need):
        if name == 'setlocale':
            m = 'r' if args[1] == ('n',) or args[1] == I0 or st_null(st, args[1]) else 'w'
            c = args[0]
            v = c[1] if c[0] == 'i' else fixed(st, c)
            cats = [self.CAT[v]] if v in self.CAT else list(self.CAT.values())
            need(all(self.has(st, m, 'locale_tx', E('LOCALE_FIELD_' + x)) for x in cats), '%s lock on %s' % ('reader' if m == 'r' else 'writer', 'the category' if len(cats) == 1 else 'every category'), m + str(v))
        elif name == 'localeconv':
            need(all(self.has(st, 'r', 'locale_tx', E('LOCALE_FIELD_' + x)) for x in self.CAT.values()), 'reader lock on every category')
        elif name == 'uselocale':
            q = args[0] == I0 or args[0] == ('n',) or st_null(st, args[0])
            # going back to the locale that was in use before takes nothing away from others
            back = args[0][0] == 'R' and args[0][1] == 'uselocale'
            if not q and not back and args[0][0] != 'i' and fixed(st, args[0]) != -1 and fixed(st, args[0]) != 2 ** 64 - 1:
                need(self.has(st, 'r', 'locale_state_tx'), 'lock on the locale')
        else:
            need(self.has(st, 'w', 'locale_state_tx'), 'writer lock on the locale')

    def record(self, pl, eng, callee, head, args, st, site):
        if 'fildes' not in callee.name and not callee.file.endswith(('fildes_log.c', 'fildes_tx.c')) or head[0] != 'i':
            return
        op = {E(n): n for n in ENUM if n.startswith('FILDES_OP_')}.get(head[1], '')[10:]
        t = self.types(st)
        T = {n: E('PICOTM_LIBC_FILE_TYPE_' + n) for n in ('CHRDEV', 'FIFO', 'REGULAR', 'DIR', 'SOCKET')}

        def need(ok, what):
            self.ob('record', ok, '%s:%s:%s' % (site.fn.name, op, what), site, '%s is recorded without %s' % (op, what), st)
        if op == 'CLOSE':
            need(self.has(st, 'w', 'fd_tx'), 'writer lock on the descriptor')
        elif op in ('OPEN', 'PIPE', 'SOCKET', 'MKSTEMP', 'ACCEPT', 'DUP'):
            need(self.has(st, 'w', 'fdtab_tx'), 'writer lock on the descriptor table')
        if op in ('ACCEPT', 'BIND', 'CONNECT', 'DUP', 'FCHMOD', 'FCNTL', 'FSTAT', 'FSYNC', 'LISTEN', 'LSEEK', 'PREAD', 'PWRITE', 'READ', 'RECV', 'SEND', 'SHUTDOWN', 'WRITE'):
            need(self.has(st, 'r', 'fd_tx'), 'reader lock on the descriptor')
        if pl.hasflag(st, 'IRR') == I1:
            return
        if op in ('READ', 'WRITE', 'LSEEK') and t == {T['REGULAR']}:
            need(self.has(st, 'w', 'regfile_tx', E('REGFILE_FIELD_FILE_OFFSET')), 'writer lock on the file offset')
        if op in ('WRITE', 'SEND') and t and t <= {T['CHRDEV'], T['FIFO'], T['SOCKET']}:
            need(self.stream(st, 'w'), 'writer lock on the stream')
        if op in ('READ', 'RECV') and t and t <= {T['CHRDEV'], T['FIFO'], T['SOCKET']}:
            need(self.stream(st, 'r'), 'writer lock on the stream')
        if op == 'FCHMOD' and t and t <= {T['REGULAR'], T['DIR']}:
            need(self.mode(st, 'w'), 'writer lock on the file mode')
        if op in ('READ', 'WRITE', 'PWRITE') and t == {T['REGULAR']}:
            offs = [x for x in st.ps if x[0] == 'Io']
            lens = [x for x in st.ps if x[0] == 'In']
            need(offs and lens, 'an entry for its byte range')
            for o in offs:
                for l in lens:
                    # what was read is checked where it is read; the entry holds the bytes that were returned
                    if o[1:3] == l[1:3] and op != 'READ':
                        self.region(pl, st, site, o[3], l[3], 'r' if op == 'READ' else 'w', op.lower())


def norm(v, m):
    if v in m:
        return m[v]
    if v[0] == 'O':
        return v[:2] + tuple(norm(x, m) if isinstance(x, tuple) else x for x in v[2:])
    return v


class Release(ErrPlugin):
    max_depth = 16

    def init(self, eng, root):
        return frozenset()

    def keep(self, ps):
        return []

    def overwrite(self, *a):
        pass

    def default(self, eng, name, callee, args, st, site):
        if callee is not None and callee.key in self.maps:
            _, ln, of = self.maps[callee.key]
            m = {}
            for v in mentions(args[ln]) | mentions(args[of]):
                if isinstance(v, tuple) and v[0] == 'L' and v[1][0] == 'P' and v[1][2] and v[1][2][-1][:2] == ('f', 'struct.region'):
                    m[v] = {'o': 'off', 'n': 'n'}[self.prog.fieldname('struct.region', v[1][2][-1][2])[0]]
            self.out.add((norm(args[ln], m), norm(args[of], m)))
            return [(UNDEF, st)]
        if callee is not None and (callee.lib == 'libc' or callee.internal):
            return 'inline'
        return ErrPlugin.default(self, eng, name, callee, args, st, site)


def releases(prog, maps):
    """{(record count, first record)} with which noted ranges are unlocked"""
    c = getattr(prog, '_p10rel', None)
    if c is None:
        c = set()
        R = ops.relevant(prog, {k for k, m in maps.items() if m[0] == 'u'})
        for f in sorted(prog.fns.values(), key=lambda f: f.key):
            if f.key in R and f.key not in maps and any('gep' in i and any(x[0] == 'f' and x[1] == 'struct.region' for x in i['gep'][1]) for i in f.instrs()):
                pl = Release(prog)
                pl.maps, pl.out = maps, c
                Engine(prog, pl).run_root(f)
        if not c:
            raise AnalysisBroken('release of locked ranges not found')
        prog._p10rel = c
    return c


def st_null(st, v):
    f = st.facts.get(v)
    return bool(f) and f[0] == f[1] == 0


def fixed(st, v):
    f = st.facts.get(v)
    return f[0] if f and f[0] == f[1] else None


def count(n, buf):
    """length of a range given as difference of pointers"""
    if n[0] == 'O' and n[1] == 'sub' and n[2][0] == 'P' and len(n[2][2]) == 1 and n[2][2][0][0] == 'x' and n[2][1] == n[3]:
        return n[2][2][0][1]
    return n


class Plug(OpsPlugin):
    def init(self, eng, root):
        self.rootargs = [('Arg', t, k, root.argn[k] if k < len(root.argn) else '') for k, t in enumerate(root.dty[1:])]
        return OpsPlugin.init(self, eng, root)


class Counter(ErrPlugin):
    """one call of a function on the counter of a record and its lock"""
    track_heap = True
    max_depth = 16

    def __init__(self, prog, rep, maps):
        ErrPlugin.__init__(self, prog)
        self.rep, self.maps = rep, maps
        self.paths = self.walks = 0

    def init(self, eng, root):
        self.root = root
        return frozenset()

    def keep(self, ps):
        return []

    def overwrite(self, *a):
        pass

    def failedres(self, v, st):
        return None

    def small(self, site, callee):
        return False

    def failed(self, eng, name, callee, args, e, kinds, R, st, site):
        return st.seterr(e, (kinds, name, site.where, False)).note(site.where, name + ' fails')

    def default(self, eng, name, callee, args, st, site):
        if name in (RAWRD, RAWWR, 'picotm_rwlock_unlock'):
            new = st.with_(ps=st.ps | {(name, args[1] if name == RAWWR else None)}).note(site.where, name)
            if name == 'picotm_rwlock_unlock':
                return [(UNDEF, new)]
            return [(UNDEF, new), (UNDEF, st.seterr(args[-1], (frozenset({'conflicting'}), name, site.where, False)).note(site.where, name + ' fails'))]
        if callee is not None and callee.lib == 'libc' and callee.dty[1:3] == ['struct rwcounter*', 'struct picotm_rwlock*'] and self.root.key in self.maps:
            self.walk(args, st, site)
            return 'inline'
        if callee is not None and callee.key in self.maps:
            m = self.maps.get(self.root.key)
            if m and m[0] != 'u' and self.maps[callee.key][0] == 'u' and any(st.err.values()):
                _, ln, of = self.maps[callee.key]
                ra = [('Arg', t, k, self.root.argn[k]) for k, t in enumerate(self.root.dty[1:])]
                self.rep.ob('pages', args[of] == ra[m[2]] and args[ln] != ra[m[1]], '%s:back' % self.root.name, site.where, '%s: after a failure other records are unlocked than those that were locked' % self.root.name, trace_list(st))
                st = st.with_(ps=st.ps | {('back',)})
            return [(UNDEF, st)]
        if callee is not None and (callee.lib == 'libc' or callee.internal):
            return 'inline'
        if name in ('picotm_treemap_find_value', 'picotm_shared_treemap_find_value') and self.root.key in self.maps:
            st = st.with_(ps=st.ps | {('find', args[1], root_of(args[0]), ('R', name, site.id, site.ctx))})
        return ErrPlugin.default(self, eng, name, callee, args, st, site)

    def on_recover(self, eng, name, e, st, site):
        return [] if name.startswith('picotm_recover') else ErrPlugin.on_recover(self, eng, name, e, st, site)

    def branch(self, eng, cond, truth, st, site):
        if not self.keep_facts:
            return st
        new = {('B', k, r) for k, r in st.facts.items() if k[0] == 'O' and any(x[0] == 'L' and x[1][0] == 'P' and x[1][2][-1][:2] == ('f', 'struct.rwcounter') for x in mentions(k) if isinstance(x, tuple) and x)}
        return st.with_(ps=st.ps | new) if new - st.ps else st

    # every record is locked with its own lock and counted by its own counter
    def walk(self, args, st, site):
        c, l = rwfield(args[0]), rwfield(args[1])
        if any(mentions_t(x) for x in args[:2]):
            return
        self.walks += 1
        of = ('Arg',) + tuple([(t, k, self.root.argn[k]) for k, t in enumerate(self.root.dty[1:])][self.maps[self.root.key][2]])
        key = '%s:%s' % (self.root.name, site.fn.name)
        self.rep.ob('pages', c and l and c[1] == l[1], key, site.where, '%s: the counter of one record is used with the lock of another' % self.root.name, trace_list(st))
        if not (c and l):
            return
        x = c[1]
        n = None
        if x[0] == 'O' and x[1] in ('urem', 'and') and x[2] == of and x[3][0] == 'i':
            n = x[3][1] + (x[1] == 'and')
        self.rep.ob('pages', n is not None, key + ':index', site.where, '%s: the first record handled is not the one at the requested offset' % self.root.name, trace_list(st))
        finds = [y for y in st.ps if y[0] == 'find']
        for b in (c[2], l[2]):
            k = [y[1] for y in finds if y[3] in mentions(b)]
            self.rep.ob('pages', bool(k) and all(pagekey(y, of, n) for y in k), key + ':page', site.where, '%s: the page of the record is not looked up by the record\'s offset' % self.root.name, trace_list(st))

    def ret(self, eng, fn, val, st, site):
        m = self.maps.get(self.root.key)
        if fn.key == self.root.key and not site.ctx and m and m[0] != 'u' and any(st.err.values()) and any(x[0] in (RAWRD, RAWWR) for x in st.ps):
            self.rep.ob('pages', ('back',) in st.ps, '%s:back' % self.root.name, site.where, '%s: after a failure the records locked so far stay locked' % self.root.name, trace_list(st))
            return st
        if fn.key != self.root.key or len(site.ctx) or self.root.key in self.maps:
            return st
        if any(st.err.values()):
            return st
        self.paths += 1
        S = [k for k in st.mem if k[0] == 'P' and k[2] and k[2][-1][0] == 'f' and k[2][-1][1] == 'struct.rwcounter']
        W, B = E('RWCOUNTER_WRITTEN'), E('RWCOUNTER_BITS')
        calls = {x[0]: x[1] for x in st.ps if len(x) == 2}
        name = self.root.name
        old = ('L', S[0]) if len(S) == 1 else None
        if old is None:
            self.rep.ob('counter', False, name, site.where, '%s: a path leaves the counter of the record as it was' % name, trace_list(st))
            return st
        f = {}
        for x in st.ps:
            if x[0] == 'B':     # what a path learned about a value, from all of its branches
                lo, hi, ne = f.get(x[1], x[2])
                f[x[1]] = (max(lo, x[2][0]), min(hi, x[2][1]), frozenset(ne) | frozenset(x[2][2]))
        cnt, wr = zero(f, ('O', 'and', old, ('i', B)), old, B), zero(f, ('O', 'and', old, ('i', W)), old, W)
        mode = self.mode
        try:
            v = decode(st.mem[S[0]], old, W, B)
        except KeyError:
            v = None
        t = trace_list(st)

        def need(ok, what):
            self.rep.ob('counter', ok, '%s:%s' % (name, what), site.where, '%s: %s' % (name, what), t)
        if mode == 'r':
            need(RAWRD in calls or cnt is False or RAWWR in calls, 'a record is counted as locked without having been locked')
            need(not (RAWRD in calls and cnt is False), 'a record is locked twice')
            need(v == ('w', 1, 1), 'the counter of the record is not increased by one')
        elif mode == 'w':
            need(RAWWR in calls or wr is False, 'a record is counted as locked for writing without having been locked')
            need(not (RAWWR in calls and wr is False), 'a record is locked for writing twice')
            if RAWWR in calls:
                need(upgrades(calls[RAWWR], old, B, cnt), 'an upgrade is not announced as such')
            need(v == (1, 1, 1), 'the counter of the record is not increased by one, or not marked as written')
        else:
            if 'picotm_rwlock_unlock' in calls:
                need(v == (0, 0, 0), 'an unlocked record keeps a count')
                need(last(f, old, W, B) is True, 'a record is unlocked while it is still counted')
            else:
                need(v == ('w', 1, -1), 'the counter of the record is not decreased by one')
                need(last(f, old, W, B) is False, 'the last count of a record is removed without unlocking it')
        return st


def mentions_t(v):
    return any(x[0] == 'T' for x in mentions(v) if isinstance(x, tuple) and x)


def pagekey(k, of, n):
    while k[0] == 'O' and k[1] in ('zext', 'trunc', 'sext'):
        k = k[2]
    return k[0] == 'O' and k[2] == of and k[3][0] == 'i' and (k[1] == 'lshr' and 1 << k[3][1] == n or k[1] == 'udiv' and k[3][1] == n)


def zero(f, v, old, m):
    """is v known to be zero (True), known not to be (False) or unknown"""
    for x, (lo, hi, ne) in f.items():
        if x == v or x[0] == 'O' and x[1] == 'and' and len(x) == 4 and x[2] == old and x[3][0] == 'i' and x[3][1] == m:
            if lo == hi == 0:
                return True
            if lo > 0 or hi < 0 or 0 in ne:
                return False
    return None


def last(f, old, W, B):
    """is the count known to be one"""
    for x, (lo, hi, ne) in f.items():
        if x[0] != 'O':
            continue
        try:
            v = decode(x, old, W, B)
        except KeyError:
            continue
        if v[:2] == (0, 1):
            w = 1 + v[2]
            if lo == hi == w:
                return True
            if lo > w or hi < w or w in ne:
                return False
    return None


def upgrades(a, old, B, cnt):
    if a[0] == 'i':
        return cnt is (a[1] == 0)
    return any(x[0] == 'O' and x[1] == 'and' and len(x) == 4 and x[2] == old and x[3][0] == 'i' and x[3][1] == B for x in mentions(a) if isinstance(x, tuple) and x) and flips(a) % 2 == 0


def flips(a):
    """number of negations between the value and its non-zero test"""
    n = 0
    while a[0] == 'O':
        if a[1] in ('zext', 'trunc', 'sext', 'freeze'):
            a = a[2]
        elif a[1] == 'xor':
            n += 1
            a = a[2]
        elif a[1] == 'icmp':
            n += a[2] == 'eq'
            a = a[3]
        else:
            break
    if a[0] == 'C':
        n += a[1] == 'eq'
    return n


def decode(v, old, W, B):
    """(written: 'w' as before, 1, 0; multiple of the old count; constant) of a new state"""
    if v[0] == 'i':
        c = v[1]
        if c < 0:
            return (0, 0, c)
        return (1 if c & W else 0, 0, c & ~W)
    if v == old:
        return ('w', 1, 0)
    if v[0] == 'O' and v[1] in ('zext', 'sext', 'trunc'):
        return decode(v[2], old, W, B)
    if v[0] == 'O' and v[1] == 'and' and v[3][0] == 'i':
        a = decode(v[2], old, W, B)
        if v[3][1] == W:
            return (a[0], 0, 0)
        if v[3][1] == B:
            return (0, a[1], a[2])
    if v[0] == 'O' and v[1] in ('or', 'add', 'sub') and len(v) == 4:
        a, b = decode(v[2], old, W, B), decode(v[3], old, W, B)
        if v[1] == 'sub':
            if b[:2] != (0, 0):
                raise KeyError(v)
            b = (0, 0, -b[2])
        if a[0] != 0 and b[0] != 0 or v[1] == 'or' and a[1:] != (0, 0) and b[1:] != (0, 0):
            raise KeyError(v)
        return (a[0] or b[0], a[1] + b[1], a[2] + b[2])
    raise KeyError(v)


def counters(prog, rep, maps):
    E('RWCOUNTER_BITS')
    roots = []
    for f in prog.fns.values():
        if f.lib == 'libc' and f.dty[1:3] == ['struct rwcounter*', 'struct picotm_rwlock*']:
            raw = {i['fn'][1] for i in f.instrs() if i['op'] == 'call' and i['fn'][0] == 'F'}
            m = 'w' if RAWWR in raw else 'r' if RAWRD in raw else 'u' if 'picotm_rwlock_unlock' in raw else None
            if m:
                roots.append((f, m))
    n = walks = 0
    for f, m in roots:
        pl = Counter(prog, rep, maps)
        pl.mode, pl.keep_facts = m, True
        Engine(prog, pl).run_root(f)
        n += pl.paths
    for k in maps:
        pl = Counter(prog, rep, maps)
        pl.mode = None
        Engine(prog, pl).run_root(prog.fns[k])
        walks += pl.walks
    rep.floor('paths through record counters', n, 5)
    rep.floor('walks over records', walks, 3)


PROG = None


def go(k):
    prog = PROG
    roots, rel, maps, EX = setup(prog)
    fn = prog.fns[k]
    r = Locks(prog, maps)
    pl = Plug(prog, r, rel, EX)
    e = Engine(prog, pl, budget=400000)
    try:
        e.run_root(fn)
    except Exception as x:
        return fn.name, r.out, r.n, len(pl.sites), "%s %s" % (type(x).__name__, x)
    return fn.name, r.out, r.n, len(pl.sites), None


def run(prog, rep):
    global PROG
    PROG = prog
    roots, rel, maps, EX = setup(prog)
    E('FILDES_OP_OPEN')
    if sorted(m[0] for m in maps.values()) != ['r', 'u', 'w']:
        raise AnalysisBroken('the functions that lock and unlock ranges of records were not found')
    counters(prog, rep, maps)
    tot = {}
    with Pool(8) as p:
        for name, out, n, ns, broken in p.imap_unordered(go, roots):
            if broken:
                raise AnalysisBroken('%s: %s' % (name, broken))
            for o in out:
                rep.ob(o[0], o[1], '%s:%s' % (name, o[2]) if o[0] != 'pairing' else o[2], o[3], '%s: %s' % (name, o[4]), o[5])
            for k, v in n.items():
                tot[k] = tot.get(k, 0) + v
    rep.floor('operations', len(roots), 35)
    for k, least in (('effect', 150), ('record', 150), ('cached', 50), ('region', 12), ('pairing', 200)):
        rep.floor('instances of ' + k, tot.get(k, 0), least)
