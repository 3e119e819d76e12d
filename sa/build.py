"""Compiles /repo's current library sources to LLVM IR and loads them as JSON.

Nothing of /repo is executed.  Output goes to a private temporary directory
that is removed once loaded (the irdump binary is cached in /verif/build).
"""
import os, re, sys, glob, json, subprocess, tempfile, shutil, atexit, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PICOTM_REPO', '/repo')
CONFIG = os.path.join(VERIF, 'config')
MODULES = ['ptrdata', 'cast', 'arithmetic', 'tm', 'libc', 'libpthread', 'libm', 'txlib']


class AnalysisBroken(Exception):
    pass


def _find(*names):
    for n in names:
        p = shutil.which(n)
        if p:
            return p
    raise AnalysisBroken('missing tool: %s' % (names,))


def irdump_binary():
    src = os.path.join(VERIF, 'sa', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'picotm-sa')):
        p = os.path.join(d, 'irdump-' + h)
        if os.path.exists(p) and os.access(p, os.X_OK):
            return p
    last = None
    for d in (os.path.join(VERIF, 'build'), os.path.join(tempfile.gettempdir(), 'picotm-sa')):
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, 'irdump-' + h)
            tmp = p + '.%d' % os.getpid()
            cxx = _find('clang++-18', 'clang++')
            cfg = _find('llvm-config-18', 'llvm-config')
            fl = subprocess.check_output([cfg, '--cxxflags'], text=True).split()
            ld = subprocess.check_output([cfg, '--ldflags', '--libs'], text=True).split()
            r = subprocess.run([cxx, '-O1'] + fl + [src, '-o', tmp] + ld, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('irdump does not build:\n' + r.stderr[-2000:])
            os.rename(tmp, p)
            return p
        except OSError as e:
            last = e
    raise AnalysisBroken('cannot build irdump: %s' % last)


def include_flags():
    fl = ['-I' + os.path.join(CONFIG, 'config'), '-I' + os.path.join(CONFIG, 'include/picotm/config')]
    for m in MODULES:
        fl.append('-I' + os.path.join(CONFIG, 'modules', m, 'include/picotm/config'))
    q = []
    for base in (CONFIG, REPO):
        q += ['-iquote', os.path.join(base, 'include')]
        for m in MODULES:
            q += ['-iquote', os.path.join(base, 'modules', m, 'include')]
    return fl + q


def base_flags(srcdir):
    return (['-DHAVE_CONFIG_H', '-I.', '-I' + srcdir] + include_flags() +
            ['-include', 'config.h', '-pthread', '-std=c17', '-O0', '-Xclang', '-disable-O0-optnone',
             '-g', '-w', '-fno-builtin', '-fno-discard-value-names'])


def source_units():
    """[(lib, path, srcdir, extra flags)] for every library translation unit of the current tree."""
    units = []
    dirs = [('core', os.path.join(REPO, 'src'))]
    for m in MODULES:
        dirs.append((m, os.path.join(REPO, 'modules', m, 'src')))
    for lib, d in dirs:
        for root, dn, fn in os.walk(d):
            dn.sort()
            for f in sorted(fn):
                if f.endswith('.c'):
                    units.append((lib, os.path.join(root, f), d, []))
    return units


def header_units():
    """TUs that instantiate the header-only modules (all static inline functions emitted)."""
    h = os.path.join(VERIF, 'sa', 'inst')
    return [('inst_cast', os.path.join(h, 'cast.c'), os.path.join(REPO, 'modules/cast/src'), ['-femit-all-decls']),
            ('inst_arith', os.path.join(h, 'arithmetic.c'), os.path.join(REPO, 'modules/arithmetic/src'), ['-femit-all-decls']),
            ('inst_tmct', os.path.join(h, 'tm_ctypes.c'), os.path.join(REPO, 'modules/tm/src'), ['-femit-all-decls'])]


def public_config(text):
    """what configure makes of a public configuration header on the system that config/config.h describes"""
    have = {}
    for l in open(os.path.join(CONFIG, 'config', 'config.h')):
        m = re.match(r'#define\s+(\w+)(?:\s+(.*?))?\s*$', l)
        if m:
            have[m.group(1)] = m.group(2) or ''
    def sub(m):
        return '#define %s %s' % (m.group(1), have[m.group(1)]) if m.group(1) in have else '/* #undef %s */' % m.group(1)
    return re.sub(r'(?m)^[ \t]*#[ \t]*undef[ \t]+(\w+).*$', sub, text)


def application(source, name='app.c'):
    """IR of an application's source, compiled with nothing but the public headers as they are installed"""
    tmp = tempfile.mkdtemp(prefix='picotm-sa-')
    try:
        inc = ['-I' + tmp]
        for d in [''] + ['modules/' + m for m in MODULES]:
            c = os.path.join(REPO, d, 'include')
            inc.append('-I' + c)
            for root, dn, fn in os.walk(c):
                for f in fn:
                    if f.endswith('.h.in'):
                        out = os.path.join(tmp, os.path.relpath(root, c))
                        os.makedirs(out, exist_ok=True)
                        with open(os.path.join(root, f)) as i, open(os.path.join(out, f[:-3]), 'w') as o:
                            o.write(public_config(i.read()))
        path = os.path.join(tmp, name)
        with open(path, 'w') as f:
            f.write(source)
        bc, js = os.path.join(tmp, 'a.bc'), os.path.join(tmp, 'a.json')
        r = subprocess.run([_find('clang-18', 'clang')] + inc + ['-pthread', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-builtin', '-emit-llvm', '-c', path, '-o', bc],
                           capture_output=True, text=True, cwd=tmp)
        if r.returncode == 0:
            r = subprocess.run([irdump_binary(), bc, js], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('cannot compile the application against the public headers:\n' + r.stderr[-2000:])
        return json.load(open(js))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _compile(args):
    unit, tmp, n, dump = args
    lib, path, srcdir, extra = unit
    bc = os.path.join(tmp, '%d.bc' % n)
    js = os.path.join(tmp, '%d.json' % n)
    cc = _find('clang-18', 'clang')
    cmd = [cc] + base_flags(srcdir) + extra + ['-emit-llvm', '-c', path, '-o', bc]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=srcdir)
    if r.returncode:
        return unit, None, r.stderr
    r = subprocess.run([dump, bc, js], capture_output=True, text=True)
    if r.returncode:
        return unit, None, r.stderr
    with open(js) as f:
        text = f.read()
    d = json.loads(text)
    names = anonymous(d['structs'])
    if names:
        d = json.loads(re.sub(r'"(?:struct|union)\.anon(?:\.\d+)?"', lambda m: '"%s"' % names.get(m.group(0)[1:-1], m.group(0)[1:-1]), text))
    os.unlink(bc)
    os.unlink(js)
    return unit, d, ''


def anonymous(structs):
    """names for unnamed structures, which the compiler numbers differently in every unit: owner/member"""
    out = {}
    todo = [k for k in structs if '.anon' not in k]
    while todo:
        k = todo.pop()
        for n, e in enumerate(structs[k]['el']):
            if '.anon' in e[1] and e[1] not in out and e[1] in structs:
                o = out.get(k, k)
                out[e[1]] = '%s/%d' % (o, n)
                todo.append(e[1])
    return out


def load(units):
    dump = irdump_binary()
    tmp = tempfile.mkdtemp(prefix='picotm-sa-')
    try:
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as ex:
            res = list(ex.map(_compile, [(u, tmp, i, dump) for i, u in enumerate(units)]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    out = []
    for u, d, err in res:
        if d is None:
            raise AnalysisBroken('cannot compile %s:\n%s' % (u[1], err[-3000:]))
        out.append((u, d))
    return out


if __name__ == '__main__':
    t = time.time()
    r = load(source_units())
    print(len(r), 'units', sum(len(d['functions']) for _, d in r), 'functions', time.time() - t, 's')
