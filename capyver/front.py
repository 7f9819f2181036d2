"""Front end driver: builds astdump if needed, runs it over /repo/src and loads the result.

The verified text is whatever /repo contains when the check runs: every run re-parses the
translation units below REPO/src (results are only cached inside one content hash)."""
import hashlib, json, os, subprocess, sys, fcntl, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAPYVER_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TUS = None  # None: every .cpp under src except fuzz drivers


def flags():
    inc = ['-I%s/src' % REPO, '-I%s/include' % REPO]
    inc = ['-I' + gen_headers()] + inc
    inc += ['-I/usr/include/libpng16', '-I/usr/include/freetype2']
    return ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18'] + inc + [
        '-D_GLIBCXX_ASSERTIONS=1', '-D_FILE_OFFSET_BITS=64', '-std=c++23', '-fPIC',
        '-DBUILDING_CAPYPDF', '-D__cpp_concepts=202002L', '-Wno-builtin-macro-redefined', '-w']


def gen_headers():
    """capypdf.h is generated from capypdf.h.in by meson's configure step; reproduce it if
    no configured build directory exists."""
    out = os.path.join(BUILD, 'genhdr')
    os.makedirs(out, exist_ok=True)
    src = os.path.join(REPO, 'include', 'capypdf.h.in')
    if os.path.exists(src):
        ver = '0.0.0'
        try:
            m = re.search(r"version\s*:\s*'([^']+)'", open(os.path.join(REPO, 'meson.build')).read())
            ver = m.group(1)
        except Exception:
            pass
        t = open(src).read()
        parts = (ver.split('.') + ['0', '0', '0'])[:3]
        rep = {'CAPYPDF_VERSION_STR': '"%s"' % ver, 'CAPYPDF_VERSION_MAJOR': parts[0], 'CAPYPDF_VERSION_MINOR': parts[1],
               'CAPYPDF_VERSION_MICRO': parts[2]}
        t = re.sub(r'#mesondefine\s+(\w+)',
                   lambda m: '#define %s %s' % (m.group(1), rep[m.group(1)]) if m.group(1) in rep else '/* #undef %s */' % m.group(1), t)
        f = os.path.join(out, 'capypdf.h')
        if os.path.exists(f) and open(f).read() == t:
            return out
        open(os.path.join(out, 'capypdf.h'), 'w').write(t)
    return out


def build_astdump():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'frontend', 'astdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'astdump-' + h)
    with open(os.path.join(BUILD, 'astdump.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            tmp = exe + '.tmp%d' % os.getpid()
            subprocess.run(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src,
                            '-o', tmp, '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1',
                            '-l:libLLVM.so.18.1'], check=True, stdout=sys.stderr)
            os.rename(tmp, exe)
    return exe


def source_hash():
    h = hashlib.sha256()
    for root in ('src', 'include', '_build/include'):
        d = os.path.join(REPO, root)
        for r, _, fs in sorted(os.walk(d)):
            for f in sorted(fs):
                if f.endswith(('.cpp', '.hpp', '.h', '.in')):
                    p = os.path.join(r, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    h.update(open(os.path.join(VERIF, 'frontend', 'astdump.cpp'), 'rb').read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def tu_list():
    d = os.path.join(REPO, 'src')
    return sorted(f[:-4] for f in os.listdir(d) if f.endswith('.cpp') and 'fuzz' not in f)


def dump_all(only=None):
    """returns {tu: path}; raises on parse failure"""
    exe = build_astdump()
    key = source_hash()
    out = os.path.join(BUILD, 'ast-' + key)
    os.makedirs(out, exist_ok=True)
    fl = flags()
    tus = [t for t in tu_list() if only is None or t in only]

    def one(t):
        p = os.path.join(out, t + '.json')
        if os.path.exists(p):
            return t, p, ''
        tmp = p + '.tmp%d' % os.getpid()
        r = subprocess.run([exe, tmp, '%s/src/%s.cpp' % (REPO, t), '%s/src/,%s/include,%s/_build/include' % (REPO, REPO, REPO),
                            '--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           cwd=REPO)
        if r.returncode != 0 or not os.path.exists(tmp):
            return t, None, r.stdout
        os.rename(tmp, p)
        return t, p, r.stdout
    res = {}
    with ThreadPoolExecutor(8) as ex:
        for t, p, o in ex.map(one, tus):
            if p is None:
                raise RuntimeError('front end failed on %s: %s' % (t, o[-2000:]))
            res[t] = p
    # drop stale caches of other source versions
    for d in os.listdir(BUILD):
        if d.startswith('ast-') and d != 'ast-' + key:
            try:
                fn = os.path.join(BUILD, d)
                if os.path.getmtime(fn) < os.path.getmtime(out) - 3600:
                    for f in os.listdir(fn):
                        os.unlink(os.path.join(fn, f))
                    os.rmdir(fn)
            except OSError:
                pass
    return res


# ---------------------------------------------------------------- program
def norm_name(n):
    """strip template arguments: std::vector<int>::operator[] -> std::vector::operator[]"""
    out = []
    depth = 0
    i = 0
    L = len(n)
    while i < L:
        if depth == 0 and n.startswith('operator', i) and (i == 0 or n[i - 1] in ':'):
            j = i + 8
            rest = n[j:]
            for op in ('<=>', '<<=', '>>=', '->*', '<<', '>>', '<=', '>=', '->', '<', '>', '()'):
                if rest.startswith(op):
                    out.append('operator' + op)
                    i = j + len(op)
                    break
            else:
                out.append('operator')
                i = j
            continue
        c = n[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Type:
    __slots__ = ('k', 'n', 'nn', 'args', 't', 'w', 's', 'cnt', 'rec', 'key', 'lam', 'rv', 'p', 'r', 'const', 'sz', '_enum', 'tu')

    def __init__(self):
        for s in self.__slots__:
            setattr(self, s, None)

    def __repr__(self):
        return 'T(%s)' % self.key

    def is_int(self):
        return self.k in ('int', 'enum', 'bool')


class Rec:
    __slots__ = ('name', 'fields', 'bases', 'captures', 'ops', 'lam', 'tu', 'methods', 'dtor', 'outside', 'union', 'id')


class Fn:
    __slots__ = ('tu', 'node', 'name', 'mn', 'id', 'cls', 'params', 'ret', 'body', 'static', 'const',
                 'isctor', 'inits', 'nn', 'file', 'line', 'lamcls')

    def __repr__(self):
        return 'Fn(%s)' % self.name


class TU:
    def __init__(self, prog, name, d):
        self.prog = prog
        self.name = name
        self.rt = d['types']
        self.types = [None] * len(self.rt)
        self.recs = {}
        self.recs_by_id = {}
        for key, r in d['records'].items():
            self.recs_by_id[r['id']] = r
        self.globals = d['globals']
        self.fns = {}
        self.lamfns = {}

    def T(self, i):
        t = self.types[i]
        if t is None:
            t = self._mk(i)
        return t

    def _mk(self, i):
        o = self.rt[i]
        t = Type()
        k = o['k']
        t.k = k
        t.const = o.get('c', False)
        t.tu = self
        prog = self.prog
        if k in ('int', 'enum'):
            t.n = o.get('n')
            t.w = o['w']
            t.s = o['s']
            key = t.n
        elif k == 'bool':
            t.w, t.s = 8, False
            key = 'bool'
        elif k == 'float':
            t.w = o['w']
            key = 'float%d' % t.w
        elif k in ('ptr', 'ref'):
            t.rv = o.get('rv')
            self.types[i] = t
            t.t = self.T(o['t'])
            key = (('*' if k == 'ptr' else '&&' if t.rv else '&') + ('c' if t.t.const else '') + str(t.t.key))
        elif k == 'arr':
            t.t = self.T(o['t'])
            t.cnt = o['cnt']
            key = '%s[%d]' % (t.t.key, t.cnt)
        elif k == 'rec':
            t.n = o['n']
            t.nn = norm_name(t.n)
            t.sz = o.get('sz')
            self.types[i] = t
            args = []
            for a in o.get('a', []):
                if isinstance(a, int):
                    args.append(self.T(a))
                elif a['k'] == 'const':
                    args.append(a['v'])
                elif a['k'] == 'pack':
                    args.append([self.T(x) if isinstance(x, int) else x.get('v') for x in a['a']])
                else:
                    args.append(None)
            t.args = args
            t.lam = o.get('lambda')
            key = t.n
            if t.lam or '(' in t.n:
                key = '%s#%s:%d' % (t.n, self.name, o['id'])
            t.key = key
            self._rec(t, o['id'])
        elif k == 'fn':
            self.types[i] = t
            t.p = [self.T(x) for x in o['p']]
            t.r = self.T(o['r'])
            key = 'fn(%s)%s' % (','.join(str(x.key) for x in t.p), t.r.key)
        else:
            t.n = o.get('n')
            key = k + ':' + str(t.n)
        t.key = key
        self.types[i] = t
        return t

    def _rec(self, t, rid):
        r = self.recs_by_id.get(rid)
        if r is None:
            return
        if rid in self.recs:
            t.rec = self.recs[rid]
            return
        R = Rec()
        self.recs[rid] = R
        t.rec = R
        R.name = r['name']
        R.id = rid
        R.tu = self
        R.outside = r['outside']
        R.union = r['union']
        R.lam = r.get('lambda', False)
        R.captures = r.get('captures')
        R.ops = r.get('ops')
        R.methods = r.get('methods')
        R.dtor = r.get('dtor')
        R.bases = [self.T(b) for b in r['bases']]
        R.fields = []
        for b in R.bases:
            if b.rec:
                R.fields += b.rec.fields
        R.fields += [(f['name'], self.T(f['t']), f.get('init'), f.get('off')) for f in r['fields']]


class Program:
    def __init__(self, paths):
        self.tus = {}
        self.by_mn = {}
        self._complete = {}
        self.by_name = {}
        self.enums = {}
        self.fns = []
        for t, p in paths.items():
            d = json.load(open(p))
            tu = TU(self, t, d)
            self.tus[t] = tu
            for n, e in d['enums'].items():
                self.enums[n] = e
            for f in d['functions']:
                F = Fn()
                F.tu = tu
                F.node = f
                F.name = f['n']
                F.nn = norm_name(f['n'])
                F.mn = f['mn']
                F.id = f['id']
                F.file = f['file']
                F.line = f['line']
                F.cls = f.get('cls')
                F.params = f['params']
                F.ret = f['ret']
                F.body = f['body']
                F.static = f.get('static', False)
                F.const = f.get('const', False)
                F.isctor = f.get('isctor', False)
                F.inits = f.get('inits')
                tu.fns[F.id] = F
                is_lambda = '(lambda' in F.name or '(anonymous class' in F.name
                if F.mn not in self.by_mn and not is_lambda:
                    self.by_mn[F.mn] = F
                    self.by_name.setdefault(F.name, []).append(F)
                    self.fns.append(F)

    def resolve(self, tu, ref):
        f = tu.fns.get(ref['id'])
        if f is not None:
            return f
        mn = ref.get('mn')
        if mn:
            return self.by_mn.get(mn)
        return None

    def complete(self, t):
        """complete definition of a record type that is only declared in its own translation unit"""
        r = self._complete.get(t.n)
        if r is None:
            r = t
            for tu in self.tus.values():
                ids = {x['id'] for x in tu.recs_by_id.values() if x['name'] == t.n}
                for i, o in enumerate(tu.rt):
                    if o['k'] == 'rec' and o['n'] == t.n and o['id'] in ids:
                        c = tu.T(i)
                        if c.rec is not None and not c.const:
                            r = c
                            break
                if r is not t:
                    break
            self._complete[t.n] = r
        return r

    def find(self, name):
        return self.by_name.get(name, [])

    def enum_value(self, enum, name):
        return self.enums[enum]['values'][name]


def load(only=None):
    return Program(dump_all(only))


if __name__ == '__main__':
    build_astdump()
    p = load()
    print(len(p.fns), 'functions')
