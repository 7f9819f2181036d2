"""Builds the real code of /repo (object files, cached by content hash) and links replay harnesses against it."""
import hashlib, os, subprocess, glob, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor
from . import front

HDIR = os.path.join(front.VERIF, 'harness')
SKIP = ('ttf_fuzz.cpp', 'cff_fuzz.cpp')
LIBS = ['-lfreetype', '-llcms2', '-lpng16', '-ljpeg', '-ltiff', '-lz', '-lpthread']


def cxxflags(san):
    f = ['-std=c++23', '-fPIC', '-D_GLIBCXX_ASSERTIONS=1', '-D_FILE_OFFSET_BITS=64', '-DBUILDING_CAPYPDF', '-w', '-g1']
    f += ['-I' + front.gen_headers(), '-I%s/src' % front.REPO, '-I%s/include' % front.REPO, '-I/usr/include/libpng16', '-I/usr/include/freetype2', '-I' + HDIR]
    if san == 'asan':
        f += ['-O1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,float-cast-overflow', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']
    else:
        f += ['-O1']
    return f


def _hash(san):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(os.path.join(front.REPO, 'src'))):
        for f in sorted(fn):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), 'rb').read())
    for f in sorted(glob.glob(os.path.join(front.REPO, 'include', '*'))):
        if os.path.isfile(f):
            h.update(open(f, 'rb').read())
    h.update(repr(cxxflags(san)).encode())
    return h.hexdigest()[:16]


def lib(san=''):
    """-> list of object files of the library built from /repo's working tree; raises RuntimeError when it does not compile"""
    hh = _hash(san)
    out = os.path.join(front.BUILD, 'native', (san or 'plain') + '-' + hh)
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [s for s in sorted(glob.glob(os.path.join(front.REPO, 'src', '*.cpp'))) if os.path.basename(s) not in SKIP]
        objs = []
        todo = []
        for s in srcs:
            o = os.path.join(out, os.path.basename(s) + '.o')
            objs.append(o)
            if not os.path.exists(o):
                todo.append((s, o))

        def one(x):
            s, o = x
            r = subprocess.run(['g++'] + cxxflags(san) + ['-c', s, '-o', o + '.tmp'], capture_output=True, text=True)
            if r.returncode:
                return s + ': ' + r.stderr[-800:]
            os.rename(o + '.tmp', o)
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, todo) if e]
        if errs:
            raise RuntimeError('native build failed: ' + errs[0])
        # keep only the newest few builds
        base = os.path.join(front.BUILD, 'native')
        ds = sorted((d for d in glob.glob(os.path.join(base, '*')) if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-6]:
            if d != out:
                shutil.rmtree(d, ignore_errors=True)
    return out, objs


def harness(name, san='', extra=()):
    """compile harness/<name>.cpp and link it with the real objects; -> path of the executable"""
    out, objs = lib(san)
    src = os.path.join(HDIR, name + '.cpp')
    h = hashlib.sha256()
    for f in [src] + sorted(glob.glob(os.path.join(HDIR, '*.hpp'))):
        h.update(open(f, 'rb').read())
    exe = os.path.join(out, 'h_%s_%s' % (name, h.hexdigest()[:10]))
    if not os.path.exists(exe):
        r = subprocess.run(['g++'] + cxxflags(san) + list(extra) + [src] + objs + ['-o', exe + '.tmp'] + LIBS, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('harness %s failed to build: %s' % (name, r.stderr[-1500:]))
        os.rename(exe + '.tmp', exe)
    return exe


def run_harness(name, args=(), san='', timeout=300, env=None, extra=(), cwd=None):
    """-> dict(fails=[{key,what}], evaluations, distinct, what, samples); a crash of the real code is a failure"""
    import tempfile
    exe = harness(name, san, extra)
    e = dict(os.environ)
    e.update(env or {})
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    tmp = tempfile.mkdtemp(prefix='capyver-h-')
    try:
        try:
            r = subprocess.run([exe] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e, cwd=cwd or tmp, errors='replace')
            out, err, code = r.stdout, r.stderr, r.returncode
        except subprocess.TimeoutExpired as t:
            out = t.stdout.decode(errors='replace') if isinstance(t.stdout, bytes) else (t.stdout or '')
            err, code = 'timeout', None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    res = {'fails': [], 'evaluations': 0, 'distinct': 0, 'what': '', 'samples': []}
    last = ''
    done = False
    for l in out.splitlines():
        if l.startswith('FAIL '):
            k, _, w = l[5:].partition('\t')
            res['fails'].append({'key': k.strip().replace(' ', '_'), 'what': w, 'cmd': [exe] + list(args)})
        elif l.startswith('DONE '):
            done = True
            for kv in l[5:].split('\t'):
                a, _, b = kv.partition('=')
                res[a] = int(b) if b.isdigit() else b
        elif l.startswith('SAMPLE '):
            res['samples'].append(l[7:])
        elif l.startswith('AT '):
            last = l[3:]
    if not done:
        key = last.split('\t')[0].strip().replace(' ', '_') or name
        what = ('the real code did not finish (timeout)' if code is None else 'the real code crashed or aborted (exit %s)' % code) + ' at: ' + last + ' ' + err[-600:].replace('\n', ' | ')
        res['fails'].append({'key': ('hang:' if code is None else 'crash:') + key, 'what': what, 'cmd': [exe] + list(args)})
    return res
