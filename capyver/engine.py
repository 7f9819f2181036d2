"""capyver engine: symbolic execution / VC generation over the dumped AST."""
import z3, time, os, sys
from .values import *
from .front import norm_name


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """path terminates (noreturn call, infeasible)"""
    pass


class CppThrow(Exception):
    def __init__(self, val):
        self.val = val


class State:
    __slots__ = ('mem', 'pc', 'env', 'ghost', 'taint')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.env = {}
        self.ghost = {}
        self.taint = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.ghost = dict(self.ghost)
        s.taint = self.taint
        return s

    def become(self, o):
        self.mem = dict(o.mem)
        self.pc = list(o.pc)
        self.env = dict(o.env)
        self.ghost = dict(o.ghost)
        self.taint = o.taint


class Ctx:
    __slots__ = ('pref', 'taken', 'work', 'memo', 'ncall', 'nfresh')

    def __init__(self, pref, work, memo):
        self.pref = pref
        self.taken = ()
        self.work = work
        self.memo = memo
        self.ncall = 0
        self.nfresh = 0


class Frame:
    __slots__ = ('id', 'fn', 'tu', 'this', 'depth', 'roots', 'parent', 'lam')

    def __init__(self, fid, fn, tu, this, parent=None):
        self.id = fid
        self.fn = fn
        self.tu = tu
        self.this = this
        self.depth = parent.depth + 1 if parent else 0
        self.roots = []
        self.parent = parent
        self.lam = None


class Obl:
    __slots__ = ('name', 'fn', 'line', 'status', 'model', 'time', 'detail', 'taint', 'backend', 'kind')

    def key(self):
        return (self.name, self.fn, self.line)


MODELS = {}       # std models: normalised name -> fn(E, st, fr, call)
CTORS = {}        # record nn -> fn(E, st, fr, type, args, node)


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def ctor(*names):
    def d(f):
        for n in names:
            CTORS[n] = f
        return f
    return d


class Call:
    __slots__ = ('obj', 'args', 'node', 'f', 'type', 'tu', 'argn')


class Engine:
    def __init__(self, prog, opts=None):
        self.prog = prog
        self.opts = dict(unroll=40, maxpaths=400, maxdepth=40, maxloop=12, timeout=5000, deadline=None,
                         check_bounds=False, check_abort=False, merge=True)
        self.opts.update(opts or {})
        self.obls = []
        self.ctxs = []
        self.overrides = {}     # nn -> fn(E, st, fr, call) -> value | NotImplemented
        self.fnhooks = {}
        self.seltab = {}          # text picked from a constant table -> the table       # mn/name hooks on program functions (contracts)
        self.rtype = {}
        self.solver_time = 0.0
        self.nchecks = 0
        self.axioms = []
        self._axset = set()
        self._solver = z3.SolverFor('QF_AUFBVFP') if False else z3.Solver()
        self._solver.set('timeout', self.opts['timeout'])
        self._stk = []
        self._naxiom = 0
        self._cache = {}
        self.external = {}      # external functions havocked -> count
        self.assumptions = set()
        self.inlined = set()
        self.contract_used = set()
        self.globals = {}
        self.loop_invs = []
        self.mapfrom = {}
        self.elname = {}
        self.loops, self.absof = {}, {}     # joint loops: what an iteration does; abstract text -> (loop, text before it)
        self.rope_dom = None
        self.hooks = {}
        self.curfn = None
        self._lens = {}
        self.strict_enum = True
        self.loopstats = [0, 0]
        self.visited_lines = set()
        self._mergepc = []
        self._mergemem = {}

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        if self._naxiom != len(self.axioms):
            self._solver.reset()
            self._solver.set('timeout', self.opts['timeout'])
            for a in self.axioms:
                self._solver.add(a)
            self._naxiom = len(self.axioms)
            self._stk = []
        i = 0
        n = min(len(pc), len(self._stk))
        while i < n and pc[i] is self._stk[i]:
            i += 1
        if len(self._stk) > i:
            self._solver.pop(len(self._stk) - i)
            del self._stk[i:]
        for c in pc[i:]:
            self._solver.push()
            self._solver.add(c)
            self._stk.append(c)

    def check(self, pc, extra=None):
        """z3 result for pc /\\ extra"""
        if extra is False:
            return z3.unsat
        if extra is True:
            extra = None
        if self.opts['deadline'] and time.time() > self.opts['deadline']:
            raise Unsupported('deadline')
        key = (tuple(c.get_id() for c in pc), extra.get_id() if extra is not None else 0, len(self.axioms))
        r = self._cache.get(key)
        if r is not None:
            return r[0]
        t = time.time()
        self._sync(pc)
        if extra is not None:
            self._solver.push()
            self._solver.add(extra)
        r = self._solver.check()
        self._model = None
        if r == z3.sat:
            try:
                self._model = self._solver.model()
            except z3.Z3Exception:
                pass
        if extra is not None:
            self._solver.pop()
        self.solver_time += time.time() - t
        self.nchecks += 1
        self._cache[key] = (r, tuple(pc), extra)
        return r

    def feasible(self, st, c=None):
        if c is False:
            return False
        return self.check(st.pc, c) != z3.unsat

    def decide3(self, st, c):
        """True/False if c is determined under st.pc, else None"""
        if isinstance(c, bool):
            return c
        c = simp(c)
        if isinstance(c, bool):
            return c
        if not self.feasible(st, c):
            return False
        if not self.feasible(st, z3.Not(c)):
            return True
        return None

    def assume(self, st, c):
        c = simp(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        st.pc.append(c)

    def decide(self, st, c):
        """branch on c inside an expression (may fork)"""
        d = self.decide3(st, c)
        if d is not None:
            if not isinstance(simp(c), bool):
                pass
            return d
        i = self.choose(2)
        c = simp(c)
        if i == 0:
            st.pc.append(c)
            return True
        st.pc.append(znot(c))
        return False

    def choose(self, n):
        if n == 1:
            return 0
        if not self.ctxs:
            raise Unsupported('fork outside statement')
        ctx = self.ctxs[-1]
        k = len(ctx.taken)
        if k < len(ctx.pref):
            d = ctx.pref[k]
        else:
            d = 0
            for j in range(n - 1, 0, -1):
                ctx.work.append(ctx.taken + (j,))
            if len(ctx.work) > self.opts['maxpaths']:
                raise Unsupported('path explosion')
        ctx.taken = ctx.taken + (d,)
        ctx.nfresh = 0
        return d

    def run_paths(self, st0, thunk):
        res = []
        work = [()]
        memo = {}
        while work:
            pref = work.pop()
            ctx = Ctx(pref, work, memo)
            self.ctxs.append(ctx)
            st = st0.copy()
            try:
                v = thunk(st)
                res.append((st, 'n', v))
            except CppThrow as t:
                res.append((st, 'throw', t.val))
            except PathEnd:
                pass
            finally:
                self.ctxs.pop()
            if len(res) > self.opts['maxpaths']:
                raise Unsupported('path explosion')
        return res

    def uid(self):
        if self.ctxs:
            ctx = self.ctxs[-1]
            k = ('u', ctx.taken, ctx.ncall, ctx.nfresh)
            ctx.nfresh += 1
            u = ctx.memo.get(k)
            if u is None:
                u = uid()
                ctx.memo[k] = u
            return u
        return uid()

    # ------------------------------------------------------------ obligations
    def oblige(self, st, c, name, line=0, fn=None, kind='post', detail=None):
        o = Obl()
        o.name = name
        o.kind = kind
        o.fn = fn or self.curfn
        o.line = line
        o.model = None
        o.detail = detail
        o.taint = st.taint
        o.backend = 'z3'
        t = time.time()
        if isinstance(c, bool) or isinstance(simp(c), bool):
            c = simp(c)
            if c:
                o.status = 'discharged'
                o.backend = 'evaluation'
            else:
                r = self.check(st.pc)
                if r == z3.unsat:
                    o.status = 'discharged'
                elif r == z3.sat:
                    o.status = 'refuted'
                    o.model = self._getmodel(st.pc, None)
                else:
                    o.status = 'unknown'
        else:
            r = self.check(st.pc, z3.Not(c))
            if r == z3.unsat:
                o.status = 'discharged'
            elif r == z3.sat:
                o.status = 'refuted'
                o.model = self._getmodel(st.pc, z3.Not(c))
            else:
                o.status = self.second_opinion(st.pc, z3.Not(c), o)
        o.time = time.time() - t
        self.obls.append(o)
        return o.status == 'discharged'

    def second_opinion(self, pc, neg, o):
        s = z3.Solver()
        for a in self.axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(neg)
        try:
            import subprocess
            txt = s.to_smt2()
            r = subprocess.run(['cvc5', '--tlimit=20000', '--lang=smt2', '-'], input='(set-logic ALL)\n' + txt,
                               text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=30)
            out = r.stdout.strip().split('\n')[0]
            o.backend = 'cvc5'
            return {'unsat': 'discharged', 'sat': 'refuted'}.get(out, 'unknown')
        except Exception:
            return 'unknown'

    def _getmodel(self, pc, extra):
        s = z3.Solver()
        s.set('timeout', self.opts['timeout'])
        for a in self.axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        if extra is not None:
            s.add(extra)
        if s.check() == z3.sat:
            m = s.model()
            d = {}
            for x in m.decls():
                try:
                    d[x.name()] = str(m[x])[:200]
                except Exception:
                    pass
            return d
        return None

    def taint(self, st, why):
        st.taint = st.taint | {why}

    # ------------------------------------------------------------ memory
    def newroot(self, fr, name, t, st, val):
        r = '%s!%d' % (name, self.uid())
        st.mem[r] = val
        self.rtype[r] = t
        if fr is not None:
            fr.roots.append(r)
        return Loc(r)

    def nroot(self, fr, r, t, st, val):
        st.mem[r] = val
        self.rtype[r] = t
        if fr is not None and r not in fr.roots:
            fr.roots.append(r)
        return Loc(r)

    def heap(self, name, t, st, val):
        r = '@%s!%d' % (name, self.uid())
        st.mem[r] = val
        self.rtype[r] = t
        return Loc(r)

    def force(self, v, st):
        if isinstance(v, LazyV):
            return self.fresh_now(v.t, v.name, st)
        return v

    def load(self, st, loc):
        if not isinstance(loc, Loc):
            raise Unsupported('load of %r' % (loc,))
        if loc.root not in st.mem:
            raise Unsupported('load of dead root %s' % loc.root)
        v = st.mem[loc.root]
        if isinstance(v, LazyV):
            v = self.force(v, st)
            st.mem[loc.root] = v
        if not loc.path:
            return v
        nv, res = self._walk(st, v, loc.path)
        if nv is not v:
            st.mem[loc.root] = nv
        return res

    def _walk(self, st, v, path):
        """returns (possibly updated container (caching), value)"""
        if isinstance(v, LazyV):
            v = self.force(v, st)
        if not path:
            return v, v
        a = path[0]
        k = a[0]
        if k == 'f':
            if not isinstance(v, SV):
                raise Unsupported('field %s of %r' % (a[1], v))
            if a[1] not in v.f:
                ft = [f[1] for f in v.t.rec.fields if f[0] == a[1]] if v.t.rec else []
                if not ft or ft[0].k != 'arr':
                    raise Unsupported('no field %s in %s' % (a[1], v.t.key))
                v = v.set(a[1], VecV(ft[0].t, self.uid(), ft[0].cnt, 0, (), None, True))    # an array that was not initialised
            sub = v.f[a[1]]
            nsub, res = self._walk(st, sub, path[1:])
            if nsub is not sub:
                v = v.set(a[1], nsub)
            return v, res
        if k == 'i':
            if isinstance(v, StrV):
                return v, self.str_at(st, v.p, a[1])
            if isinstance(v, VecV):
                nv, el = self.vec_get(st, v, a[1])
                if len(path) == 1:
                    return nv, el
                nel, res = self._walk(st, el, path[1:])
                if nel is not el:
                    nv = self.vec_set(st, nv, a[1], nel, cache=True)
                return nv, res
            raise Unsupported('index of %r' % (v,))
        if k == 'opt':
            if isinstance(v, OptV):
                sub = v.v
                nsub, res = self._walk(st, sub, path[1:])
                if nsub is not sub:
                    v = OptV(v.t, v.has, nsub)
                return v, res
            if isinstance(v, ExpV):
                sub = v.v
                nsub, res = self._walk(st, sub, path[1:])
                if nsub is not sub:
                    v = ExpV(v.t, v.ok, nsub, v.e)
                return v, res
            raise Unsupported('opt of %r' % (v,))
        if k == 'err':
            return v, v.e
        if k == 'alt':
            if not isinstance(v, VarV):
                raise Unsupported('alt of %r' % (v,))
            sub = v.alts.get(a[1])
            if sub is None:
                sub = LazyV(v.t.args[0][a[1]] if isinstance(v.t.args[0], list) else v.t.args[a[1]], 'alt%d' % self.uid())
            nsub, res = self._walk(st, sub, path[1:])
            if nsub is not v.alts.get(a[1]):
                d = dict(v.alts)
                d[a[1]] = nsub
                v = VarV(v.t, v.idx, d)
            return v, res
        if k == 'mapv':
            # value of a map entry: ('mapv', entryindex)
            ent = v.entries[a[1]]
            sub = ent[1]
            nsub, res = self._walk(st, sub, path[1:])
            if nsub is not sub:
                es = list(v.entries)
                es[a[1]] = (ent[0], nsub)
                v = MapV(v.t, v.uid, v.size, tuple(es))
            return v, res
        raise Unsupported('path %r' % (a,))

    def store(self, st, loc, val):
        if not isinstance(loc, Loc):
            raise Unsupported('store to %r' % (loc,))
        h = self.hooks.get('store')
        if h:
            h(self, st, loc, val)
        if not loc.path:
            st.mem[loc.root] = val
            return
        if loc.root not in st.mem:
            raise Unsupported('store to dead root')
        st.mem[loc.root] = self._put(st, st.mem[loc.root], loc.path, val)

    refining = False

    def refine(self, st, loc, val):
        """more is known about the value at a location; nothing is assigned"""
        self.refining = bool(self.opts.get('refine'))
        try:
            if not loc.path:
                st.mem[loc.root] = val
            elif loc.root in st.mem:
                st.mem[loc.root] = self._put(st, st.mem[loc.root], loc.path, val)
        finally:
            self.refining = False

    def _put(self, st, v, path, val):
        if not path:
            return val
        if isinstance(v, LazyV):
            v = self.force(v, st)
        a = path[0]
        k = a[0]
        if k == 'f':
            if not isinstance(v, SV):
                raise Unsupported('store field of %r' % (v,))
            return v.set(a[1], self._put(st, v.f.get(a[1]), path[1:], val))
        if k == 'i':
            if isinstance(v, StrV):
                return self.str_put(st, v, a[1], val)
            if isinstance(v, VecV):
                if len(path) == 1:
                    return self.vec_set(st, v, a[1], val, cache=self.refining)
                nv, el = self.vec_get(st, v, a[1])
                return self.vec_set(st, nv, a[1], self._put(st, el, path[1:], val), cache=self.refining)
        if k == 'opt':
            if isinstance(v, OptV):
                return OptV(v.t, v.has, self._put(st, v.v, path[1:], val))
            if isinstance(v, ExpV):
                return ExpV(v.t, v.ok, self._put(st, v.v, path[1:], val), v.e)
        if k == 'alt':
            d = dict(v.alts)
            d[a[1]] = self._put(st, d.get(a[1]), path[1:], val)
            return VarV(v.t, v.idx, d)
        if k == 'mapv':
            es = list(v.entries)
            es[a[1]] = (es[a[1]][0], self._put(st, es[a[1]][1], path[1:], val))
            return MapV(v.t, v.uid, v.size, tuple(es))
        raise Unsupported('store path %r' % (a,))

    # ------------------------------------------------------------ sequences
    def vsize(self, v):
        if isinstance(v, StrV):
            return self.str_len(v.p)
        if isinstance(v, VecV):
            if isinstance(v.bsize, int):
                return v.bsize + len(v.tail)
            if not v.tail:
                return v.bsize
            return v.bsize + z3.BitVecVal(len(v.tail), 64)
        if isinstance(v, MapV):
            return v.size
        raise Unsupported('size of %r' % (v,))

    def idxkey(self, i):
        return i if isinstance(i, int) else ('t', i.get_id())

    def vec_get(self, st, v, i):
        i = simp(i) if is_z3(i) else i
        if is_z3(i) and z3.is_bv_value(i):
            i = i.as_long()
        if isinstance(i, int) and isinstance(v.bsize, int):
            if i < v.bsize:
                pass
            elif i - v.bsize < len(v.tail):
                el = v.tail[i - v.bsize]
                if isinstance(el, LazyV):
                    el = self.force(el, st)
                    t = list(v.tail)
                    t[i - v.bsize] = el
                    v = VecV(v.et, v.buid, v.bsize, v.boff, tuple(t), v.known, v.fixed)
                return v, el
            else:
                # out of range read: obligations are raised separately
                return v, self.fresh(v.et, 'oob%d' % self.uid(), st)
        if v.tail and isinstance(v.bsize, int) and v.bsize == 0 and not isinstance(i, int):
            # symbolic index into a fully concrete sequence
            vals = v.tail
            if len(vals) <= 300 and all(isinstance(x, (int, bool)) or isinstance(x, z3.BitVecRef) for x in vals):
                w = v.et.w
                r = tobv(vals[-1], w)
                for j in range(len(vals) - 2, -1, -1):
                    r = z3.If(i == j, tobv(vals[j], w), r)
                return v, r
            key = self.idxkey(i)
            if key in v.known:
                return v, v.known[key][0]
            if len(vals) <= 24:
                for j in range(len(vals) - 1):
                    if self.decide(st, i == j):
                        return self.vec_get(st, v, j)
                return self.vec_get(st, v, len(vals) - 1)
            nm = 'sel!%d' % self.uid()
            el = self.fresh(v.et, nm, st)
            if all(isinstance(x, PtrV) and x.loc is not None and isinstance(st.mem.get(x.loc.root), StrV) and all(isinstance(y, bytes) for y in st.mem[x.loc.root].p) for x in vals):
                self.seltab[nm] = [b''.join(st.mem[x.loc.root].p).rstrip(b'\0') for x in vals]
            d = dict(v.known)
            d[key] = (el, False, i)
            return VecV(v.et, v.buid, v.bsize, v.boff, v.tail, d, v.fixed), el
        if v.tail and not isinstance(v.bsize, int):
            # is it in the tail?
            iv = tobv(i, 64)
            for j in range(len(v.tail)):
                e = simp(iv == v.bsize + j)
                if e is True or (e is not False and self.decide3(st, e) is True):
                    el = v.tail[j]
                    if isinstance(el, LazyV):
                        el = self.force(el, st)
                    return v, el
            d = self.decide3(st, z3.ULT(iv, v.bsize))
            if d is None and len(v.tail) == 1:
                # inside [0,size): either base or tail
                if not self.decide(st, z3.ULT(iv, v.bsize)):
                    return v, self.force(v.tail[0], st)
        key = self.idxkey(i)
        if key in v.known:
            return v, v.known[key][0]
        if not isinstance(i, int):
            for k2, (val, wr, idx) in v.known.items():
                if wr and self.decide3(st, tobv(i, 64) == tobv(idx, 64)) is True:
                    return v, val
        el = self.base_elem(st, v, i)
        d = dict(v.known)
        d[key] = (el, False, i)
        return VecV(v.et, v.buid, v.bsize, v.boff, v.tail, d, v.fixed), el

    def base_elem(self, st, v, i):
        if v.et.k in ('int', 'enum', 'bool') and v.buid is not None:
            w = v.et.w
            arr = z3.Array('arr!%s!%d' % (v.buid, w), z3.BitVecSort(64), z3.BitVecSort(w))
            idx = tobv(i, 64)
            if not (isinstance(v.boff, int) and v.boff == 0):
                idx = idx + tobv(v.boff, 64)
            r = z3.Select(arr, z3.simplify(idx))
            if v.et.k == 'bool':
                return z3.Extract(0, 0, r) == 1
            h = self.hooks.get('elem')
            if h:
                h(self, st, v, r)
            return r
        if v.et.k == 'float' and v.buid is not None:
            srt = F64 if v.et.w == 64 else F32
            arr = z3.Array('arrf!%s' % v.buid, z3.BitVecSort(64), srt)
            idx = tobv(i, 64)
            if not (isinstance(v.boff, int) and v.boff == 0):
                idx = idx + tobv(v.boff, 64)
            r = z3.Select(arr, z3.simplify(idx))
            h = self.hooks.get('elem')
            if h:
                h(self, st, v, r)
            return r
        # the base sequence never changes: the same index always denotes the same element
        kk = (v.buid, self.idxkey(i), self.idxkey(v.boff))
        nm = self.elname.get(kk)
        if nm is None:
            nm = self.elname[kk] = ('el!%s!%d' % (v.buid, self.uid()), i, v.boff)
        el = self.fresh(v.et, nm[0], st)
        h = self.hooks.get('elem')
        if h:
            h(self, st, v, el)
        return el

    def vec_set(self, st, v, i, val, cache=False):
        i = simp(i) if is_z3(i) else i
        if is_z3(i) and z3.is_bv_value(i):
            i = i.as_long()
        if isinstance(i, int) and isinstance(v.bsize, int):
            j = i - v.bsize
            if 0 <= j < len(v.tail):
                t = list(v.tail)
                t[j] = val
                return VecV(v.et, v.buid, v.bsize, v.boff, tuple(t), v.known, v.fixed)
        if v.tail and not isinstance(v.bsize, int):
            iv = tobv(i, 64)
            for j in range(len(v.tail)):
                e = self.decide3(st, iv == v.bsize + j)
                if e is True:
                    t = list(v.tail)
                    t[j] = val
                    return VecV(v.et, v.buid, v.bsize, v.boff, tuple(t), v.known, v.fixed)
            if not cache and self.decide3(st, z3.ULT(iv, v.bsize)) is not True:
                # target may be any element: forget all elements but this one
                return VecV(v.et, self.uid(), self.vsize(v), 0, (), {self.idxkey(i): (val, True, i)}, v.fixed)
        elif v.tail and not isinstance(i, int):
            if cache:
                d = dict(v.known)
                d[self.idxkey(i)] = (val, False, i)
                return VecV(v.et, v.buid, v.bsize, v.boff, v.tail, d, v.fixed)
            # symbolic store into concrete sequence: generalise
            sz = self.vsize(v)
            return VecV(v.et, self.uid(), sz, 0, (), {self.idxkey(i): (val, True, i)}, v.fixed)
        key = self.idxkey(i)
        if cache:
            d = dict(v.known)
            old = d.get(key)
            d[key] = (val, old[1] if old else False, i)
        else:
            # any other cached entry that may alias is dropped; base identity changes
            d = {}
            for k2, (x, wr, idx) in v.known.items():
                if k2 != key and self.decide3(st, tobv(i, 64) == tobv(idx, 64)) is False:
                    d[k2] = (x, True, idx)
            d[key] = (val, True, i)
            return VecV(v.et, self.uid(), v.bsize, v.boff, v.tail, d, v.fixed)
        return VecV(v.et, v.buid, v.bsize, v.boff, v.tail, d, v.fixed)

    def vec_push(self, st, v, val):
        h = self.hooks.get('push')
        if h:
            h(self, st, v, val)
        return VecV(v.et, v.buid, v.bsize, v.boff, v.tail + (val,), v.known, v.fixed)

    # ------------------------------------------------------------ strings
    def lenvar(self, key):
        k = 'len!%s' % (key,)
        v = self._lens.get(k)
        if v is None:
            v = z3.BitVec(k, 64)
            self._lens[k] = v
            self.axiom(z3.ULT(v, z3.BitVecVal(1 << 40, 64)))
        return v

    def piece_len(self, x):
        if isinstance(x, bytes):
            return len(x)
        k = x[0]
        if k == 'ch':
            return 1
        if k == 'in':
            return x[3]
        if k == 'fmt':
            kk = 'f!%s!%s!%s' % (x[1], x[2], x[3].get_id() if is_z3(x[3]) else x[3])
            if kk not in self._lens_extra:
                self._lens_extra.add(kk)
                self.axiom(z3.UGE(self.lenvar(kk), 1))
                self._keep.append(x[3])
            return self.lenvar(kk)
        if k == 'cls':
            return self.lenvar('c!%s!%s' % (x[1], x[2]))
        if k == 'abs':
            return self.lenvar('a!%s' % x[1])
        if k == 'choice':
            a = self.str_len(x[2])
            b = self.str_len(x[3])
            if same_term(a, b):
                return a
            return z3.If(zbool(x[1]), tobv(a, 64), tobv(b, 64))
        raise Unsupported('len of piece %r' % (x,))

    _lens_extra = set()
    _keep = []

    def str_len(self, p):
        c = 0
        s = None
        for x in p:
            l = self.piece_len(x)
            if isinstance(l, int):
                c += l
            else:
                s = l if s is None else s + l
        if s is None:
            return c
        if c:
            return s + z3.BitVecVal(c, 64)
        return s

    def str_at(self, st, p, i):
        i = simp(i) if is_z3(i) else i
        if is_z3(i) and z3.is_bv_value(i):
            i = i.as_long()
        off = 0
        for n, x in enumerate(p):
            l = self.piece_len(x)
            if isinstance(x, tuple) and x[0] == 'in':
                rel = i - off if isinstance(i, int) and isinstance(off, int) else tobv(i, 64) - tobv(off, 64)
                inside = True if n == len(p) - 1 else None
                if inside is None:
                    c = z3.ULT(tobv(rel, 64), tobv(l, 64))
                    inside = self.decide(st, c)
                if inside:
                    arr = z3.Array('in!%s' % x[1], z3.BitVecSort(64), z3.BitVecSort(8))
                    idx = tobv(rel, 64)
                    if not (isinstance(x[2], int) and x[2] == 0):
                        idx = idx + tobv(x[2], 64)
                    return z3.Select(arr, z3.simplify(idx))
            elif isinstance(l, int) and isinstance(i, int) and isinstance(off, int):
                if i < off + l:
                    if isinstance(x, bytes):
                        return wrap(x[i - off], 8, True)
                    if x[0] == 'ch':
                        return x[1]
            elif isinstance(l, int) and isinstance(x, bytes) and l <= 512 and not isinstance(i, int) and len(p) == 1:
                r = z3.BitVecVal(0, 8)
                for j in range(l):
                    r = z3.If(i == j, z3.BitVecVal(x[j], 8), r)
                return r
            if isinstance(off, int) and isinstance(l, int):
                off = off + l
            else:
                off = tobv(off, 64) + tobv(l, 64)
        return z3.BitVec('ch!%d' % self.uid(), 8)

    def str_put(self, st, v, i, val):
        if isinstance(i, int):
            off = 0
            out = []
            done = False
            for x in v.p:
                l = self.piece_len(x)
                if not done and isinstance(l, int) and i < off + l:
                    if isinstance(x, bytes):
                        k = i - off
                        if x[:k]:
                            out.append(x[:k])
                        out.append(self.chpiece(val))
                        if x[k + 1:]:
                            out.append(x[k + 1:])
                    else:
                        out.append(self.chpiece(val))
                    done = True
                    continue
                if not isinstance(l, int) and not done:
                    raise Unsupported('string element store')
                out.append(x)
                if isinstance(l, int):
                    off += l
            return StrV(tuple(out))
        raise Unsupported('string element store')

    def chpiece(self, c):
        if isinstance(c, int):
            return bytes([c & 0xff])
        c = simp(c)
        if z3.is_bv_value(c):
            return bytes([c.as_long() & 0xff])
        return ('ch', c)

    def str_back(self, st, p):
        """last char; may fork on choices. returns (pieces, char)"""
        p = list(p)
        while p:
            x = p[-1]
            if isinstance(x, bytes):
                if x:
                    return tuple(p), wrap(x[-1], 8, True)
                p.pop()
                continue
            if x[0] == 'ch':
                return tuple(p), x[1]
            if x[0] == 'choice':
                p.pop()
                p.extend(x[2] if self.decide(st, x[1]) else x[3])
                continue
            if x[0] == 'in':
                nz = simp(tobv(x[3], 64) != 0)
                if self.decide(st, nz):
                    arr = z3.Array('in!%s' % x[1], z3.BitVecSort(64), z3.BitVecSort(8))
                    return tuple(p), z3.Select(arr, z3.simplify(tobv(x[2], 64) + tobv(x[3], 64) - 1))
                p.pop()
                continue
            if x[0] == 'fmt' and x[1] in ('i', 'd'):
                c = z3.BitVec('dig!%d' % self.uid(), 8)
                if x[1] == 'i' and x[2] in ('', '010') or x[2] == 'f':
                    st.pc.append(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)))
                return tuple(p), c
            c = z3.BitVec('lastch!%d' % self.uid(), 8)
            if self.rope_dom:
                self.rope_dom.last_char(self, st, x, c)
            return tuple(p), c
        return (), z3.BitVec('ch!%d' % self.uid(), 8)

    def cat(self, p, q):
        if p and q and isinstance(p[-1], bytes) and isinstance(q[0], bytes):
            return p[:-1] + (p[-1] + q[0],) + q[1:]
        return tuple(x for x in p + q if x != b'')

    def str_fresh(self, name):
        ln = self.lenvar('in!' + str(name))
        return StrV((('in', name, 0, ln),))

    def resolve_choices(self, st, p):
        """replace choices decided by the path condition"""
        out = ()
        for x in p:
            if isinstance(x, tuple) and x[0] == 'choice':
                d = self.decide3(st, x[1])
                if d is True:
                    out = self.cat(out, self.resolve_choices(st, x[2]))
                    continue
                if d is False:
                    out = self.cat(out, self.resolve_choices(st, x[3]))
                    continue
            out = self.cat(out, (x,))
        return out

    def concrete_str(self, v):
        if isinstance(v, StrV):
            if not v.p:
                return b''
            if len(v.p) == 1 and isinstance(v.p[0], bytes):
                return v.p[0]
        return None

    # ------------------------------------------------------------ fresh values
    def fresh(self, t, name, st):
        return self.fresh_now(t, '%s' % name, st)

    def fresh_now(self, t, name, st):
        k = t.k
        h = self.hooks.get('fresh')
        if h:
            r = h(self, t, name, st)
            if r is not None:
                return r
        if k == 'int':
            return z3.BitVec('%s' % name, t.w)
        if k == 'enum':
            v = z3.BitVec('%s' % name, t.w)
            e = self.prog.enums.get(t.n)
            if self.strict_enum and e and e['values'] and t.n != 'std::byte' and not name.startswith('api!'):
                vals = sorted(set(e['values'].values()))
                if len(vals) == vals[-1] - vals[0] + 1:
                    st.pc.append(z3.And(v >= vals[0], v <= vals[-1]) if t.s else z3.And(z3.UGE(v, vals[0]), z3.ULE(v, vals[-1])))
                else:
                    st.pc.append(z3.Or(*[v == x for x in vals]))
            return v
        if k == 'bool':
            return z3.Bool(name)
        if k == 'float':
            return z3.FP(name, F64 if t.w == 64 else F32)
        if k == 'void':
            return VOID
        if k == 'ptr':
            return self.fresh_ptr(t, name, st)
        if k == 'ref':
            return self.nheap(name, t.t, st, LazyV(t.t, name + '&'))
        if k == 'arr':
            if t.cnt <= 64:
                return VecV(t.t, None, 0, 0, tuple(LazyV(t.t, '%s[%d]' % (name, i)) for i in range(t.cnt)), None, True)
            return VecV(t.t, name, t.cnt, 0, (), None, True)
        if k == 'rec':
            nn = t.nn
            if nn in ('std::basic_string', 'std::basic_string_view'):
                return self.str_fresh(name)
            if nn in ('std::vector', 'std::span', 'std::initializer_list', 'std::stack', 'std::deque'):
                et = t.args[0]
                sz = z3.BitVec('sz!%s' % name, 64)
                self.axiom(z3.ULT(sz, z3.BitVecVal(1 << 40, 64)))
                v = VecV(et, name, sz)
                if nn == 'std::stack':
                    return SV(t, {'c': v})
                return v
            if nn == 'std::array':
                cnt = t.args[1]
                return VecV(t.args[0], None, 0, 0, tuple(LazyV(t.args[0], '%s[%d]' % (name, i)) for i in range(cnt)), None, True)
            if nn == 'std::optional':
                return OptV(t, z3.Bool('has!' + name), LazyV(t.args[0], name + '.v'))
            if nn == 'std::expected':
                return ExpV(t, z3.Bool('ok!' + name), LazyV(t.args[0], name + '.v'), self.fresh(t.args[1], name + '.e', st))
            if nn == 'std::variant':
                alts = t.args[0] if isinstance(t.args[0], list) else t.args
                ix = z3.BitVec('idx!' + name, 8)
                st.pc.append(z3.ULT(ix, len(alts)))
                return VarV(t, ix, {i: LazyV(a, '%s.alt%d' % (name, i)) for i, a in enumerate(alts)})
            if nn in ('std::unordered_map', 'std::map', 'std::set', 'std::unordered_set'):
                sz = z3.BitVec('sz!%s' % name, 64)
                self.axiom(z3.ULT(sz, z3.BitVecVal(1 << 40, 64)))
                return MapV(t, name, sz)
            if nn == 'std::unique_ptr':
                p = t.args[0]
                loc = self.nheap(name, p, st, LazyV(p, name + '*'))
                return PtrV(z3.Bool('null!' + name), loc, None, t)
            if nn == 'std::pair':
                return SV(t, {'first': LazyV(t.args[0], name + '.first'), 'second': LazyV(t.args[1], name + '.second')})
            if nn.startswith('std::') or nn.startswith('__'):
                return OpqV(t, name)
            if t.rec is None:
                t = self.prog.complete(t)
                if t.rec is None:
                    return OpqV(t, name)
            return SV(t, {f[0]: (LazyV(f[1], '%s.%s' % (name, f[0]))) for f in t.rec.fields})
        return OpqV(t, name)

    def fresh_ptr(self, t, name, st):
        pt = t.t
        nul = z3.Bool('null!' + name)
        if pt.k == 'fn' or pt.k == 'void':
            return PtrV(nul, self.nheap(name, pt, st, OpqV(pt, name)), None, t)
        if pt.k == 'int' and pt.w == 8:
            loc = self.nheap(name, pt, st, self.str_fresh(name))
            return PtrV(nul, loc, 0, t)
        if pt.k in ('int', 'float', 'enum'):
            v = VecV(pt, name, z3.BitVec('sz!%s' % name, 64))
            self.axiom(z3.ULT(v.bsize, z3.BitVecVal(1 << 40, 64)))
            loc = self.nheap(name, pt, st, v)
            return PtrV(nul, loc, 0, t)
        loc = self.nheap(name, pt, st, LazyV(pt, name + '*'))
        return PtrV(nul, loc, None, t)

    def nheap(self, name, t, st, val):
        r = '@h:' + name
        if r not in st.mem:
            st.mem[r] = val
            self.rtype[r] = t
        return Loc(r)

    def axiom(self, f):
        k = f.get_id()
        if k not in self._axset:
            self._axset.add(k)
            self.axioms.append(f)

    def default(self, t, st, fr, zero=True):
        """value-initialised object"""
        k = t.k
        if k in ('int', 'enum'):
            return 0
        if k == 'bool':
            return False
        if k == 'float':
            return 0.0
        if k == 'ptr' or k == 'nullptr':
            return NULLP
        if k == 'arr':
            if t.cnt > 256:
                return VecV(t.t, self.uid(), t.cnt, 0, (), None, True)
            return VecV(t.t, None, 0, 0, tuple(self.default(t.t, st, fr, zero) for _ in range(t.cnt)), None, True)
        if k == 'rec':
            nn = t.nn
            if nn in ('std::basic_string', 'std::basic_string_view'):
                return StrV(())
            if nn in ('std::vector', 'std::span', 'std::deque', 'std::initializer_list'):
                return VecV(t.args[0])
            if nn == 'std::stack':
                return SV(t, {'c': VecV(t.args[0])})
            if nn == 'std::array':
                return VecV(t.args[0], None, 0, 0, tuple(self.default(t.args[0], st, fr, zero) for _ in range(t.args[1])), None, True)
            if nn == 'std::optional':
                return OptV(t, False, None)
            if nn == 'std::expected':
                return ExpV(t, True, self.default(t.args[0], st, fr, zero), None)
            if nn == 'std::variant':
                alts = t.args[0] if isinstance(t.args[0], list) else t.args
                return VarV(t, 0, {0: self.default(alts[0], st, fr, zero)})
            if nn in ('std::unordered_map', 'std::map', 'std::set', 'std::unordered_set'):
                return MapV(t, 'empty', 0)
            if nn in ('std::unique_ptr', 'std::shared_ptr'):
                return NULLP
            if nn == 'std::pair':
                return SV(t, {'first': self.default(t.args[0], st, fr), 'second': self.default(t.args[1], st, fr)})
            if nn == 'std::monostate':
                return SV(t, {})
            if nn.startswith('std::') or nn.startswith('__gnu'):
                return OpqV(t, 'dflt%d' % self.uid())
            if t.rec is None:
                return OpqV(t, 'dflt%d' % self.uid())
            return self.default_rec(t, st, fr, zero)
        return OpqV(t, 'dflt%d' % self.uid())

    def default_rec(self, t, st, fr, zero):
        R = t.rec
        # user provided default constructor?
        d = {}
        loc = self.newroot(fr, 'dflt', t, st, SV(t, {}))
        for (fname, ft, init, off) in R.fields:
            sv = st.mem[loc.root]
            if init is not None:
                f2 = Frame(fr.id if fr else 0, fr.fn if fr else None, self.rec_tu(t, fname), loc, fr)
                f2.roots = fr.roots if fr else []
                v = self.rv(st, self.ev(init, st, f2))
            elif zero or not ft.is_int() and ft.k not in ('float', 'ptr'):
                v = self.default(ft, st, fr, zero)
            else:
                v = self.fresh(ft, 'uninit%d' % self.uid(), st)
            sv = st.mem[loc.root]
            st.mem[loc.root] = sv.set(fname, v)
        return st.mem.pop(loc.root)

    def rec_tu(self, t, fname):
        """TU whose decl ids are used in the initialiser of the given field"""
        R = t.rec
        for b in R.bases:
            if b.rec and any(f[0] == fname for f in b.rec.fields):
                return self.rec_tu(b, fname)
        return R.tu

    # ------------------------------------------------------------ merging
    def ite(self, g, a, b, t=None):
        """merge scalar values"""
        if same_val(a, b):
            return a
        if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
            return simp(z3.If(g, zbool(a), zbool(b)))
        if isinstance(a, z3.FPRef) or isinstance(b, z3.FPRef) or isinstance(a, float) or isinstance(b, float):
            w = 64
            for x in (a, b):
                if isinstance(x, z3.FPRef):
                    w = x.sort().ebits() + x.sort().sbits()
            return z3.If(g, tofp(a, w), tofp(b, w))
        if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
            w = a.size() if isinstance(a, z3.BitVecRef) else b.size()
            return z3.If(g, tobv(a, w), tobv(b, w))
        return None

    class NoMerge(Exception):
        pass

    def merge_val(self, g, a, b, t):
        if same_val(a, b):
            return a
        if isinstance(a, LazyV) != isinstance(b, LazyV):
            tmp = State()
            if isinstance(a, LazyV):
                a = self.fresh_now(a.t, a.name, tmp)
            else:
                b = self.fresh_now(b.t, b.name, tmp)
            self._mergepc += tmp.pc
            if tmp.mem:
                self._mergemem.update(tmp.mem)
            if same_val(a, b):
                return a
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            w = t.w if t is not None and t.w else None
            if w is None:
                raise Engine.NoMerge()
            return z3.If(g, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
        r = self.ite(g, a, b)
        if r is not None:
            return r
        if isinstance(a, SV) and isinstance(b, SV) and a.t.key == b.t.key:
            f = {}
            ft = {x[0]: x[1] for x in (a.t.rec.fields if a.t.rec else [])}
            for k in a.f:
                if k in b.f:
                    f[k] = self.merge_val(g, a.f[k], b.f[k], ft.get(k))
            return SV(a.t, f)
        if isinstance(a, StrV) and isinstance(b, StrV):
            return StrV(self.merge_pieces(g, a.p, b.p))
        if isinstance(a, VecV) and isinstance(b, VecV):
            if a.buid == b.buid and same_term(a.bsize, b.bsize) and same_term(a.boff, b.boff):
                kn = {}
                for k in a.known:
                    if k in b.known and same_val(a.known[k][0], b.known[k][0]):
                        kn[k] = a.known[k]
                    elif a.known[k][1] or (k in b.known and b.known[k][1]):
                        raise Engine.NoMerge()
                if len(a.tail) == len(b.tail):
                    tl = tuple(self.merge_val(g, x, y, a.et) for x, y in zip(a.tail, b.tail))
                    return VecV(a.et, a.buid, a.bsize, a.boff, tl, kn, a.fixed)
            raise Engine.NoMerge()
        if isinstance(a, OptV) and isinstance(b, OptV):
            has = simp(z3.If(g, zbool(a.has), zbool(b.has)))
            if a.has is False:
                return OptV(a.t, has, b.v)
            if b.has is False:
                return OptV(a.t, has, a.v)
            return OptV(a.t, has, self.merge_val(g, a.v, b.v, a.t.args[0]))
        if isinstance(a, ExpV) and isinstance(b, ExpV):
            if a.ok is True and b.ok is True:
                return ExpV(a.t, True, self.merge_val(g, a.v, b.v, a.t.args[0]), None)
            if a.ok is False and b.ok is False:
                return ExpV(a.t, False, None, self.merge_val(g, a.e, b.e, a.t.args[1]))
            raise Engine.NoMerge()
        if isinstance(a, VarV) and isinstance(b, VarV):
            if isinstance(a.idx, int) and isinstance(b.idx, int) and a.idx == b.idx:
                alts = a.t.args[0] if isinstance(a.t.args[0], list) else a.t.args
                return VarV(a.t, a.idx, {a.idx: self.merge_val(g, a.alts[a.idx], b.alts[b.idx], alts[a.idx])})
            raise Engine.NoMerge()
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.loc is not None and b.loc is not None and a.loc.same(b.loc):
                off = a.off
                if not same_term(a.off, b.off):
                    if a.off is None or b.off is None:
                        raise Engine.NoMerge()
                    off = z3.If(g, tobv(a.off, 64), tobv(b.off, 64))
                return PtrV(simp(z3.If(g, zbool(a.null), zbool(b.null))), a.loc, off, a.t)
            if a.null is True and b.loc is not None:
                return PtrV(simp(z3.Or(g, zbool(b.null))), b.loc, b.off, b.t)
            if b.null is True and a.loc is not None:
                return PtrV(simp(z3.Or(z3.Not(g), zbool(a.null))), a.loc, a.off, a.t)
            raise Engine.NoMerge()
        if isinstance(a, LazyV) and isinstance(b, LazyV):
            raise Engine.NoMerge()
        raise Engine.NoMerge()

    def merge_pieces(self, g, p, q):
        h = self.hooks.get('compact')
        if h:
            r = h(self, p, q)
            if r is not None:
                return r
        i = 0
        while i < len(p) and i < len(q) and same_piece(p[i], q[i]):
            i += 1
        pre = p[:i]
        p, q = p[i:], q[i:]
        # common prefix in bytes
        if p and q and isinstance(p[0], bytes) and isinstance(q[0], bytes):
            a, b = p[0], q[0]
            k = 0
            while k < len(a) and k < len(b) and a[k] == b[k]:
                k += 1
            if k:
                pre = self.cat(pre, (a[:k],))
                p = ((a[k:],) if a[k:] else ()) + p[1:]
                q = ((b[k:],) if b[k:] else ()) + q[1:]
        elif i and isinstance(pre[-1], bytes) is False:
            pass
        if not p and not q:
            return pre
        j = 0
        while j < len(p) and j < len(q) and same_piece(p[-1 - j], q[-1 - j]):
            j += 1
        post = p[len(p) - j:]
        p = p[:len(p) - j]
        q = q[:len(q) - j]
        for x in p + q:
            if isinstance(x, tuple) and x[0] == 'abs' :
                raise Engine.NoMerge()
        # depth guard
        return pre + (('choice', g, p, q),) + post

    def merge2(self, a, b):
        """merge two states; None if impossible"""
        n = 0
        la, lb = a.pc, b.pc
        m = min(len(la), len(lb))
        while n < m and (la[n] is lb[n] or la[n].eq(lb[n])):
            n += 1
        ra, rb = la[n:], lb[n:]
        if not ra or not rb:
            # one path condition implies the other; keep separate unless memory identical
            g = None
        ga = zand(*ra)
        gb = zand(*rb)
        if a.ghost.keys() != b.ghost.keys():
            return None
        for k in a.ghost:
            if not same_val(a.ghost[k], b.ghost[k]):
                return None
        for k, v in a.env.items():
            w = b.env.get(k)
            if w is not None and w is not v and not same_val(v, w):
                return None
        g = zbool(ga)
        st = State()
        st.pc = list(la[:n])
        if len(ra) == 1 and len(rb) == 1 and (znot(ra[0]).eq(rb[0]) if is_z3(znot(ra[0])) else False):
            pass
        else:
            d = simp(zor(ga, gb))
            if d is not True:
                if is_z3(ga) and is_z3(gb):
                    st.pc.append(d)
        if ga is True and gb is True:
            # identical pcs: only mergeable if identical memory
            g = None
        self._mergepc = []
        self._mergemem = {}
        try:
            for r in a.mem:
                if r in b.mem:
                    x, y = a.mem[r], b.mem[r]
                    if x is y:
                        st.mem[r] = x
                    else:
                        if g is None and not same_val(x, y):
                            return None
                        st.mem[r] = x if g is None else self.merge_val(g, x, y, self.rtype.get(r))
                elif r[0] == '@':
                    st.mem[r] = a.mem[r]
            for r in b.mem:
                if r not in a.mem and r[0] == '@':
                    st.mem[r] = b.mem[r]
        except Engine.NoMerge:
            return None
        st.pc += self._mergepc
        for r, v in self._mergemem.items():
            st.mem.setdefault(r, v)
        st.env = dict(a.env)
        for k, v in b.env.items():
            st.env.setdefault(k, v)
        st.ghost = dict(a.ghost)
        st.taint = a.taint | b.taint
        return st

    def merge_states(self, sts):
        if len(sts) <= 1 or not self.opts['merge']:
            return sts
        out = []
        for s in sts:
            for i in range(len(out)):
                m = self.merge2(out[i], s)
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge_outs(self, outs):
        """merge outcome triples with the same kind and mergeable values"""
        if len(outs) <= 1 or not self.opts['merge']:
            return outs
        res = []
        for (s, k, v) in outs:
            done = False
            for i, (s2, k2, v2) in enumerate(res):
                if k != k2:
                    continue
                if not self.val_shape_eq(v, v2):
                    continue
                # stash value in memory to merge it together with the state
                s.mem['@@ret'] = v
                s2.mem['@@ret'] = v2
                self.rtype['@@ret'] = None
                m = self.merge2(s2, s)
                s.mem.pop('@@ret', None)
                s2.mem.pop('@@ret', None)
                if m is not None:
                    mv = m.mem.pop('@@ret')
                    res[i] = (m, k, mv)
                    done = True
                    break
            if not done:
                res.append((s, k, v))
        return res

    def val_shape_eq(self, a, b):
        if type(a) is not type(b):
            sc = (int, bool, float, z3.ExprRef)
            return isinstance(a, sc) and isinstance(b, sc)
        if isinstance(a, ExpV):
            return same_term(a.ok, b.ok)
        if isinstance(a, Loc):
            return a.same(b)
        return True
