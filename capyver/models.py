"""Models (assumed contracts) of the C++ standard library members used by /repo."""
import os
import z3, re
from .values import *
from .engine import model, ctor, Unsupported, PathEnd, CppThrow, MODELS, CTORS
from .execu import decay, I64, I64U, I32, PairT


def methods(cls, *names):
    cl = cls if isinstance(cls, (list, tuple)) else [cls]
    return model(*['%s::%s' % (c, n) for c in cl for n in names])


SEQ = ['std::vector', 'std::span', 'std::array', 'std::basic_string', 'std::basic_string_view', 'std::deque', 'std::initializer_list']
STR = ['std::basic_string', 'std::basic_string_view']


def oloc(E, st, fr, c):
    """location of the object of a member call"""
    if isinstance(c.obj, Loc):
        return c.obj
    return E.newroot(fr, 'obj', None, st, c.obj)


def oval(E, st, c):
    return E.rv(st, c.obj)


# ------------------------------------------------------------------ sequences
@methods(SEQ, 'size', 'length')
def seq_size(E, st, fr, c):
    return E.vsize(oval(E, st, c))


@methods(['std::span'], 'size_bytes')
def seq_size_bytes(E, st, fr, c):
    v = oval(E, st, c)
    n = E.vsize(v)
    if isinstance(v, VecV) and v.et.w != 8:
        sz = getattr(v.et, 'sz', None) or (v.et.w or 8) // 8
        return n * sz
    return n


@methods(SEQ, 'empty')
def seq_empty(E, st, fr, c):
    n = E.vsize(oval(E, st, c))
    if isinstance(n, int):
        return n == 0
    return simp(n == 0)


@methods(SEQ, 'data', 'begin', 'cbegin')
def seq_begin(E, st, fr, c):
    return PtrV(False, oloc(E, st, fr, c), 0)


@methods(['std::basic_string'], 'c_str')
def str_cstr(E, st, fr, c):
    return PtrV(False, oloc(E, st, fr, c), 0)


@methods(SEQ, 'end', 'cend')
def seq_end(E, st, fr, c):
    l = oloc(E, st, fr, c)
    return PtrV(False, l, E.vsize(E.rv(st, l)))


def index_arg(E, st, fr, c, k=0):
    i = E.rv(st, c.args[k])
    t = decay(c.tu.T(c.argn[k]['t'])) if c.argn else I64
    return E.convert(st, i, t, I64U)


@methods(SEQ, 'operator[]')
def seq_index(E, st, fr, c):
    l = oloc(E, st, fr, c)
    i = index_arg(E, st, fr, c)
    if E.opts['check_bounds']:
        v = E.load(st, l)
        if isinstance(v, StrV) and False:
            pass
        E.bounds(st, l, i, c.node['l'])
    return Loc(l.root, l.path + (('i', i),))


@methods(SEQ, 'at')
def seq_at(E, st, fr, c):
    l = oloc(E, st, fr, c)
    i = index_arg(E, st, fr, c)
    n = E.vsize(E.load(st, l))
    ok = (0 <= i < n) if isinstance(i, int) and isinstance(n, int) else z3.ULT(tobv(i, 64), tobv(n, 64))
    if not E.decide(st, ok):
        raise CppThrow('std::out_of_range')
    return Loc(l.root, l.path + (('i', i),))


@methods(SEQ, 'front')
def seq_front(E, st, fr, c):
    l = oloc(E, st, fr, c)
    nonempty(E, st, l, c)
    return Loc(l.root, l.path + (('i', 0),))


def nonempty(E, st, l, c):
    n = E.vsize(E.load(st, l))
    ok = n != 0 if isinstance(n, int) else simp(n != 0)
    if E.opts['check_bounds'] or E.opts.get('check_empty'):
        E.oblige(st, ok, 'container not empty', c.node['l'], kind='bounds')
    E.assume(st, ok)


@methods(SEQ, 'back')
def seq_back(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.load(st, l)
    if isinstance(v, StrV):
        if E.opts['check_bounds'] or E.opts.get('check_empty'):
            nonempty(E, st, l, c)
        p, ch = E.str_back(st, E.resolve_choices(st, v.p))
        return E.newroot(fr, 'back', None, st, ch)
    nonempty(E, st, l, c)
    v = E.load(st, l)
    if v.tail:
        n = v.bsize + len(v.tail) - 1 if isinstance(v.bsize, int) else simp(v.bsize + (len(v.tail) - 1))
    else:
        n = E.add64(v.bsize, -1)
    return Loc(l.root, l.path + (('i', n),))


@methods(['std::vector', 'std::basic_string', 'std::deque'], 'clear')
def seq_clear(E, st, fr, c):
    v = oval(E, st, c)
    E.store(st, c.obj, StrV(()) if isinstance(v, StrV) else VecV(v.et))
    return VOID


@methods(['std::vector', 'std::basic_string'], 'reserve', 'shrink_to_fit')
def seq_reserve(E, st, fr, c):
    return VOID


@methods(['std::vector'], 'push_back')
def vec_push(E, st, fr, c):
    l = c.obj
    x = c.args[0]
    v = E.load(st, l)
    val = E.coerce(st, fr, x, v.et, argt(c, 0))
    if E.is_move_param(c.tu, c.f):
        E.moved(st, x)
    v = E.load(st, l)
    E.store(st, l, E.vec_push(st, v, val))
    return VOID


def argt(c, k):
    return decay(c.tu.T(c.argn[k]['t'])) if c.argn and k < len(c.argn) else None


def construct(E, st, fr, t, argv, ats, e=None, tu=None):
    t = decay(t)
    if t.k != 'rec':
        if not argv:
            return E.default(t, st, fr)
        return E.convert(st, E.rv(st, argv[0]), ats[0] or t, t) if ats and ats[0] is not None else E.rv(st, argv[0])
    if len(argv) == 1:
        v = E.rv(st, argv[0])
        if ats and ats[0] is not None and ats[0].key == t.key:
            if isinstance(argv[0], Loc) and ats and False:
                E.moved(st, argv[0])
            return v
        if t.nn.startswith('std::'):
            m = CTORS.get(t.nn)
            if t.nn in ('std::optional', 'std::variant'):
                return E.coerce(st, fr, argv[0], t, ats[0])
            if m is not None:
                fake = {'e': 'ctor', 'a': [None], 'l': (e or {}).get('l', 0), 'f': {}}
                r = m(E, st, fr, t, argv, fake)
                if r is not NotImplemented:
                    return r
            return v
        if isinstance(v, SV) and v.t.key == t.key:
            return v
    if not argv:
        return E.default(t, st, fr)
    if t.nn.startswith('std::'):
        m = CTORS.get(t.nn)
        if m is not None:
            r = m(E, st, fr, t, argv, {'e': 'ctor', 'a': [None] * len(argv), 'l': 0, 'f': {}})
            if r is not NotImplemented:
                return r
        raise Unsupported('construct %s' % t.key)
    if t.rec is None:
        raise Unsupported('construct %s' % t.key)
    base = t.n.split('::')[-1]
    cands = [F for F in E.prog.find(t.n + '::' + base) if F.isctor and len(F.params) == len(argv)]
    if not cands:
        # parameters with default values are not supported here
        cands = []
    if cands:
        F = cands[0]
        if len(cands) > 1:
            for G in cands:
                if all(a is not None and decay(G.tu.T(p['t'])).key == a.key for p, a in zip(G.params, ats)):
                    F = G
        loc = E.newroot(fr, 'ctor', t, st, SV(t, {}))
        E.invoke(st, fr, F, loc, argv, e or {})
        return st.mem.pop(loc.root)
    if len(t.rec.fields) >= len(argv):
        f = {}
        for i, fd in enumerate(t.rec.fields):
            if i < len(argv):
                f[fd[0]] = E.coerce(st, fr, argv[i], fd[1], ats[i] if ats else None)
            else:
                f[fd[0]] = E.default(fd[1], st, fr)
        return SV(t, f)
    raise Unsupported('construct %s' % t.key)


@methods(['std::vector'], 'emplace_back')
def vec_emplace(E, st, fr, c):
    l = c.obj
    v = E.load(st, l)
    val = construct(E, st, fr, v.et, c.args, [argt(c, i) for i in range(len(c.args))], c.node, c.tu)
    for i, a in enumerate(c.args):
        if isinstance(a, Loc) and c.argn[i].get('xv'):
            E.moved(st, a)
    v = E.load(st, l)
    n = E.vsize(v)
    E.store(st, l, E.vec_push(st, v, val))
    return Loc(l.root, l.path + (('i', n),))


@methods(['std::vector'], 'pop_back')
def vec_pop(E, st, fr, c):
    nonempty(E, st, c.obj, c)
    v = E.load(st, c.obj)
    E.store(st, c.obj, vpop(E, v))
    return VOID


def vpop(E, v):
    if v.tail:
        return VecV(v.et, v.buid, v.bsize, v.boff, v.tail[:-1], v.known, v.fixed)
    return VecV(v.et, v.buid, simp(tobv(v.bsize, 64) - 1) if not isinstance(v.bsize, int) else v.bsize - 1, v.boff, (), v.known, v.fixed)


@methods(['std::basic_string'], 'pop_back')
def str_pop(E, st, fr, c):
    v = E.load(st, c.obj)
    if E.opts['check_bounds'] or E.opts.get('check_empty'):
        nonempty(E, st, c.obj, c)
    p, ch = E.str_back(st, E.resolve_choices(st, v.p))
    if p:
        x = p[-1]
        if isinstance(x, bytes):
            p = p[:-1] + ((x[:-1],) if x[:-1] else ())
        elif x[0] == 'ch':
            p = p[:-1]
        elif x[0] == 'in':
            p = p[:-1] + (('in', x[1], x[2], simp(tobv(x[3], 64) - 1)),)
        elif x[0] in ('abs', 'cls'):
            p = p[:-1] + (('cls', 's', ('pop', x[1], uid())),)
        else:
            raise Unsupported('pop_back on %s' % x[0])
    E.store(st, c.obj, StrV(p))
    return VOID


@methods(['std::vector'], 'resize')
def vec_resize(E, st, fr, c):
    v = E.load(st, c.obj)
    n = index_arg(E, st, fr, c)
    if isinstance(n, int) and isinstance(v.bsize, int) and n < 1024:
        cur = v.bsize + len(v.tail)
        if n >= cur:
            E.store(st, c.obj, VecV(v.et, v.buid, v.bsize, v.boff, v.tail + tuple(E.default(v.et, st, fr) for _ in range(n - cur)), v.known))
            return VOID
        if v.bsize == 0:
            E.store(st, c.obj, VecV(v.et, None, 0, 0, v.tail[:n]))
            return VOID
    if v.boff == 0 and v.buid is not None and simp(tobv(n, 64) == tobv(v.bsize, 64)) is True:
        E.store(st, c.obj, VecV(v.et, v.buid, v.bsize, v.boff, (), v.known))
        return VOID
    E.store(st, c.obj, VecV(v.et, E.uid(), n))
    return VOID


@methods(['std::basic_string'], 'resize')
def str_resize(E, st, fr, c):
    n = index_arg(E, st, fr, c)
    v = E.load(st, c.obj)
    if isinstance(v, StrV):
        # shrinking to a prefix whose end is the end of a piece
        tot = z3.BitVecVal(0, 64)
        for i in range(len(v.p) + 1):
            if simp(tobv(n, 64) == tot) is True:
                E.store(st, c.obj, StrV(v.p[:i]))
                return VOID
            if i < len(v.p):
                x = v.p[i]
                if isinstance(x, bytes):
                    k = simp(tobv(n, 64) - tot)
                    if isinstance(k, int) and k < len(x):
                        E.store(st, c.obj, StrV(v.p[:i] + (x[:k],)))
                        return VOID
                try:
                    tot = z3.simplify(tot + tobv(E.piece_len(x), 64))
                except Unsupported:
                    break
    E.store(st, c.obj, StrV((('in', 'rs%d' % E.uid(), 0, n),)))
    return VOID


def append_vec(E, st, dst, src):
    if isinstance(src, StrV):
        cs = E.concrete_str(src)
        if cs is not None and len(cs) <= 64:
            return VecV(dst.et, dst.buid, dst.bsize, dst.boff, dst.tail + tuple(wrap(b, 8, bool(dst.et.s)) for b in cs), dst.known)
        src = VecV(dst.et, E.uid(), E.vsize(src))
    if isinstance(src.bsize, int) and src.bsize == 0:
        r = dst
        for x in src.tail:
            r = E.vec_push(st, r, x)
        return r
    if isinstance(dst.bsize, int) and dst.bsize == 0 and not dst.tail:
        return VecV(dst.et, src.buid, src.bsize, src.boff, src.tail, src.known)
    n = simp(tobv(E.vsize(dst), 64) + tobv(E.vsize(src), 64))
    r = VecV(dst.et, E.uid(), n)
    h = E.hooks.get('append')
    if h:
        h(E, st, dst, src, r)
    return r


def ptr_width(p):
    if isinstance(p, PtrV) and p.t is not None and p.t.k == 'ptr':
        return p.t.t.w
    return None


def obj_bytes(E, st, loc, v):
    if isinstance(v, VecV):
        return E.vsize(v) * size_of(v.et) if isinstance(E.vsize(v), int) else E.vsize(v) * z3.BitVecVal(size_of(v.et), 64)
    t = E.type_at(loc.root, loc.path)
    try:
        return size_of(decay(t)) if t is not None else None
    except Unsupported:
        return None


from .execu import _mkint
BYTE = _mkint(8, False)


def range_of(E, st, a, b):
    """value of the range [a,b)"""
    a = E.rv(st, a)
    b = E.rv(st, b)
    if not (isinstance(a, PtrV) and isinstance(b, PtrV)) or a.loc is None:
        raise Unsupported('range')
    v = E.load(st, a.loc)
    ao = 0 if a.off is None else a.off
    bo = 0 if b.off is None else b.off
    if isinstance(v, MapV):
        return VecV(v.t.args[0], E.uid(), v.size)
    if not isinstance(v, (VecV, StrV)) or (isinstance(v, VecV) and ptr_width(a) not in (None, v.et.w)):
        # bytes of an object
        if b.loc is not None and a.loc.same(b.loc):
            ln = bo - ao if isinstance(ao, int) and isinstance(bo, int) else simp(tobv(bo, 64) - tobv(ao, 64))
        else:
            ln = E.fresh64('ol')
        if E.opts['check_bounds']:
            tot = obj_bytes(E, st, a.loc, v)
            if tot is not None:
                E.oblige(st, z3.ULE(tobv(bo, 64), tobv(tot, 64)), 'byte range within object', 0, kind='bounds')
        if isinstance(ln, int) and isinstance(ao, int) and ln <= 8 and ptr_width(a) == 8:
            # the bytes of an integer (little endian)
            w = v.size() if z3.is_bv(v) else None
            if w is None and isinstance(v, int) and not isinstance(v, bool):
                t = E.type_at(a.loc.root, a.loc.path)
                w = decay(t).w if t is not None else None
            if w and 8 * (ao + ln) <= w:
                return VecV(BYTE, E.uid(), 0, 0, tuple(simp(z3.Extract(8 * i + 7, 8 * i, tobv(v, w))) for i in range(ao, ao + ln)))
        return VecV(BYTE, E.uid(), ln)
    n = E.vsize(v)
    if b.loc is not None and a.loc.same(b.loc):
        if same_term(ao, 0) and same_term(simp(tobv(bo, 64)), simp(tobv(n, 64))):
            return v
        ln = simp(tobv(bo, 64) - tobv(ao, 64)) if not (isinstance(ao, int) and isinstance(bo, int)) else bo - ao
        if is_z3(ln) and z3.is_bv_value(ln):
            ln = ln.as_long()
        return sub_seq(E, st, v, ao, ln)
    return E.havoc_val(st, v) if isinstance(v, StrV) else VecV(v.et, E.uid(), E.fresh64('rl'))


def sub_seq(E, st, v, off, n):
    if isinstance(v, StrV):
        return E.str_sub(st, v, off, n)
    if isinstance(v.bsize, int) and isinstance(off, int) and isinstance(n, int) and off >= v.bsize:
        k = off - v.bsize
        return VecV(v.et, None, 0, 0, v.tail[k:k + n])
    if not v.tail:
        kn = {}
        return VecV(v.et, v.buid, n if isinstance(n, int) else simp(n), simp(tobv(v.boff, 64) + tobv(off, 64)), (), kn)
    return VecV(v.et, E.uid(), n)


@methods(['std::vector'], 'insert')
def vec_insert(E, st, fr, c):
    v = E.load(st, c.obj)
    pos = E.rv(st, c.args[0])
    if len(c.args) == 3:
        src = range_of(E, st, c.args[1], c.args[2])
        n = E.vsize(v)
        atend = isinstance(pos, PtrV) and pos.off is not None and same_term(simp(tobv(pos.off, 64)), simp(tobv(n, 64)))
        if atend:
            E.store(st, c.obj, append_vec(E, st, v, src))
        else:
            E.store(st, c.obj, VecV(v.et, E.uid(), simp(tobv(n, 64) + tobv(E.vsize(src), 64))))
        return pos
    if len(c.args) == 2:
        val = E.rv(st, c.args[1])
        E.store(st, c.obj, VecV(v.et, E.uid(), simp(tobv(E.vsize(v), 64) + 1)) if not (isinstance(v.bsize, int) and v.bsize == 0 and not v.tail) else VecV(v.et, None, 0, 0, (val,)))
        return pos
    return NotImplemented


@methods(['std::vector'], 'assign')
def vec_assign(E, st, fr, c):
    v = E.load(st, c.obj)
    a0 = E.rv(st, c.args[0])
    if isinstance(a0, PtrV):
        src = range_of(E, st, c.args[0], c.args[1])
        if isinstance(src, StrV):
            src = append_vec(E, st, VecV(v.et), src)
        E.store(st, c.obj, VecV(v.et, src.buid, src.bsize, src.boff, src.tail, src.known))
    else:
        n = index_arg(E, st, fr, c)
        val = E.rv(st, c.args[1])
        if isinstance(n, int) and n <= 1024:
            E.store(st, c.obj, VecV(v.et, None, 0, 0, (val,) * n))
        else:
            E.store(st, c.obj, VecV(v.et, E.uid(), n))
    return VOID


@methods(['std::vector', 'std::span', 'std::basic_string', 'std::basic_string_view', 'std::optional', 'std::variant', 'std::stack',
          'std::unordered_map', 'std::unordered_set', 'std::expected', 'std::array', 'std::unique_ptr', 'std::pair',
          '__gnu_cxx::__normal_iterator'], 'operator=')
def gen_assign(E, st, fr, c):
    src = c.args[0]
    dst = c.obj
    v = E.rv(st, src)
    ot = decay(c.tu.T(c.f['cls']))
    mv = E.is_move_param(c.tu, c.f)
    if ot.nn == 'std::optional':
        if isinstance(v, SV) and v.t.nn == 'std::nullopt_t' or isinstance(v, OpqV) and v.t is not None and v.t.nn == 'std::nullopt_t':
            E.store(st, dst, OptV(ot, False, None))
            return dst
        if not isinstance(v, OptV):
            v2 = OptV(ot, True, E.coerce(st, fr, v, ot.args[0], argt(c, 0)))
            E.store(st, dst, v2)
            if c.argn[0].get('xv') and isinstance(src, Loc):
                E.moved(st, src)
            return dst
    elif ot.nn == 'std::variant' and not isinstance(v, VarV):
        v = E.mkvariant(st, fr, v, ot, argt(c, 0))
        if c.argn[0].get('xv') and isinstance(src, Loc):
            E.moved(st, src)
    elif ot.nn == 'std::expected':
        if not isinstance(v, ExpV):
            v = CTORS['std::expected'](E, st, fr, ot, [src], {'a': c.argn, 'l': 0})
    elif ot.nn in STR:
        v = to_str(E, st, v)
    elif ot.nn == 'std::unique_ptr':
        h = E.hooks.get('uptr_dtor')
        if h:
            h(E, st, fr, dst, ot)
    if isinstance(v, VecV) and ot.nn == 'std::vector':
        v = VecV(ot.args[0], v.buid, v.bsize, v.boff, v.tail, v.known)
    if mv and isinstance(src, Loc) and not c.argn[0]['e'] == 'temp':
        E.moved(st, src)
    E.store(st, dst, v)
    return dst


def to_str(E, st, v):
    if isinstance(v, StrV):
        return v
    if isinstance(v, PtrV):
        return E.cstr(st, v)
    if isinstance(v, VecV):
        return vec_to_str(E, st, v)
    if isinstance(v, (int, z3.BitVecRef)):
        return StrV((E.chpiece(v),))
    raise Unsupported('to_str %r' % (v,))


def vec_to_str(E, st, v):
    p = ()
    if not (isinstance(v.bsize, int) and v.bsize == 0):
        p = (('in', 'v%s' % v.buid, v.boff, v.bsize),)
    for x in v.tail:
        p = E.cat(p, (E.chpiece(x if not isinstance(x, z3.BitVecRef) or x.size() == 8 else z3.Extract(7, 0, x)),))
    return StrV(p)


def append_str(E, st, loc, p):
    v = E.load(st, loc)
    if not isinstance(v, StrV):
        raise Unsupported('append to %r' % (v,))
    E.store(st, loc, StrV(E.cat(v.p, p)))


@methods(['std::basic_string'], 'operator+=', 'append', 'push_back')
def str_append(E, st, fr, c):
    a = c.args
    if c.f['n'].endswith('append') and len(a) >= 2:
        x, y = E.rv(st, a[0]), E.rv(st, a[1])
        if isinstance(x, PtrV) and isinstance(y, PtrV):
            src = range_of(E, st, x, y)
        elif isinstance(x, (PtrV, StrV)):
            n = E.convert(st, y, argt(c, 1), I64U)
            base = E.load(st, x.loc) if isinstance(x, PtrV) else x
            if isinstance(base, VecV):
                base = vec_to_str(E, st, base)
            off = x.off if isinstance(x, PtrV) and x.off is not None else 0
            if same_term(off, 0) and same_term(simp(tobv(n, 64)), simp(tobv(E.vsize(base), 64))):
                src = base
            else:
                src = E.str_sub(st, base, off, n)
        else:
            # (count, char)
            if isinstance(x, int) and x < 4096:
                src = StrV((E.chpiece(y),) * x)
            else:
                src = StrV((('in', 'rep%d' % E.uid(), 0, E.convert(st, x, argt(c, 0), I64U)),))
        append_str(E, st, c.obj, to_str(E, st, src).p)
        return c.obj
    s = to_str(E, st, E.rv(st, a[0]))
    append_str(E, st, c.obj, s.p)
    return c.obj if not c.f['n'].endswith('push_back') else VOID


@model('std::operator+')
def str_plus(E, st, fr, c):
    a = to_str(E, st, E.rv(st, c.args[0]))
    b = to_str(E, st, E.rv(st, c.args[1]))
    return StrV(E.cat(a.p, b.p))


@methods(['std::basic_string'], 'operator basic_string_view')
def str_sv(E, st, fr, c):
    return oval(E, st, c)


@methods(STR, 'starts_with', 'ends_with', 'contains')
def str_starts(E, st, fr, c):
    v = oval(E, st, c)
    x = to_str(E, st, E.rv(st, c.args[0]))
    a, b = E.concrete_str(v), E.concrete_str(x)
    kind = c.f['n'].split('::')[-1]
    if a is not None and b is not None:
        return {'starts_with': a.startswith(b), 'ends_with': a.endswith(b), 'contains': b in a}[kind]
    if kind == 'starts_with' and b is not None and len(b) <= 16:
        n = E.vsize(v)
        ge = z3.UGE(tobv(n, 64), len(b))
        return z3.And(ge, *[tobv(E.str_at(st, v.p, i), 8) == b[i] for i in range(len(b))])
    return E.unk('starts')


@methods(STR, 'find', 'rfind', 'find_first_of', 'find_last_of')
def str_find(E, st, fr, c):
    v = oval(E, st, c)
    x = to_str(E, st, E.rv(st, c.args[0]))
    a, b = E.concrete_str(v), E.concrete_str(x)
    if a is not None and b is not None and len(c.args) == 1 and c.f['n'].endswith('::find'):
        r = a.find(b)
        return r if r >= 0 else (1 << 64) - 1
    r = E.fresh64('find')
    n = E.vsize(v)
    if c.f['n'].split('::')[-1] in ('find', 'rfind'):
        st.pc.append(z3.Or(r == z3.BitVecVal(-1, 64), z3.ULE(r + tobv(E.vsize(x), 64), tobv(n, 64))))
    return r


@methods(STR, 'substr')
def str_substr(E, st, fr, c):
    v = oval(E, st, c)
    off = index_arg(E, st, fr, c)
    n = E.vsize(v)
    ok = off <= n if isinstance(off, int) and isinstance(n, int) else z3.ULE(tobv(off, 64), tobv(n, 64))
    if not E.decide(st, ok):
        raise CppThrow('std::out_of_range')
    ln = index_arg(E, st, fr, c, 1) if len(c.args) > 1 else None
    if ln is not None:
        if isinstance(ln, int) and ln == (1 << 64) - 1:
            ln = None
        else:
            rem = simp(tobv(n, 64) - tobv(off, 64))
            ln = simp(z3.If(z3.ULT(tobv(ln, 64), rem), tobv(ln, 64), rem))
            if z3.is_bv_value(ln):
                ln = ln.as_long()
    return E.str_sub(st, v, off, ln)


@methods(['std::basic_string_view'], 'remove_prefix', 'remove_suffix')
def sv_remove(E, st, fr, c):
    v = oval(E, st, c)
    k = index_arg(E, st, fr, c)
    n = E.vsize(v)
    okc = z3.ULE(tobv(k, 64), tobv(n, 64))
    if E.opts['check_bounds']:
        E.oblige(st, okc, 'removed part within the view', c.node['l'], kind='bounds')
    E.assume(st, okc)
    ln = simp(tobv(n, 64) - tobv(k, 64))
    if z3.is_bv_value(ln):
        ln = ln.as_long()
    E.store(st, c.obj, E.str_sub(st, v, k, None) if c.f['n'].endswith('prefix') else E.str_sub(st, v, 0, ln))
    return VOID


@methods(['std::span'], 'subspan', 'first', 'last')
def span_sub(E, st, fr, c):
    v = oval(E, st, c)
    k = c.f['n'].split('::')[-1]
    n = tobv(E.vsize(v), 64)
    a = index_arg(E, st, fr, c)
    if k == 'first':
        off, ln = 0, a
    elif k == 'last':
        ln = a
        off = simp(n - tobv(a, 64))
    else:
        off = a
        ln = index_arg(E, st, fr, c, 1) if len(c.args) > 1 else None
        if isinstance(ln, int) and ln in ((1 << 64) - 1, -1):
            ln = None
    okc = z3.ULE(tobv(off, 64), n)
    if ln is not None:
        okc = z3.And(okc, z3.ULE(tobv(ln, 64), n - tobv(off, 64)))
    else:
        ln = simp(n - tobv(off, 64))
    if E.opts['check_bounds']:
        E.oblige(st, okc, 'subspan within the span', c.node['l'], kind='bounds')
    E.assume(st, okc)
    if is_z3(ln) and z3.is_bv_value(ln):
        ln = ln.as_long()
    return sub_seq(E, st, v, off, ln)


# iterators
@methods(['__gnu_cxx::__normal_iterator'], 'operator*', 'operator->')
def it_deref(E, st, fr, c):
    p = oval(E, st, c)
    l = E.deref(st, p, fr, c.node['l'])
    return l if c.f['n'].endswith('*') else E.addr(l)


@methods(['__gnu_cxx::__normal_iterator'], 'operator++', 'operator--')
def it_inc(E, st, fr, c):
    p = oval(E, st, c)
    d = 1 if c.f['n'].endswith('++') else -1
    n = PtrV(p.null, p.loc, E.add64(p.off, d), p.t)
    E.store(st, c.obj, n)
    return p if c.args else c.obj


@methods(['__gnu_cxx::__normal_iterator'], 'operator+', 'operator-', 'operator+=', 'operator-=', 'operator[]')
def it_add(E, st, fr, c):
    p = oval(E, st, c)
    k = E.convert(st, E.rv(st, c.args[0]), argt(c, 0), I64)
    if c.f['n'].split('operator')[-1].startswith('-'):
        k = E.arith(st, '-', 0, k, I64)
    n = PtrV(p.null, p.loc, E.add64(p.off, k), p.t)
    if c.f['n'].endswith('='):
        E.store(st, c.obj, n)
        return c.obj
    return n


@model('__gnu_cxx::operator-')
def it_diff(E, st, fr, c):
    a, b = E.rv(st, c.args[0]), E.rv(st, c.args[1])
    if isinstance(a, PtrV) and isinstance(b, PtrV) and a.loc and b.loc and a.loc.same(b.loc):
        return E.arith(st, '-', a.off if a.off is not None else 0, b.off if b.off is not None else 0, I64)
    return E.fresh64('itdiff')


@model('__gnu_cxx::operator==', 'std::operator==', 'std::__detail::operator==')
def it_eq(E, st, fr, c):
    return E.compare(st, '==', E.rv(st, c.args[0]), E.rv(st, c.args[1]), argt(c, 0) or I64)


@ctor('__gnu_cxx::__normal_iterator')
def it_ctor(E, st, fr, t, a, e):
    return E.rv(st, a[0])


# ------------------------------------------------------------------ strings ctors
@ctor('std::basic_string', 'std::basic_string_view')
def str_ctor(E, st, fr, t, a, e):
    if not a:
        return StrV(())
    vals = [E.rv(st, x) for x in a]
    vals = [v for v in vals if not (isinstance(v, OpqV) and v.t is not None and v.t.nn and 'allocator' in v.t.nn)]
    v = vals[0]
    if len(vals) == 1:
        if isinstance(v, VecV):
            return vec_to_str(E, st, v)
        return to_str(E, st, v)
    w = vals[1]
    if isinstance(v, PtrV) and isinstance(w, PtrV):
        return to_str(E, st, range_of(E, st, v, w))
    if isinstance(v, PtrV):
        n = E.convert(st, w, decay(fr.tu.T(e['a'][1]['t'])) if e['a'][1] else I64, I64U)
        if v.null is True:
            return StrV(())
        base = E.load(st, v.loc)
        if isinstance(base, VecV):
            base = vec_to_str(E, st, base)
        if not isinstance(base, StrV):
            return StrV((('in', 'raw%d' % E.uid(), 0, n),))
        off = v.off if v.off is not None else 0
        ln = E.vsize(base)
        if same_term(off, 0) and same_term(simp(tobv(n, 64)), simp(tobv(ln, 64))):
            return base
        if E.opts['check_bounds']:
            E.oblige(st, z3.And(z3.ULE(tobv(off, 64), tobv(ln, 64)), z3.ULE(tobv(n, 64), tobv(ln, 64) - tobv(off, 64))),
                     'string range within buffer', e['l'], kind='bounds')
        return E.str_sub(st, base, off, n)
    if isinstance(v, (int, z3.BitVecRef)) and isinstance(w, (int, z3.BitVecRef)):
        if isinstance(v, int) and v <= 4096:
            p = ()
            for _ in range(v):
                p = E.cat(p, (E.chpiece(w),))
            return StrV(p)
        if isinstance(w, int) and w in (32,):
            return StrV((('cls', 'spaces', E.uid()),))
        return StrV((('in', 'rep%d' % E.uid(), 0, E.convert(st, v, I64, I64U)),))
    if isinstance(v, StrV):
        off = w
        n = vals[2] if len(vals) > 2 else None
        return E.str_sub(st, v, off, n)
    return NotImplemented


@ctor('std::allocator')
def alloc_ctor(E, st, fr, t, a, e):
    return OpqV(t, 'alloc')


@ctor('std::vector')
def vec_ctor(E, st, fr, t, a, e):
    et = t.args[0]
    vals = [E.rv(st, x) for x in a]
    vals = [v for v in vals if not (isinstance(v, OpqV) and v.t is not None and v.t.nn and 'allocator' in v.t.nn)]
    if not vals:
        return VecV(et)
    v = vals[0]
    if isinstance(v, VecV):
        return VecV(et, v.buid, v.bsize, v.boff, v.tail, v.known)
    if len(vals) == 2 and isinstance(v, PtrV):
        r = range_of(E, st, v, vals[1])
        if isinstance(r, StrV):
            return append_vec(E, st, VecV(et), r)
        return VecV(et, r.buid, r.bsize, r.boff, r.tail, r.known)
    if isinstance(v, int) and v <= 1024:
        x = vals[1] if len(vals) > 1 else E.default(et, st, fr)
        return VecV(et, None, 0, 0, (x,) * v)
    if isinstance(v, (int, z3.BitVecRef)):
        n = E.convert(st, v, decay(fr.tu.T(e['a'][0]['t'])) if e['a'][0] else I64, I64U)
        return VecV(et, E.uid(), n)
    return NotImplemented


@ctor('std::span')
def span_ctor(E, st, fr, t, a, e):
    et = t.args[0]
    vals = [E.rv(st, x) for x in a]
    if not vals:
        return VecV(et)
    v = vals[0]
    if len(vals) == 1:
        if isinstance(v, VecV):
            return VecV(et, v.buid, v.bsize, v.boff, v.tail, v.known)
        return v
    if isinstance(v, PtrV):
        if isinstance(vals[1], PtrV):
            return range_of(E, st, v, vals[1])
        n = E.convert(st, vals[1], decay(fr.tu.T(e['a'][1]['t'])) if e['a'][1] else I64, I64U)
        if v.null is True:
            return VecV(et)
        base = E.load(st, v.loc)
        off = v.off if v.off is not None else 0
        if isinstance(base, VecV) and et.w and base.et.w and et.w != base.et.w:
            if E.opts['check_bounds']:
                tot = obj_bytes(E, st, v.loc, base)
                E.oblige(st, z3.ULE(tobv(n, 64) * (et.w // 8), tobv(tot, 64)), 'span within buffer', e['l'], kind='bounds')
            return VecV(et, E.uid(), n)
        if isinstance(base, (VecV, StrV)):
            ln = E.vsize(base)
            if same_term(off, 0) and same_term(simp(tobv(n, 64)), simp(tobv(ln, 64))):
                return VecV(et, base.buid, base.bsize, base.boff, base.tail, base.known) if isinstance(base, VecV) else base
            if E.opts['check_bounds']:
                E.oblige(st, z3.And(z3.ULE(tobv(off, 64), tobv(ln, 64)), z3.ULE(tobv(n, 64), tobv(ln, 64) - tobv(off, 64))),
                         'span within buffer', e['l'], kind='bounds')
            return sub_seq(E, st, base, off, n)
        return VecV(et, E.uid(), n)
    return NotImplemented


@ctor('std::initializer_list', 'std::array')
def il_ctor(E, st, fr, t, a, e):
    if not a:
        return NotImplemented
    return E.rv(st, a[0])


# ------------------------------------------------------------------ optional / expected / variant
@ctor('std::optional')
def opt_ctor(E, st, fr, t, a, e):
    if not a:
        return OptV(t, False, None)
    v = E.rv(st, a[0])
    at = decay(fr.tu.T(e['a'][0]['t'])) if e['a'][0] else None
    if at is not None and at.k == 'rec' and at.nn == 'std::nullopt_t':
        return OptV(t, False, None)
    if isinstance(v, OptV) and t.args[0].nn != 'std::optional':
        return OptV(t, v.has, v.v)
    r = OptV(t, True, construct(E, st, fr, t.args[0], a, [at], e) if t.args[0].k == 'rec' else E.coerce(st, fr, v, t.args[0], at))
    if e['a'][0] and e['a'][0].get('xv') and isinstance(a[0], Loc):
        E.moved(st, a[0])
    return r


@methods('std::optional', 'operator bool', 'has_value')
def opt_bool(E, st, fr, c):
    return oval(E, st, c).has


@methods('std::optional', 'operator*', 'operator->')
def opt_deref(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.load(st, l)
    if v.has is not True:
        if E.opts['check_bounds']:
            E.oblige(st, v.has, 'optional has a value', c.node['l'], kind='bounds')
        E.assume(st, v.has)
    r = Loc(l.root, l.path + (('opt',),))
    return r if c.f['n'].endswith('*') else PtrV(False, r, None)


@methods('std::optional', 'value')
def opt_value(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.load(st, l)
    if not E.decide(st, v.has):
        raise CppThrow('std::bad_optional_access')
    return Loc(l.root, l.path + (('opt',),))


@methods('std::optional', 'value_or')
def opt_value_or(E, st, fr, c):
    v = oval(E, st, c)
    if E.decide(st, v.has):
        return E.force(v.v, st)
    return E.coerce(st, fr, c.args[0], v.t.args[0], argt(c, 0))


@methods('std::optional', 'reset')
def opt_reset(E, st, fr, c):
    v = oval(E, st, c)
    E.store(st, c.obj, OptV(v.t, False, None))
    return VOID


@methods('std::optional', 'emplace')
def opt_emplace(E, st, fr, c):
    v = oval(E, st, c)
    x = construct(E, st, fr, v.t.args[0], c.args, [argt(c, i) for i in range(len(c.args))], c.node)
    E.store(st, c.obj, OptV(v.t, True, x))
    return Loc(c.obj.root, c.obj.path + (('opt',),))


@ctor('std::unexpected')
def unexp_ctor(E, st, fr, t, a, e):
    return SV(t, {'e': E.rv(st, a[0])})


@methods('std::unexpected', 'error')
def unexp_error(E, st, fr, c):
    return E.newroot(fr, 'err', None, st, oval(E, st, c).f['e'])


@ctor('std::expected')
def exp_ctor(E, st, fr, t, a, e):
    if not a:
        return ExpV(t, True, E.default(t.args[0], st, fr), None)
    v = E.rv(st, a[0])
    at = decay(fr.tu.T(e['a'][0]['t'])) if e['a'][0] else None
    if isinstance(v, SV) and v.t.nn == 'std::unexpected':
        return ExpV(t, False, None, v.f['e'])
    if isinstance(v, ExpV):
        if e.get('move') and isinstance(a[0], Loc):
            E.moved(st, a[0])
        return ExpV(t, v.ok, v.v, v.e)
    if t.args[0].k == 'rec':
        r = ExpV(t, True, construct(E, st, fr, t.args[0], a, [at], e), None)
    else:
        r = ExpV(t, True, E.coerce(st, fr, v, t.args[0], at), None)
    if e['a'][0] and e['a'][0].get('xv') and isinstance(a[0], Loc) and e['a'][0]['e'] != 'temp':
        E.moved(st, a[0])
    return r


@methods('std::expected', 'operator bool', 'has_value')
def exp_bool(E, st, fr, c):
    return oval(E, st, c).ok


@methods('std::expected', 'value')
def exp_value(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.load(st, l)
    if not E.decide(st, v.ok):
        raise CppThrow('std::bad_expected_access')
    if c.type.k == 'void':
        return VOID
    return Loc(l.root, l.path + (('opt',),))


@methods('std::expected', 'operator*', 'operator->')
def exp_deref(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.load(st, l)
    if v.ok is not True:
        if E.opts['check_bounds']:
            E.oblige(st, v.ok, 'expected holds a value', c.node['l'], kind='bounds')
        E.assume(st, v.ok)
    r = Loc(l.root, l.path + (('opt',),))
    return r if c.f['n'].endswith('*') else PtrV(False, r, None)


@methods('std::expected', 'error')
def exp_error(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.load(st, l)
    if v.ok is not False:
        E.assume(st, znot(v.ok))
        if v.e is None:
            raise PathEnd()
    return Loc(l.root, l.path + (('err',),))


@ctor('std::variant')
def var_ctor(E, st, fr, t, a, e):
    if not a:
        return NotImplemented
    v = E.rv(st, a[0])
    if isinstance(v, VarV):
        return v
    at = decay(fr.tu.T(e['a'][0]['t'])) if e['a'][0] else None
    r = E.mkvariant(st, fr, v, t, at)
    if e['a'][0] and e['a'][0].get('xv') and isinstance(a[0], Loc) and e['a'][0]['e'] != 'temp':
        E.moved(st, a[0])
    return r


def alts_of(t):
    return t.args[0] if isinstance(t.args[0], list) else t.args


def alt_index(E, c, vt):
    """alternative selected by the template argument of get/get_if/holds_alternative"""
    ta = c.f.get('ta') or []
    x = ta[0]
    if isinstance(x, dict) and x.get('k') == 'const':
        return x['v']
    T = decay(c.tu.T(x))
    for i, a in enumerate(alts_of(vt)):
        if a.key == T.key:
            return i
    raise Unsupported('alternative %s' % T.key)


def isalt(v, i):
    if isinstance(v.idx, int):
        return v.idx == i
    return simp(v.idx == i)


@model('std::get_if')
def get_if(E, st, fr, c):
    p = E.rv(st, c.args[0])
    l = E.deref(st, p)
    v = E.load(st, l)
    i = alt_index(E, c, v.t)
    ok = isalt(v, i)
    if ok is False:
        return NULLP
    if i not in v.alts:
        d = dict(v.alts)
        d[i] = LazyV(alts_of(v.t)[i], 'alt%d' % E.uid())
        E.refine(st, l, VarV(v.t, v.idx, d))
    # decide now: the pointer is used as a condition almost always
    if not isinstance(ok, bool):
        if E.decide(st, ok):
            v = E.load(st, l)
            E.refine(st, l, VarV(v.t, i, {i: v.alts[i]}))
            ok = True
        else:
            return NULLP
    return PtrV(False, Loc(l.root, l.path + (('alt', i),)), None)


@model('std::holds_alternative')
def holds_alt(E, st, fr, c):
    v = E.rv(st, c.args[0])
    return isalt(v, alt_index(E, c, v.t))


@model('std::get')
def std_get(E, st, fr, c):
    l = c.args[0] if isinstance(c.args[0], Loc) else E.newroot(fr, 'get', None, st, c.args[0])
    v = E.rv(st, l)
    if isinstance(v, SV):
        ta = c.f['ta'][0]
        return Loc(l.root, l.path + (('f', ['first', 'second'][ta['v']]),))
    if isinstance(v, VecV):
        return Loc(l.root, l.path + (('i', c.f['ta'][0]['v']),))
    i = alt_index(E, c, v.t)
    if not E.decide(st, isalt(v, i)):
        raise CppThrow('std::bad_variant_access')
    return Loc(l.root, l.path + (('alt', i),))


@methods('std::variant', 'index')
def var_index(E, st, fr, c):
    v = oval(E, st, c)
    return v.idx if isinstance(v.idx, int) else z3.ZeroExt(56, v.idx)


@methods('std::variant', 'valueless_by_exception')
def var_valueless(E, st, fr, c):
    return False


@model('std::visit')
def std_visit(E, st, fr, c):
    f = E.rv(st, c.args[0])
    l = c.args[1] if isinstance(c.args[1], Loc) else E.newroot(fr, 'vis', None, st, c.args[1])
    v = E.rv(st, l)
    alts = alts_of(v.t)
    if isinstance(v.idx, int):
        i = v.idx
    else:
        i = E.choose(len(alts))
        cond = simp(v.idx == i)
        if not E.feasible(st, cond):
            raise PathEnd()
        E.assume(st, cond)
        E.refine(st, l, VarV(v.t, i, {i: v.alts.get(i) or LazyV(alts[i], 'alt%d' % E.uid())}))
    al = Loc(l.root, l.path + (('alt', i),))
    at = alts[i]
    if isinstance(f, ClosV):
        return E.call_closure(st, fr, f, [al], {'l': c.node['l']}) if len(f.t.rec.ops) == 1 else visit_overload(E, st, fr, f, al, at, c)
    if isinstance(f, SV):
        # overloaded { ... } : bases are closures, or a struct with operator()
        return visit_overload(E, st, fr, f, al, at, c)
    raise Unsupported('visit of %r' % (f,))


def visit_overload(E, st, fr, f, al, at, c):
    tu = fr.tu
    cands = []
    R = f.t.rec
    recs = [R] + [b.rec for b in R.bases if b.rec]
    for r in recs:
        for i in (r.ops or []):
            F = r.tu.fns.get(i)
            if F is not None:
                cands.append((F, r))
    name = f.t.n + '::operator()'
    for F in E.prog.find(name):
        cands.append((F, R))
    best = None
    for F, r in cands:
        pt = decay(F.tu.T(F.params[0]['t']))
        if pt.key == at.key:
            best = F
            if isinstance(f, SV) and '@clos:%s' % r.id in f.f:
                f = f.f['@clos:%s' % r.id]
            break
    if best is None:
        raise Unsupported('visitor overload for %s' % at.key)
    clos = f if isinstance(f, ClosV) else ClosV(f.t, getattr(f, 'caps', {}) or f.f.get('@caps', {}))
    this = None if isinstance(f, ClosV) else E.newroot(fr, 'vis', f.t, st, f)

    def th(s):
        return E.run_fn(s, best, this, [al], fr, clos if isinstance(f, ClosV) else None)
    outs = E.cached_outcomes(th, st)
    return E.pick(outs, st)


# ------------------------------------------------------------------ unique_ptr
@ctor('std::unique_ptr')
def up_ctor(E, st, fr, t, a, e):
    if not a:
        return PtrV(True, None, None, t)
    v = E.rv(st, a[0])
    if isinstance(v, PtrV):
        r = PtrV(v.null, v.loc, v.off, t)
        if isinstance(a[0], Loc) and v.t is not None and v.t.k == 'rec':
            E.moved(st, a[0])
        return r
    return NotImplemented


@methods(['std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access'], 'get', 'operator->')
def up_get(E, st, fr, c):
    v = oval(E, st, c)
    return PtrV(v.null, v.loc, v.off, c.type)


@methods(['std::unique_ptr'], 'operator*')
def up_star(E, st, fr, c):
    return E.deref(st, oval(E, st, c), fr, c.node['l'])


@methods(['std::unique_ptr'], 'operator bool')
def up_bool(E, st, fr, c):
    return znot(oval(E, st, c).null)


@methods(['std::unique_ptr'], 'release')
def up_release(E, st, fr, c):
    v = oval(E, st, c)
    E.store(st, c.obj, PtrV(True, None, None, v.t))
    return PtrV(v.null, v.loc, v.off, c.type)


@methods(['std::unique_ptr'], 'reset')
def up_reset(E, st, fr, c):
    v = oval(E, st, c)
    h = E.hooks.get('uptr_dtor')
    if h:
        h(E, st, fr, c.obj, v.t)
    n = E.rv(st, c.args[0]) if c.args else NULLP
    E.store(st, c.obj, PtrV(n.null, n.loc, n.off, v.t))
    return VOID


@model('std::make_unique')
def make_unique(E, st, fr, c):
    t = c.type.args[0]
    v = construct(E, st, fr, t, c.args, [argt(c, i) for i in range(len(c.args))], c.node)
    return PtrV(False, E.heap('mku', t, st, v), None, c.type)


# ------------------------------------------------------------------ stack
@methods('std::stack', 'push', 'emplace')
def stk_push(E, st, fr, c):
    l = c.obj.f(('f', 'c'))
    v = E.load(st, l)
    E.store(st, l, E.vec_push(st, v, E.rv(st, c.args[0])))
    return VOID


@methods('std::stack', 'pop')
def stk_pop(E, st, fr, c):
    l = c.obj.f(('f', 'c'))
    nonempty(E, st, l, c)
    E.store(st, l, vpop(E, E.load(st, l)))
    return VOID


@methods('std::stack', 'top')
def stk_top(E, st, fr, c):
    l = oloc(E, st, fr, c).f(('f', 'c'))
    c2 = type(c)()
    c2.obj, c2.args, c2.node, c2.f, c2.type, c2.tu, c2.argn = l, [], c.node, c.f, c.type, c.tu, None
    return seq_back(E, st, fr, c2)


@methods('std::stack', 'empty')
def stk_empty(E, st, fr, c):
    n = E.vsize(oval(E, st, c).f['c'] if not isinstance(oval(E, st, c).f['c'], LazyV) else E.load(st, c.obj.f(('f', 'c'))))
    return n == 0 if isinstance(n, int) else simp(n == 0)


@methods('std::stack', 'size')
def stk_size(E, st, fr, c):
    return E.vsize(E.load(st, oloc(E, st, fr, c).f(('f', 'c'))))


@ctor('std::stack')
def stk_ctor(E, st, fr, t, a, e):
    if not a:
        return SV(t, {'c': VecV(t.args[0])})
    return NotImplemented


# ------------------------------------------------------------------ maps and sets
MAPS = ['std::unordered_map', 'std::map']
SETS = ['std::unordered_set', 'std::set']
ALLM = MAPS + SETS


@methods(ALLM, 'size')
def map_size(E, st, fr, c):
    return oval(E, st, c).size


@methods(ALLM, 'empty')
def map_empty(E, st, fr, c):
    n = oval(E, st, c).size
    return n == 0 if isinstance(n, int) else simp(n == 0)


@methods(ALLM, 'clear')
def map_clear(E, st, fr, c):
    v = oval(E, st, c)
    E.store(st, c.obj, MapV(v.t, 'empty', 0))
    return VOID


def keystr(k):
    if is_z3(k):
        return 'z%d' % k.get_id()
    if isinstance(k, SV):
        return '{' + ','.join(keystr(k.f[x]) for x in sorted(k.f)) + '}'
    if isinstance(k, (int, float, bool)):
        return str(k)
    if isinstance(k, StrV):
        return 's' + '+'.join(repr(x) if isinstance(x, bytes) else keystr(x[1] if x[0] != 'choice' else x[1]) for x in k.p)
    return 'u%d' % uid()


_found = {}


def map_lookup_(E, st, fr, v, key):
    """-> ('known', index) | ('maybe', Bool) | ('no', None)"""
    maybe = []
    for i, (k, x) in enumerate(v.entries):
        kt = v.t.args[0]
        c = E.compare(st, '==', k, key, kt)
        d = E.decide3(st, c)
        if d is True:
            return 'known', i
        if d is None:
            maybe.append(c)
    if v.uid == 'empty':
        return ('maybe', E.unk('found')) if maybe else ('no', None)
    kk = (v.uid, keystr(key))
    b = _found.get(kk)
    if b is None:
        b = z3.Bool('found!%s!%d' % (v.uid, uid()))
        _found[kk] = b
    for c in maybe:
        st.pc.append(z3.Implies(zbool(c), b))
    return 'maybe', b


def map_lookup(E, st, fr, v, key):
    k, x = map_lookup_(E, st, fr, v, key)
    h = E.hooks.get('maplookup')
    if h:
        h(E, st, v, key, {'known': True, 'no': False}.get(k, x))
    return k, x


@methods(ALLM, 'find')
def map_find(E, st, fr, c):
    v = oval(E, st, c)
    key = E.rv(st, c.args[0])
    k, x = map_lookup(E, st, fr, v, key)
    if k == 'no':
        return NULLP
    ismap = 'map' in v.t.nn
    if k == 'known':
        ent = v.entries[x]
        val = SV(PairT(v.t), {'first': ent[0], 'second': ent[1]}) if ismap else ent[0]
        return PtrV(False, E.newroot(None, '@mi', None, st, val), None)
    val = SV(PairT(v.t), {'first': key, 'second': LazyV(v.t.args[1], 'mf!%d' % E.uid())}) if ismap else key
    h = E.hooks.get('mapelem')
    if h:
        x2 = h(E, st, v, val)
        if x2 is not None and ismap:
            val = val.set('second', x2)
    l = E.heap('mi', None, st, val)
    st.pc.append(z3.Implies(x, tobv(v.size, 64) != 0))
    return PtrV(z3.Not(x), l, None)


@methods(ALLM, 'end', 'cend')
def map_end(E, st, fr, c):
    return PtrV(True, None, None)


@methods(ALLM, 'contains', 'count')
def map_contains(E, st, fr, c):
    v = oval(E, st, c)
    k, x = map_lookup(E, st, fr, v, E.rv(st, c.args[0]))
    r = {'no': False, 'known': True}.get(k, x)
    return r if c.f['n'].endswith('contains') else tobv(r, 64)


@methods(MAPS, 'operator[]')
def map_index(E, st, fr, c):
    v = oval(E, st, c)
    key = E.rv(st, c.args[0])
    k, x = map_lookup(E, st, fr, v, key)
    if k == 'known':
        return Loc(c.obj.root, c.obj.path + (('mapv', x),))
    if k == 'no':
        val = E.default(v.t.args[1], st, fr)
        sz = E.add64(v.size, 1)
    else:
        if E.decide(st, x):
            val = LazyV(v.t.args[1], 'mv!%d' % E.uid())
            h = E.hooks.get('mapelem')
            if h:
                x2 = h(E, st, v, SV(PairT(v.t), {'first': key, 'second': val}))
                val = val if x2 is None else x2
            sz = v.size
        else:
            val = E.default(v.t.args[1], st, fr)
            sz = E.add64(v.size, 1)
    nv = MapV(v.t, E.uid() if v.uid != 'empty' else 'empty', sz, v.entries + ((key, val),))
    E.mapfrom[nv.uid] = v.uid       # differs from the old map only in the entries listed
    E.store(st, c.obj, nv)
    return Loc(c.obj.root, c.obj.path + (('mapv', len(nv.entries) - 1),))


@methods(MAPS, 'at')
def map_at(E, st, fr, c):
    l = oloc(E, st, fr, c)
    v = E.rv(st, l)
    key = E.rv(st, c.args[0])
    k, x = map_lookup(E, st, fr, v, key)
    if k == 'known':
        return Loc(l.root, l.path + (('mapv', x),))
    if k == 'no' or not E.decide(st, x):
        raise CppThrow('std::out_of_range')
    val = LazyV(v.t.args[1], 'mv!%d' % E.uid())
    h = E.hooks.get('mapelem')
    if h:
        x2 = h(E, st, v, SV(PairT(v.t), {'first': key, 'second': val}))
        val = val if x2 is None else x2
    nv = MapV(v.t, v.uid, v.size, v.entries + ((key, val),))
    E.store_raw(st, l, nv)
    return Loc(l.root, l.path + (('mapv', len(nv.entries) - 1),))


@methods(SETS, 'insert', 'emplace')
def set_insert(E, st, fr, c):
    v = oval(E, st, c)
    key = E.coerce(st, fr, c.args[0], v.t.args[0], argt(c, 0))
    h = E.hooks.get('setinsert')
    if h:
        h(E, st, c.obj, v, key)
    k, x = map_lookup(E, st, fr, v, key)
    if k == 'known':
        pass
    else:
        if k == 'no':
            sz = E.add64(v.size, 1)
        else:
            sz = simp(tobv(v.size, 64) + z3.If(x, z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)))
        E.store(st, c.obj, MapV(v.t, v.uid, sz, v.entries + ((key, None),)))
    return SV(PairT(v.t), {'first': NULLP, 'second': E.unk('ins')})


@methods(MAPS, 'insert', 'emplace', 'insert_or_assign')
def map_insert(E, st, fr, c):
    v = oval(E, st, c)
    E.store(st, c.obj, MapV(v.t, E.uid(), E.fresh64('msz')))
    return SV(PairT(v.t), {'first': NULLP, 'second': E.unk('ins')})


@ctor('std::unordered_map', 'std::map', 'std::unordered_set', 'std::set')
def map_ctor(E, st, fr, t, a, e):
    if not a:
        return MapV(t, 'empty', 0)
    v = E.rv(st, a[0])
    if isinstance(v, MapV):
        return v
    return MapV(t, E.uid(), E.fresh64('msz'))


@methods(['std::__detail::_Node_const_iterator', 'std::__detail::_Node_iterator', 'std::_Rb_tree_const_iterator',
          'std::_Rb_tree_iterator', 'std::__detail::_Node_iterator_base'], 'operator*', 'operator->')
def node_deref(E, st, fr, c):
    p = oval(E, st, c)
    l = E.deref(st, p)
    return l if c.f['n'].endswith('*') else PtrV(False, l, None)


# ------------------------------------------------------------------ misc
@model('std::move', 'std::forward', 'std::as_const', 'std::launder')
def std_move(E, st, fr, c):
    return c.args[0]


@model('std::max', 'std::min')
def std_max(E, st, fr, c):
    a, b = E.rv(st, c.args[0]), E.rv(st, c.args[1]) if len(c.args) > 1 else None
    if b is None:
        return NotImplemented
    t = argt(c, 0)
    lt = E.compare(st, '<', a, b, t)
    mx = c.f['n'].split('<')[0].endswith('max')
    if isinstance(lt, bool):
        r = (b if lt else a) if mx else (a if lt else b)
        # min(a,b): (b<a)?b:a
        return E.newroot(fr, 'mm', t, st, r)
    if mx:
        r = E.merge_val(lt, b, a, t)
    else:
        gt = E.compare(st, '<', b, a, t)
        r = E.merge_val(gt, b, a, t)
    return E.newroot(fr, 'mm', t, st, r)


@model('std::clamp')
def std_clamp(E, st, fr, c):
    v, lo, hi = [E.rv(st, x) for x in c.args[:3]]
    t = argt(c, 0)
    a = E.compare(st, '<', v, lo, t)
    b = E.compare(st, '<', hi, v, t)
    w = t.w
    f = tofp if t.k == 'float' else tobv
    r = z3.If(zbool(a), f(lo, w), z3.If(zbool(b), f(hi, w), f(v, w)))
    return E.newroot(fr, 'clamp', t, st, simp(r))


@model('std::isnan', 'isnan', '__builtin_isnan')
def std_isnan(E, st, fr, c):
    v = E.rv(st, c.args[0])
    if isinstance(v, (int, float)):
        return v != v
    return z3.fpIsNaN(v)


@model('std::isfinite', 'isfinite')
def std_isfinite(E, st, fr, c):
    import math
    v = E.rv(st, c.args[0])
    if isinstance(v, (int, float)):
        return math.isfinite(v)
    return z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))


@model('std::isinf')
def std_isinf(E, st, fr, c):
    v = E.rv(st, c.args[0])
    if isinstance(v, (int, float)):
        return v in (float('inf'), float('-inf'))
    return z3.fpIsInf(v)


@model('cos', 'sin', 'log2', 'std::cos', 'std::sin')
def trig(E, st, fr, c):
    r = z3.FP('trig!%d' % E.uid(), F64)
    if c.f['n'][-3:] in ('cos', 'sin'):
        st.pc.append(z3.Or(z3.fpIsNaN(r), z3.And(z3.fpLEQ(r, tofp(1.0)), z3.fpGEQ(r, tofp(-1.0)))))
        v = E.rv(st, c.args[0])
        if isinstance(v, (int, float)):
            st.pc.append(z3.Not(z3.fpIsNaN(r)))
        else:
            st.pc.append(z3.Implies(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))), z3.Not(z3.fpIsNaN(r))))
    return r


@model('fabs', 'std::fabs', 'std::abs', 'abs')
def std_abs(E, st, fr, c):
    v = E.rv(st, c.args[0])
    if isinstance(v, (int, float)):
        return abs(v)
    if isinstance(v, z3.FPRef):
        return z3.fpAbs(v)
    return z3.If(v < 0, -v, v)


@model('std::byteswap')
def byteswap(E, st, fr, c):
    v = E.rv(st, c.args[0])
    t = c.type
    n = t.w // 8
    if isinstance(v, int):
        b = (v & ((1 << t.w) - 1)).to_bytes(n, 'little')
        return wrap(int.from_bytes(b, 'big'), t.w, t.s)
    if n == 1:
        return v
    return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]))


@model('strlen', '__builtin_strlen')
def c_strlen(E, st, fr, c):
    p = E.rv(st, c.args[0])
    if isinstance(p, PtrV) and p.null is not False:
        E.deref(st, PtrV(p.null, p.loc, None), fr, c.node['l'])
    s = E.cstr(st, p)
    if isinstance(s, StrV):
        return E.str_len(s.p)
    return E.fresh64('strlen')


@model('memcpy', 'memmove')
def c_memcpy(E, st, fr, c):
    d, s = E.rv(st, c.args[0]), E.rv(st, c.args[1])
    n = E.convert(st, E.rv(st, c.args[2]), argt(c, 2), I64U)
    if E.opts['check_bounds']:
        for p, what in ((d, 'memcpy destination'), (s, 'memcpy source')):
            check_range(E, st, p, n, what, c.node['l'])
    if isinstance(d, PtrV) and d.loc is not None:
        if d.off is None:
            t = E.type_at(d.loc.root, d.loc.path)
            if t is not None:
                E.store(st, d.loc, E.fresh(decay(t), 'mc%d' % E.uid(), st))
            else:
                E.havoc_loc(st, d.loc)
        elif isinstance(E.load(st, d.loc), VecV):
            v = E.load(st, d.loc)
            E.store(st, d.loc, VecV(v.et, E.uid(), E.vsize(v)))     # other contents, as many as before
        else:
            E.havoc_loc(st, d.loc)
    return d


@ctor('std::back_insert_iterator')
def back_ctor(E, st, fr, t, a, e):
    return E.rv(st, a[0]) if a else NotImplemented


def size_of(t):
    if t.k in ('int', 'enum', 'bool', 'float'):
        return t.w // 8
    if t.k == 'arr':
        return t.cnt * size_of(t.t)
    if t.sz:
        return t.sz
    if t.k in ('ptr', 'ref'):
        return 8
    raise Unsupported('size of %s' % t.key)


def check_range(E, st, p, n, what, line):
    if not isinstance(p, PtrV) or p.loc is None:
        return
    v = E.load(st, p.loc)
    if p.off is None:
        t = E.type_at(p.loc.root, p.loc.path)
        if t is None:
            return
        E.oblige(st, z3.ULE(tobv(n, 64), size_of(decay(t))), what + ' within object', line, kind='bounds')
        return
    if isinstance(v, StrV):
        es = 1
    elif isinstance(v, VecV):
        es = size_of(v.et)
    else:
        return
    ln = E.vsize(v)
    tot = tobv(ln, 64) * es
    o = tobv(p.off, 64) * es
    E.oblige(st, z3.And(z3.ULE(o, tot), z3.ULE(tobv(n, 64), tot - o)), what + ' within buffer', line, kind='bounds')


@model('memset')
def c_memset(E, st, fr, c):
    d = E.rv(st, c.args[0])
    n = E.rv(st, c.args[1])
    if isinstance(d, PtrV) and d.loc is not None and d.off is None:
        t = E.type_at(d.loc.root, d.loc.path)
        if t is not None and n == 0:
            E.store(st, d.loc, E.default(decay(t), st, fr))
            return d
    if isinstance(d, PtrV) and d.loc is not None:
        E.havoc_loc(st, d.loc)
    return d


@model('std::find', 'std::find_if')
def std_find(E, st, fr, c):
    b = E.rv(st, c.args[0])
    e = E.rv(st, c.args[1])
    o = E.fresh64('fi')
    if b.loc is None:
        return PtrV(b.null, b.loc, o)
    bo = tobv(b.off if b.off is not None else 0, 64)
    eo = tobv(e.off if e.off is not None else 0, 64)
    st.pc.append(z3.And(z3.UGE(o, bo), z3.ULE(o, eo)))
    h = E.hooks.get('find')
    if h and c.f['n'].endswith('find'):
        h(E, st, b.loc, bo, eo, E.rv(st, c.args[2]), o)
    h = E.hooks.get('find_if')
    if h and not c.f['n'].endswith('find'):
        h(E, st, fr, b.loc, bo, eo, E.rv(st, c.args[2]), o)
    return PtrV(False, b.loc, o)


@model('std::sort', 'std::swap', 'std::reverse', 'std::fill')
def std_sort(E, st, fr, c):
    b = E.rv(st, c.args[0])
    if isinstance(b, PtrV) and b.loc is not None:
        v = E.load(st, b.loc)
        E.store(st, b.loc, VecV(v.et, E.uid(), E.vsize(v)))
    return VOID


@model('fprintf', 'printf', 'perror', 'fputs', 'puts', 'std::hash::operator()')
def c_print(E, st, fr, c):
    if c.type.k == 'void':
        return VOID
    return E.fresh(c.type, 'pr%d' % E.uid(), st)


@model('snprintf')
def c_snprintf(E, st, fr, c):
    """a format of one %0Nx conversion whose value has N digits; anything else is unknown"""
    import re
    d, n = E.rv(st, c.args[0]), E.rv(st, c.args[1])
    f = E.rv(st, c.args[2])
    f = E.concrete_str(E.cstr(st, f)) if isinstance(f, (PtrV, StrV)) else None
    m = re.fullmatch(rb'%0(\d)([xX])\0*', f) if f is not None else None
    if m is None or len(c.args) != 4 or not isinstance(d, PtrV) or d.loc is None or d.off not in (None, 0) or not isinstance(n, int):
        return NotImplemented
    k = int(m.group(1))
    v = E.rv(st, c.args[3])
    v = tobv(v, 32) if not is_z3(v) else v
    if n <= k or E.decide3(st, z3.ULT(v, 1 << (4 * k))) is not True:
        return NotImplemented
    x = StrV((('fmt', 'u', m.group(0).strip(b'\0%').decode(), v),))
    st.pc.append(tobv(E.str_len(x.p), 64) == k)
    E.store(st, d.loc, x)
    return k


@model('std::back_inserter')
def back_ins(E, st, fr, c):
    return PtrV(False, c.args[0], 'back')


@ctor('std::back_insert_iterator')
def back_ctor(E, st, fr, t, a, e):
    v = E.rv(st, a[0])
    return v


# ------------------------------------------------------------------ format
@ctor('std::basic_format_string')
def fmt_ctor(E, st, fr, t, a, e):
    v = E.rv(st, a[0])
    s = to_str(E, st, v)
    b = E.concrete_str(s)
    if b is None:
        raise Unsupported('format string not constant')
    return OpqV(t, 'fmtstr', b)


def fmt_pieces(E, st, fr, fmt, args, ats):
    out = ()
    i = 0
    n = 0
    while i < len(fmt):
        ch = fmt[i:i + 1]
        if ch == b'{':
            if fmt[i + 1:i + 2] == b'{':
                out = E.cat(out, (b'{',))
                i += 2
                continue
            j = fmt.index(b'}', i)
            spec = fmt[i + 1:j].decode()
            k = n
            if ':' in spec:
                ix, spec = spec.split(':', 1)
            else:
                ix, spec = spec, ''
            if ix:
                k = int(ix)
            else:
                n += 1
            out = E.cat(out, fmt_one(E, st, fr, args[k], ats[k], spec))
            i = j + 1
        elif ch == b'}':
            out = E.cat(out, (b'}',))
            i += 2
        else:
            j = i
            while j < len(fmt) and fmt[j:j + 1] not in (b'{', b'}'):
                j += 1
            out = E.cat(out, (fmt[i:j],))
            i = j
    return out


def pyfmt(spec, v):
    if spec == '':
        return str(v)
    return format(v, spec)


def fmt_one(E, st, fr, a, t, spec):
    v = E.rv(st, a)
    t = decay(t)
    if t.k == 'bool':
        if isinstance(v, bool):
            return (b'true' if v else b'false',)
        return (('choice', v, (b'true',), (b'false',)),)
    if t.k in ('int', 'enum'):
        if isinstance(v, int):
            if t.n == 'char' and spec == '':
                return (bytes([v & 0xff]),)
            return (pyfmt(spec, v).encode(),)
        if t.n == 'char' and spec == '':
            return (E.chpiece(v),)
        if isinstance(v, z3.BoolRef):
            v = tobv(v, t.w)
        return (('fmt', 'i' if t.s else 'u', spec, v),)
    if t.k == 'float':
        if isinstance(v, (int, float)):
            v = float(v)
            if spec == 'f':
                return (('%f' % v).encode(),)
            if spec == '' and v == int(v) and abs(v) < 1e6:
                return (str(int(v)).encode(),)
            if spec == '':
                return (repr(v).encode(),)
        return (('fmt', 'd', spec, tofp(v, t.w)),)
    if isinstance(v, StrV):
        if spec:
            return (('in', 'fs%d' % E.uid(), 0, E.fresh64('fsl')),)
        return v.p
    if isinstance(v, PtrV):
        return to_str(E, st, v).p
    raise Unsupported('format of %s' % t.key)


@model('std::format')
def std_format(E, st, fr, c):
    f = E.rv(st, c.args[0])
    return StrV(fmt_pieces(E, st, fr, f.info, c.args[1:], [c.tu.T(a['t']) for a in c.argn[1:]]))


def member_inserter(E, st, fr, node):
    """class invariant of the formatters: the back_insert_iterator member refers to the string member
    it is initialised with in the constructor (established by every constructor, never reassigned)"""
    while isinstance(node, dict) and node['e'] in ('ctor', 'cast', 'temp'):
        node = node['a'][0] if node['e'] == 'ctor' else node['x']
    if node['e'] != 'mem':
        return None
    l = E.ev(node, st, fr)
    cls = decay(fr.tu.T(node['cls']))
    f = inserter_field(E, cls, node['f'])
    E.assumptions.add('member inserter %s of %s refers to %s' % (node['f'], cls.n, f))
    return PtrV(False, Loc(l.root, l.path[:-1] + (('f', f),)), 'back')


def inserter_field(E, cls, name):
    base = cls.n.split('::')[-1]

    def look(x):
        if isinstance(x, dict):
            if x.get('e') == 'mem' and x.get('f') != name:
                return x['f']
            for v in x.values():
                r = look(v)
                if r:
                    return r
        elif isinstance(x, list):
            for v in x:
                r = look(v)
                if r:
                    return r
        return None
    found = set()
    for F in E.prog.fns:
        if F.isctor and F.name == cls.n + '::' + base:
            for i in F.inits or []:
                if i.get('f') == name and i.get('e'):
                    r = look(i['e'])
                    if r:
                        found.add(r)
    for fd in cls.rec.fields:
        if fd[0] == name and fd[2]:
            r = look(fd[2])
            if r:
                found.add(r)
    if len(found) == 1:
        return found.pop()
    fs = [fd[0] for fd in cls.rec.fields if fd[1].k == 'rec' and fd[1].nn == 'std::basic_string']
    if len(fs) == 1:
        return fs[0]
    raise Unsupported('inserter target')


@model('std::format_to')
def std_format_to(E, st, fr, c):
    it = E.rv(st, c.args[0])
    f = E.rv(st, c.args[1])
    p = fmt_pieces(E, st, fr, f.info, c.args[2:], [c.tu.T(a['t']) for a in c.argn[2:]])
    mi = member_inserter(E, st, fr, c.argn[0])
    if mi is not None:
        it = mi
    if not isinstance(it, PtrV) or it.off != 'back':
        raise Unsupported('format_to destination')
    append_str(E, st, it.loc, p)
    return it


@methods('std::back_insert_iterator', 'operator=', 'operator*', 'operator++')
def bi_assign(E, st, fr, c):
    it = oval(E, st, c)
    if c.f['n'].endswith('='):
        ch = E.rv(st, c.args[0])
        append_str(E, st, it.loc, (E.chpiece(ch),))
    return c.obj


@methods('std::exception', 'what')
def exc_what(E, st, fr, c):
    return E.fresh_ptr(c.type, 'what%d' % E.uid(), st)


@model('std::to_string')
def to_string(E, st, fr, c):
    return StrV(fmt_one(E, st, fr, c.args[0], c.tu.T(c.argn[0]['t']), ''))
